---------------------------- MODULE PulseShaping ----------------------------
(***************************************************************************)
(* Pulse shaping: a tree of stages maps raw parameters y (slices x         *)
(* controls) to transferred parameters x on a finer, padded time grid.     *)
(* A tree is a tuple:                                                      *)
(*   <<"id", nc>>                                                          *)
(*   <<"over", nc, os, bt, nb, node, off>>  oversampling, padding bt/nb    *)
(*   <<"exp", nc, os, bt, nb, node, off>>   exponential settling           *)
(*   <<"conv", nc, klen, kcols, mode, node>> discrete convolution          *)
(*   <<"cust", nc, nx, ny, bt, nb, node, off, xt>>   given matrix          *)
(*   <<"cat", a, b>>  b after a      <<"par", a, b>>  side by side         *)
(* Values are terms (Terms.tla) in the atoms y, dt (durations), o (offset  *)
(* of a node), e (exp(-k dt / (os rise))), k (kernel), M (matrix).         *)
(* The object is re-gridded at will; nothing but the last grid counts.     *)
(***************************************************************************)
EXTENDS Terms, FiniteSets
CONSTANTS Trees,     \* sequence of [id, tree, lens]: lens = possible numbers of slices
          MaxHist

VARIABLES tr, hist
vars == <<tr, hist>>

Tree == tr.tree
RECURSIVE NC(_), OS(_), Pads(_), NX(_, _), XT(_, _), X(_, _), Ny(_)
(* number of controls *)
NC(n) == CASE n[1] = "cat" -> NC(n[2])
           [] n[1] = "par" -> NC(n[2]) + NC(n[3])
           [] OTHER -> n[2]
BPad(bt, nb, os) == CASE bt = "none" -> <<0, 0>>
                      [] bt = "n" -> <<nb, nb>>
                      [] bt = "x" -> <<nb * os, nb * os>>
                      [] bt = "right_n" -> <<0, nb>>
CustOS(n) == CASE n[5] = "none" -> n[3] \div n[4]
               [] n[5] = "n" -> (n[3] - 2 * n[6]) \div n[4]
               [] n[5] = "x" -> n[3] \div (n[4] + 2 * n[6])
               [] n[5] = "right_n" -> (n[3] - n[6]) \div n[4]
OS(n) == CASE n[1] \in {"over", "exp"} -> n[3]
           [] n[1] = "cust" -> CustOS(n)
           [] n[1] = "cat" -> OS(n[2]) * OS(n[3])
           [] n[1] = "par" -> OS(n[2])
           [] OTHER -> 1
(* samples padded before and after *)
Pads(n) == CASE n[1] \in {"over", "exp"} -> BPad(n[4], n[5], n[3])
             [] n[1] = "cust" -> BPad(n[5], n[6], CustOS(n))
             [] n[1] = "cat" -> <<Pads(n[2])[1] * OS(n[3]) + Pads(n[3])[1],
                                  Pads(n[2])[2] * OS(n[3]) + Pads(n[3])[2]>>
             [] n[1] = "par" -> Pads(n[2])
             [] OTHER -> <<0, 0>>
NX(n, ny) == CASE n[1] = "cat" -> NX(n[3], NX(n[2], ny))
               [] n[1] = "par" -> NX(n[2], ny)
               [] n[1] = "cust" -> n[3]
               [] OTHER -> ny * OS(n) + Pads(n)[1] + Pads(n)[2]
Ny(n) == CASE n[1] = "cat" -> Ny(n[2])
           [] n[1] = "par" -> Ny(n[2])
           [] n[1] = "cust" -> n[4]
           [] OTHER -> 0                       \* any

Part(t, os) == MulS(<<Num(1, os), t>>)
GridXT(n, os, p, yt) ==
    [i \in 1..(Len(yt) * os + p[1] + p[2]) |->
        IF i <= p[1] THEN Part(yt[1], os)
        ELSE IF i > p[1] + Len(yt) * os THEN Part(yt[Len(yt)], os)
        ELSE Part(yt[((i - p[1] - 1) \div os) + 1], os)]
XT(n, yt) == TLCEval(
    CASE n[1] = "cat" -> XT(n[3], XT(n[2], yt))
      [] n[1] = "par" -> XT(n[2], yt)
      [] n[1] = "cust" -> IF n[9] THEN [i \in 1..n[3] |-> At("xt", <<n[7], i>>)]
                          ELSE GridXT(n, OS(n), Pads(n), yt)
      [] OTHER -> GridXT(n, OS(n), Pads(n), yt))

Off(n) == IF n[7] THEN At("o", <<n[6]>>) ELSE Zero
(* where a boundary mode takes sample i of 1..len from: 0 = constant value *)
RECURSIVE Ext(_, _, _)
Ext(i, len, mode) ==
    IF 1 <= i /\ i <= len THEN i
    ELSE CASE mode = "constant" -> 0
           [] mode = "nearest" -> IF i < 1 THEN 1 ELSE len
           [] mode = "wrap" -> Ext(IF i < 1 THEN i + len ELSE i - len, len, mode)
           [] mode = "reflect" -> Ext(IF i < 1 THEN 1 - i ELSE 2 * len + 1 - i, len, mode)
           [] mode = "mirror" -> IF len = 1 THEN 1
                                 ELSE Ext(IF i < 1 THEN 2 - i ELSE 2 * len - i, len, mode)
XOver(n, y) == LET p == Pads(n)
                   os == n[3]
               IN [i \in 1..NX(n, Len(y)) |-> [c \in 1..n[2] |->
                     IF i <= p[1] \/ i > p[1] + Len(y) * os THEN Off(n)
                     ELSE Add(y[((i - p[1] - 1) \div os) + 1][c], Off(n))]]
(* settling towards y_i from the previous level (0 before the first and     *)
(* after the last value): previous e_k + y_i (1 - e_k) after k sub-steps    *)
XExp(n, y) == LET p == Pads(n)
                  os == n[3]
                  E(k) == At("e", <<n[6], k>>)
              IN [i \in 1..NX(n, Len(y)) |-> [c \in 1..n[2] |->
                    LET q == i - p[1] IN
                    IF q < 1 THEN Off(n)
                    ELSE IF q > Len(y) * os
                    THEN Add(Mul(E(q - Len(y) * os), y[Len(y)][c]), Off(n))
                    ELSE LET s == ((q - 1) \div os) + 1
                             k == q - (s - 1) * os
                             prev == IF s = 1 THEN Zero ELSE y[s - 1][c]
                         IN AddS(<<prev, MulS(<<Sub(One, E(k)), Sub(y[s][c], prev)>>), Off(n)>>)]]
XConv(n, y) == LET ny == Len(y)
                   nc == n[2]
               IN [i \in 1..ny |-> [c \in 1..nc |->
                    AddS([m \in 1..(n[3] * n[4]) |->
                       LET k == (m - 1) \div n[4]
                           l == (m - 1) % n[4]
                           ii == Ext(i + (n[3] \div 2) - k, ny, n[5])
                           cc == Ext(c + (n[4] \div 2) - l, nc, n[5])
                       IN Mul(At("k", <<n[6], k + 1, l + 1>>),
                              IF ii = 0 \/ cc = 0 THEN At("cval", <<n[6]>>) ELSE y[ii][cc])])]]
XCust(n, y) == [i \in 1..n[3] |-> [c \in 1..n[2] |->
                  Add(AddS([j \in 1..n[4] |-> Mul(At("M", <<n[7], i, j, c>>), y[j][c])]),
                      IF n[8] THEN At("o", <<n[7]>>) ELSE Zero)]]
Block(y, a, b) == [i \in 1..Len(y) |-> SubSeq(y[i], a, b)]
X(n, y) == TLCEval(
    CASE n[1] = "id" -> y
      [] n[1] = "over" -> XOver(n, y)
      [] n[1] = "exp" -> XExp(n, y)
      [] n[1] = "conv" -> XConv(n, y)
      [] n[1] = "cust" -> XCust(n, y)
      [] n[1] = "cat" -> X(n[3], X(n[2], y))
      [] n[1] = "par" -> LET a == X(n[2], Block(y, 1, NC(n[2])))
                             b == X(n[3], Block(y, NC(n[2]) + 1, NC(n)))
                         IN [i \in 1..Len(a) |-> a[i] \o b[i]])

YAtoms(ny) == TLCEval([i \in 1..ny |-> [c \in 1..NC(Tree) |-> At("y", <<i, c>>)]])
YTimes(ny) == TLCEval([i \in 1..ny |-> At("dt", <<i>>)])
DY(e, j, c) == D(e, <<"y", <<j, c>>>>)

Init == /\ tr \in {Trees[i] : i \in 1..Len(Trees)}
        /\ hist = <<>>
(* g: index of the grid *)
SetTimes(g) == /\ Len(hist) < MaxHist
               /\ hist' = Append(hist, g)
               /\ UNCHANGED tr
Next == \E g \in 1..Len(tr.lens) : SetTimes(g)
Spec == Init /\ [][Next]_vars

Ready == Len(hist) = 1
Nt == tr.lens[hist[Len(hist)]]
Xs == X(Tree, YAtoms(Nt))

RECURSIVE HasY(_)
HasY(e) == CASE e[1] = "at" -> e[2] = "y"
             [] e[1] \in {"add", "mul"} -> \E i \in 1..Len(e[2]) : HasY(e[2][i])
             [] OTHER -> FALSE
(* output samples, output time steps and the reported count agree *)
Counts == Ready => /\ Len(Xs) = NX(Tree, Nt)
                   /\ Len(XT(Tree, YTimes(Nt))) = NX(Tree, Nt)
                   /\ \A i \in 1..Len(Xs) : Len(Xs[i]) = NC(Tree)
RECURSIVE NoCust(_), PlainPads(_)
NoCust(n) == CASE n[1] = "cust" -> FALSE
               [] n[1] \in {"cat", "par"} -> NoCust(n[2]) /\ NoCust(n[3])
               [] OTHER -> TRUE
PlainPads(n) == CASE n[1] \in {"over", "id"} -> TRUE
                  [] n[1] \in {"cat", "par"} -> PlainPads(n[2]) /\ PlainPads(n[3])
                  [] OTHER -> FALSE
(* every slice is subdivided without gap: OS samples of 1/OS of its length *)
Subdivided ==
    Ready /\ NoCust(Tree) =>
      LET xt == XT(Tree, YTimes(Nt))
          p == Pads(Tree)[1]
          w == OS(Tree)
          RECURSIVE Frac(_)
          Frac(e) == IF e[1] = "num" THEN e[3] ELSE IF e[1] = "at" THEN 1
                     ELSE LET RECURSIVE P(_)
                              P(s) == IF Len(s) = 0 THEN 1 ELSE Frac(Head(s)) * P(Tail(s))
                          IN P(e[2])
          RECURSIVE Base(_)
          Base(e) == IF e[1] = "at" THEN e[3][1] ELSE IF e[1] = "num" THEN 0
                     ELSE LET S == {Base(e[2][i]) : i \in 1..Len(e[2])} \ {0}
                          IN CHOOSE b \in S : TRUE
      IN /\ Len(xt) = Nt * w + p + Pads(Tree)[2]
         /\ \A i \in 1..(Nt * w) : /\ Base(xt[p + i]) = ((i - 1) \div w) + 1
                                   /\ Frac(xt[p + i]) = w
(* padding does not depend on the parameters *)
PaddingIdle == Ready /\ PlainPads(Tree) =>
                 \A i \in 1..Len(Xs) :
                    (i <= Pads(Tree)[1] \/ i > Len(Xs) - Pads(Tree)[2]) =>
                       \A c \in 1..NC(Tree) : ~HasY(Xs[i][c])
(* affine in the parameters *)
Affine == Ready => \A i \in 1..Len(Xs) : \A c \in 1..NC(Tree) : \A j \in 1..Nt :
                      ~HasY(DY(Xs[i][c], j, c))
RECURSIVE NoMix(_)
NoMix(n) == CASE n[1] = "conv" -> n[4] = 1
              [] n[1] \in {"cat", "par"} -> NoMix(n[2]) /\ NoMix(n[3])
              [] OTHER -> TRUE
(* controls are shaped independently *)
Separate == Ready /\ NoMix(Tree) =>
               \A i \in 1..Len(Xs) : \A c, c2 \in 1..NC(Tree) : \A j \in 1..Nt :
                  c /= c2 => IsZero(DY(Xs[i][c], j, c2))
(* transpose of the linear part applied to derivatives g *)
Chain(nt) == [j \in 1..nt |-> [c \in 1..NC(Tree) |->
                AddS([m \in 1..(Len(Xs) * NC(Tree)) |->
                   LET i == ((m - 1) \div NC(Tree)) + 1
                       c2 == ((m - 1) % NC(Tree)) + 1
                   IN Mul(DY(Xs[i][c2], j, c), At("g", <<i, c2>>))])]]
LinPart(nt) == [i \in 1..Len(Xs) |-> [j \in 1..nt |-> [c \in 1..NC(Tree) |-> DY(Xs[i][c], j, c)]]]

(* the adjoint is emitted in full for small stages, as linear part otherwise *)
Small == Len(Xs) * NC(Tree) * Nt * NC(Tree) <= 200
EmitShape == Ready => Emit([id |-> tr.id, nt |-> Nt, g |-> hist[1], x |-> Xs, xt |-> XT(Tree, YTimes(Nt)),
                            nx |-> NX(Tree, Nt), pad |-> Pads(Tree), chain |-> IF Small \/ ~NoMix(Tree) THEN Chain(Nt) ELSE <<>>,
                            lin |-> IF NoMix(Tree) THEN LinPart(Nt) ELSE <<>>])
EmitHist == Len(hist) = MaxHist => Emit([id |-> tr.id, hist |-> hist])
=============================================================================
