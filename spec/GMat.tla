-------------------------------- MODULE GMat --------------------------------
(***************************************************************************)
(* Exact matrices of Gaussian integers.  A number is <<re, im>>, a matrix a *)
(* sequence of rows.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

C0 == <<0, 0>>
C1 == <<1, 0>>
CI == <<0, 1>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CNeg(a) == <<-a[1], -a[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CConj(a) == <<a[1], -a[2]>>
CAbs2(a) == a[1] * a[1] + a[2] * a[2]
RECURSIVE CSum(_)
CSum(s) == LET n == Len(s)
           IN IF n = 0 THEN C0
              ELSE IF n = 1 THEN s[1]
              ELSE CAdd(CSum(SubSeq(s, 1, n \div 2)), CSum(SubSeq(s, n \div 2 + 1, n)))

Rows(m) == Len(m)
Cols(m) == Len(m[1])
Mat(r, c, f(_, _)) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> f(i, j)])])
MAdd(a, b) == Mat(Rows(a), Cols(a), LAMBDA i, j : CAdd(a[i][j], b[i][j]))
MScale(x, a) == Mat(Rows(a), Cols(a), LAMBDA i, j : CMul(x, a[i][j]))
MSubt(a, b) == MAdd(a, MScale(<<-1, 0>>, b))
MMul(a, b) == Mat(Rows(a), Cols(b), LAMBDA i, j :
                    CSum([k \in 1..Cols(a) |-> CMul(a[i][k], b[k][j])]))
MTp(a) == Mat(Cols(a), Rows(a), LAMBDA i, j : a[j][i])
MConj(a) == Mat(Rows(a), Cols(a), LAMBDA i, j : CConj(a[i][j]))
MDag(a) == MTp(MConj(a))
MTr(a) == CSum([k \in 1..Rows(a) |-> a[k][k]])
MId(d) == Mat(d, d, LAMBDA i, j : IF i = j THEN C1 ELSE C0)
MZero(r, c) == Mat(r, c, LAMBDA i, j : C0)
MKron(a, b) == LET rb == Rows(b)  cb == Cols(b)
               IN Mat(Rows(a) * rb, Cols(a) * cb, LAMBDA i, j :
                      CMul(a[((i - 1) \div rb) + 1][((j - 1) \div cb) + 1],
                           b[((i - 1) % rb) + 1][((j - 1) % cb) + 1]))
(* rows and columns idx (a sequence) *)
MSubspace(a, idx) == Mat(Len(idx), Len(idx), LAMBDA i, j : a[idx[i]][idx[j]])
MRows(a, idx) == [i \in 1..Len(idx) |-> a[idx[i]]]
(* columns stacked / unstacked *)
MVec(a) == TLCEval([k \in 1..(Rows(a) * Cols(a)) |-> <<a[((k - 1) % Rows(a)) + 1][((k - 1) \div Rows(a)) + 1]>>])
MUnvec(v, d) == Mat(d, d, LAMBDA i, j : v[(j - 1) * d + i][1])

RECURSIVE Prod(_)
Prod(s) == IF Len(s) = 0 THEN 1 ELSE Head(s) * Prod(Tail(s))
(* mixed-radix digits of k (0-based) with the first factor most significant *)
Digits(k, dims) == [n \in 1..Len(dims) |->
                      (k \div Prod(SubSeq(dims, n + 1, Len(dims)))) % dims[n]]
RECURSIVE Undigits(_, _)
Undigits(g, dims) == IF Len(dims) = 0 THEN 0
                     ELSE Undigits(SubSeq(g, 1, Len(g) - 1), SubSeq(dims, 1, Len(dims) - 1))
                          * dims[Len(dims)] + g[Len(g)]
SelectIdx(s, S) == LET RECURSIVE F(_)
                       F(n) == IF n > Len(s) THEN <<>>
                               ELSE (IF n \in S THEN <<s[n]>> ELSE <<>>) \o F(n + 1)
                   IN F(1)
(* partial trace over the factors in remove (a set of positions) *)
MPtrace(a, dims, remove) ==
    LET keep == (1..Len(dims)) \ remove
        kd == SelectIdx(dims, keep)
        rd == SelectIdx(dims, remove)
        n == Prod(kd)
        (* position among the kept (removed) factors of factor f *)
        Pos(S, f) == Cardinality({g \in S : g <= f})
        Join(k, r) == LET dk == Digits(k, kd)  dr == Digits(r, rd)
                      IN Undigits([f \in 1..Len(dims) |->
                                     IF f \in keep THEN dk[Pos(keep, f)] ELSE dr[Pos(remove, f)]], dims)
        at == TLCEval([k \in 1..n |-> TLCEval([r \in 1..Prod(rd) |-> Join(k - 1, r - 1) + 1])])
    IN Mat(n, n, LAMBDA i, j : CSum([r \in 1..Prod(rd) |-> a[at[i][r]][at[j][r]]]))
MTrace2(a, b) == MTr(MMul(MDag(a), b))       \* Hilbert-Schmidt product
=============================================================================
