---------------------------- MODULE OperatorHeap ----------------------------
(***************************************************************************)
(* A heap of operator objects ("op") and plain arrays ("arr") holding exact *)
(* matrices, and programs of pure, in-place and copying operations.         *)
(* Objects of one class cls may share memory (an operator wraps the array   *)
(* it is made of).  A mutation makes the other members of the class unknown *)
(* until the end; every other object keeps its value.                       *)
(*                                                                         *)
(* A program is either a script [heap, dims, steps], steps a sequence of    *)
(* <<action, picks>> with the operands chosen by the numbers picks, or      *)
(* (steps = <<>>) any sequence of at most MaxLen actions.                   *)
(***************************************************************************)
EXTENDS GMat, Json
CONSTANTS Scripts, MaxLen, MaxObj, Bound

Emit(x) == PrintT("@" \o ToJson(x))
VARIABLES script, heap, pc, log
vars == <<script, heap, pc, log>>

Acts == {"add", "sub", "mul", "mularr", "rmularr", "addarr", "subarr", "smul", "rsmul", "sdiv",
         "sadd", "ssub", "dag", "conj", "tp", "copy", "kron", "kronarr", "ptrace", "trunc", "sup", "suparr",
         "vec", "vecarr", "unvec", "unvecarr", "wrap", "wrapop", "idlike", "trace", "get", "flatten",
         "iadd", "isub", "imul", "iaddarr", "isubarr", "imularr", "ismul", "isdiv", "isadd", "issub",
         "idag", "iconj", "itp", "iptrace", "set", "setarr", "truncnone"}
Mutators == {"iadd", "isub", "imul", "iaddarr", "isubarr", "imularr", "ismul", "isdiv", "isadd", "issub",
             "idag", "iconj", "itp", "iptrace", "set", "setarr"}
(* scalar pool: index -> Gaussian integer, with inverse for the units *)
Scal == << <<2, 0>>, <<-1, 0>>, <<0, 1>>, <<1, -2>>, <<0, 0>>, <<3, 0>>, <<1, 0>> >>
Units == << <<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>> >>
UnitInv(u) == CConj(u)

N == Len(heap)
Known(i) == heap[i].known
SeqOf(S) == LET RECURSIVE F(_)
                F(i) == IF i > N THEN <<>> ELSE (IF i \in S THEN <<i>> ELSE <<>>) \o F(i + 1)
            IN F(1)
Ops == {i \in 1..N : heap[i].kind = "op" /\ Known(i)}
Arrs == {i \in 1..N : heap[i].kind = "arr" /\ Known(i)}
M(i) == heap[i].val
R(i) == Rows(M(i))
Cc(i) == Cols(M(i))
Square(i) == R(i) = Cc(i)
Same(i, j) == R(i) = R(j) /\ Cc(i) = Cc(j)

(* operand tuples of an action: a set of sequences of object numbers *)
P1(A, p(_)) == {<<i>> : i \in {i \in A : p(i)}}
P2(A, B, p(_, _)) == {x \in (A \X B) : p(x[1], x[2])}
Operands(a) ==
    CASE a \in {"add", "sub", "iadd", "isub"} -> P2(Ops, Ops, Same)
      [] a = "mul" -> P2(Ops, Ops, LAMBDA i, j : Cc(i) = R(j))
      [] a = "imul" -> P2(Ops, Ops, LAMBDA i, j : Cc(i) = R(j) /\ Square(j))
      [] a \in {"addarr", "subarr", "iaddarr", "isubarr"} -> P2(Ops, Arrs, Same)
      [] a = "mularr" -> P2(Ops, Arrs, LAMBDA i, j : Cc(i) = R(j))
      [] a = "imularr" -> P2(Ops, Arrs, LAMBDA i, j : Cc(i) = R(j) /\ Square(j))
      [] a = "rmularr" -> P2(Arrs, Ops, LAMBDA i, j : Cc(i) = R(j))
      [] a = "kron" -> P2(Ops, Ops, LAMBDA i, j : R(i) * R(j) <= 9 /\ Cc(i) * Cc(j) <= 9)
      [] a = "kronarr" -> P2(Ops, Arrs, LAMBDA i, j : R(i) * R(j) <= 9 /\ Cc(i) * Cc(j) <= 9)
      [] a \in {"ptrace", "iptrace"} ->
            P1(Ops, LAMBDA i : R(i) \in DOMAIN script.dims /\ script.dims[R(i)] /= <<>>
                               /\ (Square(i) \/ Cc(i) = 1))
      [] a = "trunc" -> P1(Ops, LAMBDA i : Square(i) \/ R(i) = 1 \/ Cc(i) = 1)
      [] a \in {"sup"} -> P1(Ops, LAMBDA i : Square(i) /\ R(i) <= 3)
      [] a \in {"suparr"} -> P1(Arrs, LAMBDA i : Square(i) /\ R(i) <= 3)
      [] a = "vec" -> P1(Ops, LAMBDA i : Square(i) /\ R(i) <= 4)
      [] a = "vecarr" -> P1(Arrs, LAMBDA i : Square(i) /\ R(i) <= 4)
      [] a = "unvec" -> P1(Ops, LAMBDA i : Cc(i) = 1 /\ R(i) \in {1, 4, 9})
      [] a = "unvecarr" -> P1(Arrs, LAMBDA i : Cc(i) = 1 /\ R(i) \in {1, 4, 9})
      [] a \in {"wrap", "setarr"} -> P1(Arrs, LAMBDA i : TRUE)
      [] a \in {"idlike", "trace"} -> P1(Ops, Square)
      [] OTHER -> P1(Ops, LAMBDA i : TRUE)
SqrtI(n) == CHOOSE d \in 1..n : d * d = n
(* the subset of 1..n coded by the bits of b *)
Bits(n, b) == {i \in 1..n : (b \div 2^(i - 1)) % 2 = 1}
Subset2(n, k) == Bits(n, (k % (2^n - 1)) + 1)          \* not empty
IdxSeq(S, rev) == LET RECURSIVE F(_)
                      F(Q) == IF Q = {} THEN <<>>
                              ELSE LET m == CHOOSE m \in Q : \A q \in Q : m <= q
                                   IN <<m>> \o F(Q \ {m})
                      s == F(S)
                  IN IF rev THEN [i \in 1..Len(s) |-> s[Len(s) + 1 - i]] ELSE s
ScalarMat(i, x) == Mat(R(i), Cc(i), LAMBDA p, q : x)
PtDims(i) == script.dims[R(i)][1]
Rho(i) == IF Cc(i) = 1 THEN MMul(M(i), MDag(M(i))) ELSE M(i)
Removed(i, k) == Bits(Len(PtDims(i)), k % 2^Len(PtDims(i)))
SetEl(m, p, q, x) == Mat(Rows(m), Cols(m), LAMBDA i, j : IF i = p /\ j = q THEN x ELSE m[i][j])

(* value of action a on operands o with parameter k *)
Value(a, o, k) ==
    LET i == o[1]
        j == IF Len(o) > 1 THEN o[2] ELSE o[1]
        s == Scal[(k % Len(Scal)) + 1]
        u == Units[(k % Len(Units)) + 1]
    IN CASE a \in {"add", "addarr", "iadd", "iaddarr"} -> MAdd(M(i), M(j))
         [] a \in {"sub", "subarr", "isub", "isubarr"} -> MSubt(M(i), M(j))
         [] a \in {"mul", "mularr", "rmularr", "imul", "imularr"} -> MMul(M(i), M(j))
         [] a \in {"smul", "rsmul", "ismul"} -> MScale(s, M(i))
         [] a \in {"sdiv", "isdiv"} -> MScale(UnitInv(u), M(i))
         [] a \in {"sadd", "isadd"} -> MAdd(M(i), ScalarMat(i, s))
         [] a \in {"ssub", "issub"} -> MSubt(M(i), ScalarMat(i, s))
         [] a \in {"dag", "idag"} -> MDag(M(i))
         [] a \in {"conj", "iconj"} -> MConj(M(i))
         [] a \in {"tp", "itp"} -> MTp(M(i))
         [] a \in {"copy", "wrap", "wrapop", "truncnone"} -> M(i)
         [] a \in {"kron", "kronarr"} -> MKron(M(i), M(j))
         [] a \in {"ptrace", "iptrace"} -> MPtrace(Rho(i), PtDims(i), Removed(i, k))
         [] a = "trunc" -> LET n == IF R(i) = 1 THEN Cc(i) ELSE R(i)
                               idx == IdxSeq(Subset2(n, k), k % 3 = 0)
                           IN IF Square(i) THEN MSubspace(M(i), idx)
                              ELSE IF R(i) = 1 THEN << [p \in 1..Len(idx) |-> M(i)[1][idx[p]]] >>
                              ELSE MRows(M(i), idx)
         [] a \in {"sup", "suparr"} -> MKron(MConj(M(i)), M(i))
         [] a \in {"vec", "vecarr"} -> MVec(M(i))
         [] a \in {"unvec", "unvecarr"} -> MUnvec(M(i), SqrtI(R(i)))
         [] a = "idlike" -> MId(R(i))
         [] a = "trace" -> <<<<MTr(M(i))>>>>
         [] a = "get" -> <<<<M(i)[(k % R(i)) + 1][(k % Cc(i)) + 1]>>>>
         [] a = "flatten" -> <<[p \in 1..(R(i) * Cc(i)) |-> M(i)[((p - 1) \div Cc(i)) + 1][((p - 1) % Cc(i)) + 1]]>>
         [] a \in {"set", "setarr"} -> SetEl(M(i), (k % R(i)) + 1, (k % Cc(i)) + 1, s)
Small(m) == \A i \in 1..Rows(m) : \A j \in 1..Cols(m) :
               m[i][j][1] \in (-Bound)..Bound /\ m[i][j][2] \in (-Bound)..Bound
Extra(a, o, k) ==     \* what the replay needs to know
    LET i == o[1] IN
    CASE a \in {"ptrace", "iptrace"} -> [dims |-> PtDims(i), remove |-> IdxSeq(Removed(i, k), k % 2 = 0)]
      [] a = "trunc" -> [idx |-> IdxSeq(Subset2(IF R(i) = 1 THEN Cc(i) ELSE R(i), k), k % 3 = 0)]
      [] a \in {"get", "set", "setarr"} -> [at |-> <<(k % R(i)) + 1, (k % Cc(i)) + 1>>,
                                            s |-> Scal[(k % Len(Scal)) + 1]]
      [] a \in {"sdiv", "isdiv"} -> [s |-> Units[(k % Len(Units)) + 1]]
      [] OTHER -> [s |-> Scal[(k % Len(Scal)) + 1]]
KindOf(a) == IF a \in {"suparr", "vecarr", "unvecarr", "flatten"} THEN "arr"
             ELSE IF a \in {"trace", "get"} THEN "scalar" ELSE "op"
(* the result may share memory with the operand *)
ClassOf(a, o) == IF a \in {"wrap", "wrapop", "truncnone", "vecarr", "unvecarr"} THEN heap[o[1]].cls
                 ELSE N + 1
Fresh == {1}
(* the result of trunc(None) is the operator itself: same class as well *)
Step(a, o, k) ==
    LET v == Value(a, o, k) IN
    /\ Small(v)
    /\ IF a \in Mutators
       THEN heap' = [i \in 1..N |->
                       IF i = o[1] THEN [heap[i] EXCEPT !.val = v]
                       ELSE IF heap[i].cls = heap[o[1]].cls THEN [heap[i] EXCEPT !.known = FALSE]
                       ELSE heap[i]]
       ELSE IF KindOf(a) = "scalar" THEN heap' = heap
       ELSE /\ N < MaxObj
            /\ heap' = Append(heap, [kind |-> KindOf(a), val |-> v, cls |-> ClassOf(a, o), known |-> TRUE])
    /\ log' = Append(log, [a |-> a, o |-> o, x |-> Extra(a, o, k),
                           t |-> IF a \in Mutators THEN "mut" ELSE KindOf(a), v |-> v])

TupleSeq(S) == LET RECURSIVE F(_)
                   F(Q) == IF Q = {} THEN <<>>
                           ELSE LET m == CHOOSE m \in Q : \A q \in Q :
                                          m[1] < q[1] \/ (m[1] = q[1] /\ m[Len(m)] <= q[Len(q)])
                                IN <<m>> \o F(Q \ {m})
               IN F(S)
Init == /\ script \in Scripts
        /\ heap = [i \in 1..Len(script.heap) |->
                     [kind |-> script.heap[i].kind, val |-> script.heap[i].val, cls |-> i, known |-> TRUE]]
        /\ pc = 0
        /\ log = <<>>
Scripted == /\ pc < Len(script.steps)
            /\ LET st == script.steps[pc + 1]
                   c == TupleSeq(Operands(st[1]))
               IN IF Len(c) = 0 \/ ~Small(Value(st[1], c[(st[2] % Len(c)) + 1], st[3]))
                     \/ (st[1] \notin Mutators /\ KindOf(st[1]) /= "scalar" /\ N >= MaxObj)
                  THEN UNCHANGED <<heap, log>>
                  ELSE Step(st[1], c[(st[2] % Len(c)) + 1], st[3])
            /\ pc' = pc + 1
            /\ UNCHANGED script
Free == /\ script.steps = <<>>
        /\ pc < MaxLen
        /\ \E a \in Acts : \E o \in Operands(a) : \E k \in script.ks : Step(a, o, k)
        /\ pc' = pc + 1
        /\ UNCHANGED script
Next == Scripted \/ Free
Spec == Init /\ [][Next]_vars

Done == pc = (IF script.steps = <<>> THEN MaxLen ELSE Len(script.steps))
(* ---- what holds of the algebra, on every reachable heap ---------------- *)
(* (TLC's integers have 32 bits: products of three matrices of small entries) *)
Tame(i) == i <= 4 /\ R(i) <= 6 /\ Cc(i) <= 6 /\ \A p \in 1..R(i) : \A q \in 1..Cc(i) :
              M(i)[p][q][1] \in (-200)..200 /\ M(i)[p][q][2] \in (-200)..200
TameOps == {i \in Ops : Tame(i)}
Pairs == TameOps \X TameOps
AdjointProduct == \A x \in Pairs : Cc(x[1]) = R(x[2]) =>
                     MDag(MMul(M(x[1]), M(x[2]))) = MMul(MDag(M(x[2])), MDag(M(x[1])))
TraceCyclic == \A x \in Pairs : (Cc(x[1]) = R(x[2]) /\ R(x[1]) = Cc(x[2])) =>
                     MTr(MMul(M(x[1]), M(x[2]))) = MTr(MMul(M(x[2]), M(x[1])))
(* U m U^dag as super-operator on the column-stacked matrix *)
SuperIsConjugation == \A x \in Pairs : (Square(x[1]) /\ Same(x[1], x[2]) /\ R(x[1]) <= 3) =>
                     MMul(MKron(MConj(M(x[1])), M(x[1])), MVec(M(x[2])))
                        = MVec(MMul(M(x[1]), MMul(M(x[2]), MDag(M(x[1])))))
UnvecVec == \A i \in TameOps : (Square(i) /\ R(i) <= 4) => MUnvec(MVec(M(i)), R(i)) = M(i)
PtraceKron == \A x \in Pairs : (Square(x[1]) /\ Square(x[2]) /\ R(x[1]) * R(x[2]) <= 6) =>
                     MPtrace(MKron(M(x[1]), M(x[2])), <<R(x[1]), R(x[2])>>, {2})
                        = MScale(MTr(M(x[2])), M(x[1]))
PtraceTrace == \A i \in TameOps : (R(i) \in DOMAIN script.dims /\ script.dims[R(i)] /= <<>> /\ Square(i)) =>
                     MTr(MPtrace(M(i), PtDims(i), {1})) = MTr(M(i))
(* nothing but the class of a mutated object ever changes *)
OnlyReceiver == [][\A i \in 1..Len(heap) :
                      heap'[i] /= heap[i] =>
                         Len(log') > Len(log) /\ log'[Len(log')].t = "mut"
                         /\ heap[log'[Len(log')].o[1]].cls = heap[i].cls]_vars
EmitProg == Done => Emit([id |-> script.id, log |-> log,
                          known |-> [i \in 1..N |-> heap[i].known]])
=============================================================================
