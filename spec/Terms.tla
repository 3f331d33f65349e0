------------------------------- MODULE Terms -------------------------------
(***************************************************************************)
(* Symbolic observables.  A term is a tuple <<op, ...>>; matrices do not   *)
(* commute, scalars do.  D is symbolic differentiation; Word flattens a    *)
(* product into the sequence of its factors (associativity), which is the  *)
(* normal form in which composition laws are checked.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

Num(n, d) == <<"num", n, d>>
Zero == Num(0, 1)
One  == Num(1, 1)
Im   == <<"im">>
Idm  == <<"id">>
At(name, idx) == <<"at", name, idx>>

IsZero(e) == e[1] = "num" /\ e[2] = 0
IsOne(e)  == e[1] = "num" /\ e[2] = e[3]
IsId(e)   == e[1] = "id"

AddS(s) == LET t == SelectSeq(s, LAMBDA e : ~IsZero(e))
           IN  IF Len(t) = 0 THEN Zero ELSE IF Len(t) = 1 THEN t[1] ELSE <<"add", t>>
MulS(s) == IF \E i \in 1..Len(s) : IsZero(s[i]) THEN Zero
           ELSE LET t == SelectSeq(s, LAMBDA e : ~IsOne(e))
                IN  IF Len(t) = 0 THEN One ELSE IF Len(t) = 1 THEN t[1] ELSE <<"mul", t>>
Add(a, b) == AddS(<<a, b>>)
Mul(a, b) == MulS(<<a, b>>)
Neg(a)    == MulS(<<Num(-1, 1), a>>)
Sub(a, b) == Add(a, Neg(b))
U1(op, e) == IF IsZero(e) THEN Zero ELSE <<op, e>>
Dag(e) == U1("dag", e)
Conj(e) == U1("conj", e)
Tp(e) == U1("tp", e)
Tr(e) == U1("tr", e)
Re(e) == U1("re", e)
Abs2(e) == U1("abs2", e)
Exp(e) == <<"exp", e>>
Kron(a, b) == IF IsZero(a) \/ IsZero(b) THEN Zero ELSE <<"kron", a, b>>
DExp(e, d) == IF IsZero(d) THEN Zero ELSE <<"dexp", e, d>>
Fun(f, idx, args) == <<"fun", f, idx, args>>

RECURSIVE D(_, _)
(* Derivative of term e by the (real) scalar atom At(v[1], v[2]). *)
D(e, v) ==
  CASE e[1] = "num" -> Zero
    [] e[1] = "im"  -> Zero
    [] e[1] = "id"  -> Zero
    [] e[1] = "at"  -> IF e[2] = v[1] /\ e[3] = v[2] THEN One ELSE Zero
    [] e[1] = "add" -> AddS([i \in 1..Len(e[2]) |-> D(e[2][i], v)])
    [] e[1] = "mul" -> AddS([i \in 1..Len(e[2]) |->
                          LET di == D(e[2][i], v)
                          IN IF IsZero(di) THEN Zero
                             ELSE MulS([j \in 1..Len(e[2]) |-> IF j = i THEN di ELSE e[2][j]])])
    [] e[1] = "exp" -> DExp(e[2], D(e[2], v))
    [] e[1] = "abs2" -> MulS(<<Num(2, 1), Re(Mul(Conj(e[2]), D(e[2], v)))>>)
    [] e[1] = "kron" -> Add(Kron(D(e[2], v), e[3]), Kron(e[2], D(e[3], v)))
    [] e[1] = "polar" -> LET d == D(e[2], v) IN IF IsZero(d) THEN Zero ELSE <<"dpolar", e[2], d>>
    [] e[1] = "block" -> LET a == D(e[2], v)  b == D(e[3], v)  c == D(e[4], v)
                         IN IF IsZero(a) /\ IsZero(b) /\ IsZero(c) THEN Zero ELSE <<"block", a, b, c>>
    [] e[1] = "inv" -> Neg(MulS(<<e, e, D(e[2], v)>>))
    [] e[1] = "fun" -> AddS([k \in 1..Len(e[4]) |->
                          Mul(<<"pd", e[2], e[3], k, e[4]>>, D(e[4][k], v))])
    [] OTHER -> U1(e[1], D(e[2], v))      \* linear unary: dag, conj, tp, tr, re, trunc, ...

RECURSIVE Word(_)
RECURSIVE FlattenWords(_)
FlattenWords(s) == IF Len(s) = 0 THEN <<>> ELSE Word(Head(s)) \o FlattenWords(Tail(s))
(* Sequence of the non-trivial factors of a product. *)
Word(e) == IF e[1] = "mul" THEN FlattenWords(e[2])
           ELSE IF IsId(e) \/ IsOne(e) THEN <<>> ELSE <<e>>

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Emit(x) == PrintT("@" \o ToJson(x))
=============================================================================
