---------------------------- MODULE Exponential ----------------------------
(***************************************************************************)
(* Histories of calls of exponential and Fréchet-derivative methods on one  *)
(* operator A with directions E, scaled by tau = n / q.                     *)
(*                                                                         *)
(* Exact methods deliver exp(tau A) and its derivative; series methods of   *)
(* order k deliver the truncated series T_k and its derivative, computed    *)
(* here exactly over the Gaussian integers with common denominator k! q^k.  *)
(* No call changes A, E or what later calls deliver.                        *)
(***************************************************************************)
EXTENDS GMat, Json
CONSTANTS Problems,   \* set of [id, a, es, n, q, p, pinv, dd]
          MaxLen

Emit(x) == PrintT("@" \o ToJson(x))
VARIABLES prob, log
vars == <<prob, log>>

A == prob.a
Es == prob.es
N == prob.n
Q == prob.q
d == Rows(A)

RECURSIVE IPow(_, _)
IPow(x, k) == IF k = 0 THEN 1 ELSE x * IPow(x, k - 1)
RECURSIVE CPow(_, _)
CPow(x, k) == IF k = 0 THEN C1 ELSE CMul(x, CPow(x, k - 1))
RECURSIVE MPow(_, _)
MPow(m, k) == IF k = 0 THEN MId(Rows(m)) ELSE MMul(m, MPow(m, k - 1))
RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)
RECURSIVE MSum(_)
MSum(s) == IF Len(s) = 1 THEN s[1] ELSE MAdd(Head(s), MSum(Tail(s)))
CInt(x) == <<x, 0>>
Den(k, q) == Fact(k) * IPow(q, k)
(* k! q^k T_k(n a / q) *)
Series(a, n, q, k) ==
    MSum([j \in 1..(k + 1) |-> MScale(CMul(CPow(n, j - 1),
            CInt((Fact(k) \div Fact(j - 1)) * IPow(q, k - j + 1))), MPow(a, j - 1))])
(* k! q^k times the derivative of T_k(n a / q) by a in direction e *)
DSeries(a, e, n, q, k) ==
    MSum([j \in 1..k |-> MScale(CMul(CPow(n, j), CInt((Fact(k) \div Fact(j)) * IPow(q, k - j))),
            MSum([i \in 1..j |-> MMul(MPow(a, i - 1), MMul(e, MPow(a, j - i)))]))])

(* ---- which methods apply ------------------------------------------------ *)
AntiHermitian(a) == MDag(a) = MScale(<<-1, 0>>, a)
Normal(a) == MMul(a, MDag(a)) = MMul(MDag(a), a)
Scalar(a) == a = MScale(a[1][1], MId(Rows(a)))
Det2(a) == CAdd(CMul(a[1][1], a[2][2]), CNeg(CMul(a[1][2], a[2][1])))
Disc2(a) == CAdd(CMul(MTr(a), MTr(a)), CNeg(CMul(<<4, 0>>, Det2(a))))
Diag(dd) == Mat(Len(dd), Len(dd), LAMBDA i, j : IF i = j THEN dd[i] ELSE C0)
(* a basis of eigenvectors with exact inverse is given *)
Certified == Len(prob.dd) > 0 /\ MMul(prob.p, prob.pinv) = MId(d)
             /\ A = MMul(prob.p, MMul(Diag(prob.dd), prob.pinv))
Diagonalisable == Normal(A) \/ Certified \/ (d = 2 /\ (Scalar(A) \/ Disc2(A) /= C0))
Zero(m) == m = MZero(Rows(m), Cols(m))
(* smallest k with A^(k+1) = 0, or -1: then T_k is the exponential *)
NilDegree == IF Zero(A) THEN 0 ELSE IF Zero(MMul(A, A)) THEN 1
             ELSE IF Zero(MPow(A, 3)) THEN 2 ELSE IF Zero(MPow(A, 4)) THEN 3 ELSE -1
(* A^2 = 0: then the derivative of T_3 is the derivative of the exponential *)
Exact == {"spectral", "Frechet", "approx"}
SeriesOrder(m) == CASE m = "first_order" -> 1 [] m = "second_order" -> 2 [] m = "third_order" -> 3
SeriesM == {"first_order", "second_order", "third_order"}
Valid(m, skew) == CASE m = "spectral" -> IF skew THEN AntiHermitian(A) ELSE TRUE
                    [] OTHER -> TRUE
Calls == [fn : {"exp"}, m : Exact \cup SeriesM, skew : BOOLEAN, comp : {FALSE}, e : {0}]
         \cup [fn : {"dexp"}, m : Exact \cup SeriesM, skew : BOOLEAN, comp : BOOLEAN, e : 1..Len(Es)]
         \cup {[fn |-> "prop", m |-> "spectral", skew |-> FALSE, comp |-> FALSE, e |-> 0]}
Allowed == {c \in Calls : Valid(c.m, c.skew)}

Init == prob \in Problems /\ log = <<>>
Call == /\ Len(log) < MaxLen
        /\ \E c \in Allowed : log' = Append(log, c)
        /\ UNCHANGED prob
Next == Call
Spec == Init /\ [][Next]_vars

(* ---- invariants ---------------------------------------------------------- *)
First == log = <<>>
Line(e, h) == MAdd(A, MScale(CInt(h), e))
(* the derivative of the polynomial h -> T_k(A + h E) by exact differences *)
SeriesDerivative == First => \A e \in 1..Len(Es) :
    LET f(k, h) == Series(Line(Es[e], h), N, Q, k)
    IN /\ \A k \in 1..2 : MSubt(f(k, 1), f(k, -1)) = MScale(CInt(2), DSeries(A, Es[e], N, Q, k))
       /\ MSubt(MScale(CInt(8), MSubt(f(3, 1), f(3, -1))), MSubt(f(3, 2), f(3, -2)))
             = MScale(CInt(12), DSeries(A, Es[e], N, Q, 3))
Linear == (First /\ Len(Es) >= 2) => \A k \in 1..3 :
    DSeries(A, MAdd(Es[1], Es[2]), N, Q, k)
        = MAdd(DSeries(A, Es[1], N, Q, k), DSeries(A, Es[2], N, Q, k))
Adjoint == First => \A k \in 1..3 : Series(MDag(A), CConj(N), Q, k) = MDag(Series(A, N, Q, k))
(* each order extends the previous one by the next term *)
Extends == First => \A k \in 1..3 :
    Series(A, N, Q, k) = MAdd(MScale(CInt(k * Q), Series(A, N, Q, k - 1)),
                              MScale(CPow(N, k), MPow(A, k)))
(* along the operator itself: derivative = tau A T_(k-1) *)
Along == First => \A k \in 1..3 :
    DSeries(A, A, N, Q, k) = MScale(CMul(N, CInt(k)), MMul(A, Series(A, N, Q, k - 1)))
Certificate == First => (Len(prob.dd) > 0 => Certified)
NilpotentSeries == First => (NilDegree \in 0..2 =>
    Series(A, N, Q, 3) = MScale(CInt(Den(3, Q) \div Den(NilDegree, Q)), Series(A, N, Q, NilDegree)))

Table == [id |-> prob.id,
          S |-> [k \in 1..3 |-> [den |-> Den(k, Q), m |-> Series(A, N, Q, k)]],
          DS |-> [k \in 1..3 |-> [den |-> Den(k, Q),
                                  m |-> [e \in 1..Len(Es) |-> DSeries(A, Es[e], N, Q, k)]]],
          nil |-> NilDegree, diag |-> Diagonalisable, skew |-> AntiHermitian(A)]
EmitTable == First => Emit(Table)
EmitCalls == First => Emit([id |-> prob.id, calls |-> Allowed])
EmitLog == (Len(log) = MaxLen) => Emit([id |-> prob.id, log |-> log])
=============================================================================
