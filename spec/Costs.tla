------------------------------- MODULE Costs -------------------------------
(***************************************************************************)
(* Figures of merit of an evolution (Evolution.tla) and their derivatives. *)
(* shape.costs is a set of records [c, comp, map, neg]:                    *)
(*   "op"     operation infidelity        (map: closest unitary)           *)
(*   "sup"    the same for super-operators                                 *)
(*   "state"  state infidelity            (map: normalised)                *)
(*   "sub"    state infidelity after tracing out factors                   *)
(*   "leak"   leakage error               "opn"   noise-averaged "op"      *)
(*   "stn"    noise-averaged "state"      "lmc"   averaged super-operator  *)
(*   "inc"    noise-averaged leakage      "lsup"  leakage of a super-op.   *)
(*   "lsuu" / "lmcu"  the same for a unitary / averaged over traces        *)
(* comp: restricted to the computational subspace;                         *)
(* neg: relative to the noiseless evolution.                               *)
(***************************************************************************)
EXTENDS Evolution

F(k) == fwd[k][shape.nt + 1]
Target == At("T", <<>>)
Bra == At("bra", <<>>)
InvD2 == At("invd2", <<>>)   \* 1 / (dimension of the target)^2
InvD == At("invd", <<>>)     \* 1 / (number of computational states)
El(e) == U1("el", e)
Trunc(e) == U1("trunc", e)
TruncKet(e) == U1("truncket", e)
Ptrace(e) == U1("ptrace", e)
Embed(e) == U1("embed", e)
Inv(e) == <<"inv", e>>
Mean(s) == Mul(Num(1, Len(s)), AddS(s))
Sup(e) == Kron(Conj(e), e)

InComp(e, r) == IF r.comp THEN (IF r.map THEN <<"polar", Trunc(e)>> ELSE Trunc(e)) ELSE e
OpFid(T, e, r) == Mul(InvD2, Abs2(Tr(Mul(Dag(T), InComp(e, r)))))
SupFid(e, r) == Mul(InvD2, Re(Tr(Mul(Sup(IF r.comp THEN Embed(Dag(Target)) ELSE Dag(Target)), e))))
StFid(bra, v, r) ==
    LET p == IF r.comp THEN TruncKet(v) ELSE v
        raw == Abs2(El(Mul(bra, p)))
    IN IF r.comp /\ r.map THEN Mul(raw, Inv(Re(El(Mul(Dag(p), p))))) ELSE raw
Leak(e) == Sub(One, Mul(InvD, Re(Tr(Mul(Dag(Trunc(e)), Trunc(e))))))
(* <projector on leakage| S |projector on computation> / d *)
LeakSup(S) == Mul(InvD, Re(El(Mul(At("lbra", <<>>), Mul(S, At("cket", <<>>))))))

Tr1(f(_)) == [k \in 1..shape.ntr |-> f(k)]
Cost(r) ==
  CASE r.c = "op" -> Sub(One, OpFid(Target, F(0), r))
    [] r.c = "sup" -> Sub(One, SupFid(F(0), r))
    [] r.c = "state" -> Sub(One, StFid(Bra, F(0), r))
    [] r.c = "sub" -> Sub(One, Re(El(Mul(Bra, Mul(Ptrace(Mul(F(0), Dag(F(0)))), Dag(Bra))))))
    [] r.c = "subrho" -> Sub(One, Re(El(Mul(Bra, Mul(Ptrace(<<"unvec", F(0)>>), Dag(Bra))))))
    [] r.c = "leak" -> Leak(F(0))
    [] r.c = "opn" -> Sub(One, Mean(Tr1(LAMBDA k : OpFid(IF r.neg THEN InComp(F(0), r) ELSE Target, F(k), r))))
    [] r.c = "stn" -> Sub(One, Mean(Tr1(LAMBDA k :
                        IF r.neg
                        THEN LET q == IF r.comp THEN TruncKet(F(0)) ELSE F(0)
                                 f == StFid(Dag(q), F(k), r)
                             IN IF r.comp /\ r.map THEN Mul(f, Inv(Re(El(Mul(Dag(q), q))))) ELSE f
                        ELSE StFid(Bra, F(k), r))))
    [] r.c = "lmc" -> Sub(One, SupFid(Mean(Tr1(LAMBDA k : Sup(F(k)))), r))
    [] r.c = "inc" -> Mean(Tr1(LAMBDA k : Leak(F(k))))
    [] r.c = "lsup" -> LeakSup(F(0))
    [] r.c = "lsuu" -> LeakSup(Sup(F(0)))
    [] r.c = "lmcu" -> LeakSup(Mean(Tr1(LAMBDA k : Sup(F(k)))))

WAtom(i, j) == <<"w", <<i, j>>>>
(* derivative of a cost by the transferred parameter j at slice i *)
DCost(r, i, j) == D(Cost(r), WAtom(i, j))
(* pull back through the linear part T of the pulse shaping *)
PullBack(x, j) == AddS([i \in 1..shape.nt |-> Mul(At("TM", <<i, x, j>>), At("dw", <<i, j>>))])

(* The derivative of the total evolution by a parameter of slice i is the   *)
(* product (later slices)(derivative of slice i)(earlier evolution): the    *)
(* forward / backward scheme gradients are computed with.                   *)
GrapeIdentity ==
    Done => \A k \in Traces(shape) : \A i \in 1..shape.nt : \A j \in 1..shape.nw :
        LET d == D(F(k), WAtom(i, j))
            s == D(Slice(shape, k, i), WAtom(i, j))
        IN ~IsZero(d) =>
           Word(d) = Word(MulS(<<rev[k][shape.nt - i + 1], s, fwd[k][i]>>))
(* a parameter of slice i moves nothing but slice i (pointwise in time) *)
Local ==
    \A k \in Traces(shape) : \A i \in 1..t : \A i2 \in 1..shape.nt : \A j \in 1..shape.nw :
        i2 /= i => IsZero(D(Slice(shape, k, i), WAtom(i2, j)))
(* noiseless costs never mention noise *)
NoNoiseInCost ==
    Done => \A r \in shape.costs : r.c \notin {"opn", "stn", "lmc", "inc", "lmcu"} =>
                NoiseOf(Cost(r)) = {}
(* every trace enters a noise average *)
AllTracesInCost ==
    Done /\ shape.kind \in {"mc", "mccn"} =>
       \A r \in shape.costs : r.c \in {"opn", "stn", "lmc", "inc", "lmcu"} =>
                NoiseOf(Cost(r)) = 1..shape.ntr

(* the gradient assembled without the dependence of the noise on the        *)
(* controls (what the implementation computes, a known finding)             *)
RECURSIVE FreezeNoise(_)
FreezeNoise(e) ==
    CASE e[1] \in {"num", "im", "id", "at"} -> e
      [] e[1] \in {"add", "mul"} -> <<e[1], [i \in 1..Len(e[2]) |-> FreezeNoise(e[2][i])]>>
      [] e[1] = "fun" -> IF e[2] = "NA" THEN <<"at", "NAval", <<e>>>> ELSE e
      [] OTHER -> [i \in 1..Len(e) |-> IF i = 1 THEN e[1] ELSE FreezeNoise(e[i])]
DCostFrozen(r, i, j) == D(FreezeNoise(Cost(r)), WAtom(i, j))

CostPayload ==
    [id |-> shape.id,
     costs |-> [r \in shape.costs |->
        [rec |-> r, val |-> Cost(r),
         dw |-> IF shape.grad THEN [i \in 1..shape.nt |-> [j \in 1..shape.nw |-> DCost(r, i, j)]] ELSE <<>>,
         frozen |-> IF shape.grad /\ shape.kind = "mcna"
                    THEN [i \in 1..shape.nt |-> [j \in 1..shape.nw |-> DCostFrozen(r, i, j)]] ELSE <<>>]],
     pull |-> IF shape.grad THEN [x \in 1..shape.nx |-> [j \in 1..shape.nw |-> PullBack(x, j)]] ELSE <<>>]
EmitCosts == Done => Emit([id |-> CostPayload.id, pull |-> CostPayload.pull,
                           costs |-> LET S == shape.costs
                                         RECURSIVE ToSeq(_)
                                         ToSeq(Q) == IF Q = {} THEN <<>>
                                                     ELSE LET q == CHOOSE q \in Q : TRUE
                                                          IN <<CostPayload.costs[q]>> \o ToSeq(Q \ {q})
                                     IN ToSeq(S)])
=============================================================================
