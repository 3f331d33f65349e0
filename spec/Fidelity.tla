------------------------------ MODULE Fidelity ------------------------------
(***************************************************************************)
(* Exact figures of merit.  A gate sequence is applied to a system of Dim   *)
(* levels; every gate is a matrix of Gaussian integers that is unitary up   *)
(* to the scale 1 or 2, so that all fidelities are exact fractions.         *)
(* cfg = [dim, dims, len]                                                   *)
(***************************************************************************)
EXTENDS GMat, TLC, Json

Emit(x) == PrintT("@" \o ToJson(x))
CONSTANT Cfgs

VARIABLES cfg, seq, m, n        \* gates so far, evolution (times n)
vars == <<cfg, seq, m, n>>

(* place the 2x2 block b on levels p < q, the others multiplied by s *)
OnLevels(d, p, q, b, s) ==
    Mat(d, d, LAMBDA i, j :
        IF i \in {p, q} /\ j \in {p, q}
        THEN b[IF i = p THEN 1 ELSE 2][IF j = p THEN 1 ELSE 2]
        ELSE IF i = j THEN <<s, 0>> ELSE C0)
SX == <<<< <<1, 1>>, <<1, -1>> >>, << <<1, -1>>, <<1, 1>> >>>>      \* 2 sqrt(X)
SY == <<<< <<1, 1>>, <<-1, -1>> >>, << <<1, 1>>, <<1, 1>> >>>>      \* 2 sqrt(Y)
Diag(v) == Mat(Len(v), Len(v), LAMBDA i, j : IF i = j THEN v[i] ELSE C0)
Cycle(d) == Mat(d, d, LAMBDA i, j : IF i = (j % d) + 1 THEN C1 ELSE C0)
(* gates: [name |-> <<matrix, scale>>] *)
Gates(d) ==
    [cyc |-> <<Cycle(d), 1>>,
     s   |-> <<Diag([k \in 1..d |-> IF k = d THEN CI ELSE C1]), 1>>,
     ph  |-> <<MScale(CI, MId(d)), 1>>,
     sx  |-> <<OnLevels(d, 1, 2, SX, 2), 2>>,
     sy  |-> <<OnLevels(d, d - 1, d, SY, 2), 2>>]
Names == {"cyc", "s", "ph", "sx", "sy"}
Targets(d) == [Gates(d) EXCEPT !.ph = <<MId(d), 1>>]
(* target states (norm^2, bra) *)
Bras(d) == << <<1, <<[k \in 1..d |-> IF k = 1 THEN C1 ELSE C0]>> >>,
              <<2, <<[k \in 1..d |-> IF k = 1 THEN C1 ELSE IF k = d THEN CI ELSE C0]>> >>,
              <<d, <<[k \in 1..d |-> C1]>> >> >>
Ket0(d) == [k \in 1..d |-> <<IF k = 1 THEN C1 ELSE C0>>]

Init == /\ cfg \in Cfgs
        /\ seq = <<>>
        /\ m = MId(cfg.dim)
        /\ n = 1
Apply(g) == /\ Len(seq) < cfg.len
            /\ seq' = Append(seq, g)
            /\ m' = MMul(Gates(cfg.dim)[g][1], m)
            /\ n' = n * Gates(cfg.dim)[g][2]
            /\ UNCHANGED cfg
Next == \E g \in Names : Apply(g)
Spec == Init /\ [][Next]_vars

d == cfg.dim
(* |tr T^dag U|^2 / d^2 as a fraction *)
OpFidNum(t, u) == CAbs2(MTrace2(t, u))
OpFidDen(ts, un, k) == k * k * ts * ts * un * un
OpFid(g) == <<OpFidNum(Targets(d)[g][1], m), OpFidDen(Targets(d)[g][2], n, d)>>
(* the target of the subspace: the restriction, if unitary there *)
Idx == cfg.comp
K == Len(Idx)
SubTargets == [id |-> <<MId(K), 1>>, cyc |-> <<Cycle(K), 1>>,
               s |-> <<Diag([k \in 1..K |-> IF k = K THEN CI ELSE C1]), 1>>]
SubFid(g) == <<OpFidNum(SubTargets[g][1], MSubspace(m, Idx)),
               OpFidDen(SubTargets[g][2], n, K)>>
(* super-operator form: tr((T* x T)^dag (U* x U)) / d^2 *)
SupFidNum(t, u) == MTrace2(MKron(MConj(t), t), MKron(MConj(u), u))
Leak == LET b == MSubspace(m, Idx)
        IN <<K * n * n - MTrace2(b, b)[1], K * n * n>>
St == MMul(m, Ket0(d))
StFid(b) == <<CAbs2(MMul(b[2], St)[1][1]), b[1] * n * n>>
SubBras == << <<1, <<[k \in 1..K |-> IF k = 1 THEN C1 ELSE C0]>> >>,
              <<K, <<[k \in 1..K |-> IF k = 1 THEN C1 ELSE CI]>> >> >>
StC == MRows(St, Idx)
StSubFid(b) == <<CAbs2(MMul(b[2], StC)[1][1]), b[1] * n * n>>
Kept == MMul(MDag(StC), StC)[1][1][1]
StResFid(b) == <<CAbs2(MMul(b[2], StC)[1][1]), b[1] * Kept>>
(* population of the first factor after tracing out the others *)
Rho == MPtrace(MMul(St, MDag(St)), cfg.dims, cfg.remove)
KD == Rows(Rho)
RedBras == << <<1, <<[k \in 1..KD |-> IF k = 1 THEN C1 ELSE C0]>> >>,
              <<KD, <<[k \in 1..KD |-> IF k = 1 THEN C1 ELSE CI]>> >> >>
RedFid(b) == <<MMul(b[2], MMul(Rho, MDag(b[2])))[1][1], b[1] * n * n>>

InUnit(f) == 0 <= f[1] /\ f[1] <= f[2]
UpToPhase(a, b) == \A i, j, k, l \in 1..Rows(a) :
                      CMul(a[i][j], b[k][l]) = CMul(a[k][l], b[i][j])
(* ---- what the fidelities must satisfy -------------------------------- *)
Unitary == MMul(m, MDag(m)) = MScale(<<n * n, 0>>, MId(d))
Range == /\ \A g \in Names : InUnit(OpFid(g))
         /\ \A g \in DOMAIN SubTargets : InUnit(SubFid(g))
         /\ InUnit(Leak)
         /\ \A b \in 1..3 : InUnit(StFid(Bras(d)[b]))
         /\ \A b \in 1..2 : InUnit(StSubFid(SubBras[b]))
         /\ Kept > 0 => \A b \in 1..2 : InUnit(StResFid(SubBras[b]))
         /\ \A b \in 1..2 : RedFid(RedBras[b])[1][2] = 0
                            /\ InUnit(<<RedFid(RedBras[b])[1][1], RedFid(RedBras[b])[2]>>)
(* zero infidelity exactly when the target is reached up to a phase *)
Faithful == \A g \in Names : (OpFid(g)[1] = OpFid(g)[2]) <=> UpToPhase(m, Targets(d)[g][1])
SubFaithful == \A g \in DOMAIN SubTargets :
                  (SubFid(g)[1] = SubFid(g)[2]) =>
                     (Leak[1] = 0 /\ UpToPhase(MSubspace(m, Idx), SubTargets[g][1]))
PhaseBlind == \A g \in Names :
                 OpFidNum(MScale(CI, Targets(d)[g][1]), m) = OpFidNum(Targets(d)[g][1], m)
                 /\ OpFidNum(Targets(d)[g][1], MScale(CI, m)) = OpFidNum(Targets(d)[g][1], m)
FormsAgree == d <= 3 /\ Len(seq) <= 2 => \A g \in Names : SupFidNum(Targets(d)[g][1], m) = <<OpFidNum(Targets(d)[g][1], m), 0>>
(* leakage vanishes exactly when nothing couples to the outside *)
LeakZero == (Leak[1] = 0) <=> \A i \in 1..d : \A k \in 1..K :
               (~(\E q \in 1..K : Idx[q] = i)) => m[i][Idx[k]] = C0
(* leakage is the population outside, averaged over computational states *)
LeakPopulation == LET RECURSIVE Out(_)
                      Out(S) == IF S = {} THEN 0
                                ELSE LET x == CHOOSE x \in S : TRUE IN CAbs2(m[x[1]][x[2]]) + Out(S \ {x})
                  IN Leak[1] = Out({x \in (1..d) \X (1..d) :
                        (\E q \in 1..K : Idx[q] = x[2]) /\ ~(\E q \in 1..K : Idx[q] = x[1])})

EmitFid == Emit([cfg |-> cfg.id, seq |-> seq,
                 op |-> [g \in Names |-> OpFid(g)],
                 sub |-> [g \in DOMAIN SubTargets |-> SubFid(g)],
                 leak |-> Leak,
                 st |-> [b \in 1..3 |-> StFid(Bras(d)[b])],
                 stsub |-> [b \in 1..2 |-> StSubFid(SubBras[b])],
                 kept |-> Kept,
                 stres |-> [b \in 1..2 |-> StResFid(SubBras[b])],
                 red |-> [b \in 1..2 |-> <<RedFid(RedBras[b])[1][1], RedFid(RedBras[b])[2]>>]])
=============================================================================
