----------------------------- MODULE Evolution -----------------------------
(***************************************************************************)
(* Piecewise-constant quantum evolution as a state machine that propagates *)
(* slice by slice, forwards from the initial state and backwards from the  *)
(* end.  Observables are symbolic terms (Terms.tla) over the settings:     *)
(*   Hd[t] drift   Hc[c] control   Hn[o] noise operators   L[l] jump ops   *)
(*   G[l] dissipators   u[t,c] control amplitudes   nz[o,k,t] noise        *)
(*   dt[t] durations   psi initial state                                   *)
(* kinds: "closed"  Schroedinger equation                                  *)
(*        "mc"      every noise trace k: noise added to noise operators    *)
(*        "mcna"    the same, noise passed through a noise amplitude fct   *)
(*        "mccn"    noise added to the transferred parameters              *)
(*        "lind"    master equation (vectorised density matrix)            *)
(***************************************************************************)
EXTENDS Terms, FiniteSets

CONSTANT Shapes     \* set of records [kind, nt, nc, nw, ntr, no, nl, diss, pref, dd]
VARIABLES shape, t, fwd, rev

vars == <<shape, t, fwd, rev>>

MinusI == MulS(<<Num(-1, 1), Im>>)
Psi == At("psi", <<>>)

(* control amplitudes at slice i, as the solver documents them *)
W(i, j) == At("w", <<i, j>>)
Wvec(sh, i) == [j \in 1..sh.nw |-> W(i, j)]
U(sh, i, c) == Fun("A", <<c>>, Wvec(sh, i))
Noise(o, k, i) == At("nz", <<o, k, i>>)
(* control amplitude of trace k when the noise acts on the parameters *)
Unoisy(sh, k, i, c) == Fun("A", <<c>>, [j \in 1..sh.nw |-> Add(W(i, j), Noise(j, k, i))])
(* noise amplitude function: of the sample, and of the current controls *)
NoiseAmp(sh, o, k, i) ==
    IF sh.kind = "mcna"
    THEN Fun("NA", <<o>>, <<Noise(o, k, i)>> \o [c \in 1..sh.nc |-> U(sh, i, c)])
    ELSE Noise(o, k, i)

Ham(sh, k, i) ==
    LET ctrl(c) == IF sh.kind = "mccn" /\ k > 0 THEN Unoisy(sh, k, i, c) ELSE U(sh, i, c)
        nz == IF sh.kind \in {"mc", "mcna"} /\ k > 0
              THEN [o \in 1..sh.no |-> Mul(NoiseAmp(sh, o, k, i), At("Hn", <<o>>))]
              ELSE <<>>
    IN AddS(<<At("Hd", <<i>>)>> \o [c \in 1..sh.nc |-> Mul(ctrl(c), At("Hc", <<c>>))] \o nz)

(* dissipator of one jump operator on column-stacked density matrices *)
Dissipator(L) ==
    AddS(<< Kron(Conj(L), L),
            MulS(<<Num(-1, 2), Kron(Idm, Mul(Dag(L), L))>>),
            MulS(<<Num(-1, 2), Kron(Mul(Tp(L), Conj(L)), Idm)>>) >>)
(* which of the three specifications of dissipation counts *)
Diss(sh, i) ==
    LET pre(l) == IF sh.pref THEN Fun("P", <<l>>, [c \in 1..sh.nc |-> U(sh, i, c)] \o Wvec(sh, i)) ELSE One
    IN CASE "func" \in sh.diss ->
              Fun("GF", <<>>, [c \in 1..sh.nc |-> U(sh, i, c)] \o Wvec(sh, i))
         [] "func" \notin sh.diss /\ "jump" \in sh.diss ->
              AddS([l \in 1..sh.nl |-> Mul(pre(l), Dissipator(At("L", <<l>>)))])
         [] sh.diss = {"sup"} -> AddS([l \in 1..sh.nl |-> Mul(pre(l), At("G", <<l>>))])
         [] OTHER -> Zero

Gen(sh, k, i) ==
    IF sh.kind = "lind"
    THEN LET h == Ham(sh, k, i)
         IN AddS(<<Mul(MinusI, Sub(Kron(Idm, h), Kron(Tp(h), Idm))), Diss(sh, i)>>)
    ELSE Mul(MinusI, Ham(sh, k, i))

Slice(sh, k, i) == Exp(Mul(At("dt", <<i>>), Gen(sh, k, i)))

Traces(sh) == IF sh.kind \in {"mc", "mcna", "mccn"} THEN 0..sh.ntr ELSE {0}

Init == /\ shape \in Shapes
        /\ t = 0
        /\ fwd = [k \in Traces(shape) |-> <<Psi>>]
        /\ rev = [k \in Traces(shape) |-> <<One>>]

Propagate ==
    /\ t < shape.nt
    /\ t' = t + 1
    /\ fwd' = [k \in Traces(shape) |-> Append(fwd[k], Mul(Slice(shape, k, t + 1), fwd[k][t + 1]))]
    /\ rev' = [k \in Traces(shape) |-> Append(rev[k], Mul(rev[k][t + 1], Slice(shape, k, shape.nt - t)))]
    /\ UNCHANGED shape

Next == Propagate
Spec == Init /\ [][Next]_vars

Done == t = shape.nt

(* forward results are slices in time order applied to the initial state *)
TimeOrdered ==
    \A k \in Traces(shape) : \A j \in 0..t :
        Word(fwd[k][j + 1]) = [i \in 1..j |-> Slice(shape, k, j + 1 - i)] \o <<Psi>>
(* any split of the evolution gives the same total *)
Composition ==
    Done => \A k \in Traces(shape) : \A j \in 0..shape.nt :
        Word(Mul(rev[k][shape.nt - j + 1], fwd[k][j + 1])) = Word(fwd[k][shape.nt + 1])
(* vanishing noise: substituting zero samples gives the noiseless generator *)
RECURSIVE NoNoise(_)
NoNoise(e) ==
    CASE e[1] = "at" -> IF e[2] = "nz" THEN Zero ELSE e
      [] e[1] \in {"num", "im", "id"} -> e
      [] e[1] = "add" -> AddS([i \in 1..Len(e[2]) |-> NoNoise(e[2][i])])
      [] e[1] = "mul" -> MulS([i \in 1..Len(e[2]) |-> NoNoise(e[2][i])])
      [] e[1] = "fun" -> Fun(e[2], e[3], [i \in 1..Len(e[4]) |-> NoNoise(e[4][i])])
      [] OTHER -> [i \in 1..Len(e) |-> IF i = 1 THEN e[1] ELSE NoNoise(e[i])]
ZeroNoise ==
    Done /\ shape.kind \in {"mc", "mccn"} =>
        \A k \in Traces(shape) : \A i \in 1..shape.nt :
            NoNoise(Gen(shape, k, i)) = Gen(shape, 0, i)
(* traces are independent: trace k mentions only samples of trace k *)
RECURSIVE NoiseOf(_)
NoiseOf(e) ==
    CASE e[1] = "at" -> IF e[2] = "nz" THEN {e[3][2]} ELSE {}
      [] e[1] \in {"num", "im", "id"} -> {}
      [] e[1] \in {"add", "mul"} -> UNION {NoiseOf(e[2][i]) : i \in 1..Len(e[2])}
      [] e[1] = "fun" -> UNION {NoiseOf(e[4][i]) : i \in 1..Len(e[4])}
      [] OTHER -> UNION {NoiseOf(e[i]) : i \in 2..Len(e)}
TracesIndependent ==
    \A k \in Traces(shape) : NoiseOf(fwd[k][t + 1]) \subseteq IF k = 0 THEN {} ELSE {k}

(* derivative of the dissipation by control c, where one is specified *)
DissDeriv(sh, i, c) ==
    CASE sh.dd /\ "func" \in sh.diss -> At("dGF", <<i, c>>)
      [] sh.dd /\ "func" \notin sh.diss /\ sh.pref /\ sh.diss /= {} ->
           AddS([l \in 1..sh.nl |-> Mul(At("dP", <<i, c, l>>),
                    IF "jump" \in sh.diss THEN Dissipator(At("L", <<l>>)) ELSE At("G", <<l>>))])
      [] OTHER -> Zero

(* derivative of slice i by control amplitude c: perturb u[i,c] by a scalar *)
SliceDeriv(sh, k, i, c) ==
    LET dirH == At("Hc", <<c>>)
        dirG == IF sh.kind = "lind"
                THEN Add(Mul(MinusI, Sub(Kron(Idm, dirH), Kron(Tp(dirH), Idm))),
                        DissDeriv(sh, i, c))
                ELSE Mul(MinusI, dirH)
    IN DExp(Mul(At("dt", <<i>>), Gen(sh, k, i)), Mul(At("dt", <<i>>), dirG))

Payload ==
    [shape |-> shape,
     slices |-> [i \in 1..shape.nt |-> Slice(shape, 0, i)],
     fwd |-> fwd[0], rev |-> rev[0],
     dslices |-> [c \in 1..shape.nc |-> [i \in 1..shape.nt |-> SliceDeriv(shape, 0, i, c)]],
     nslices |-> [k \in 1..shape.ntr |-> [i \in 1..shape.nt |-> Slice(shape, k, i)]],
     nfwd |-> [k \in 1..shape.ntr |-> fwd[k]],
     nrev |-> [k \in 1..shape.ntr |-> rev[k]],
     ndslices |-> [k \in 1..shape.ntr |-> [c \in 1..shape.nc |->
                     [i \in 1..shape.nt |-> SliceDeriv(shape, k, i, c)]]]]
EmitDone == Done => Emit(Payload)
=============================================================================
