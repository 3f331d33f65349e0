------------------------------- MODULE Noise --------------------------------
(***************************************************************************)
(* Noise generators and histories of reads.  A sample is a symbol:          *)
(*   <<"zero">>                 exactly zero                                *)
(*   <<"pt", op, j>>            j-th of n equal-probability points of op    *)
(*   <<"rv", g, w, op, tr, t>>  an independent random number of draw w of   *)
(*                              generator g (t = 0: constant along a trace) *)
(*   <<"given", op, tr, t>>     an entry of the samples handed in           *)
(* Several generators are read in any order; the redraw switch may be       *)
(* changed by the user at any time.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Systems,   \* set of [id, gens: sequence of [kind, ops, tr, len, redraw, given, gtr, glen]]
          MaxLen

Emit(x) == PrintT("@" \o ToJson(x))
VARIABLES sys, redraw, stored, draws, reads, log
vars == <<sys, redraw, stored, draws, reads, log>>

G == 1..Len(sys.gens)
Kinds == {"det", "mc", "col"}
(* number of traces of a draw: deterministic sampling varies one operator at a time *)
Traces(c) == IF c.kind = "det" THEN c.tr * c.ops ELSE c.tr
Block(c, tr) == (tr - 1) \div c.tr + 1
Draw(g, w) == LET c == sys.gens[g] IN
    [op \in 1..c.ops |-> [tr \in 1..Traces(c) |-> [t \in 1..c.len |->
       CASE c.kind = "det" -> IF Block(c, tr) = op THEN <<"pt", op, ((tr - 1) % c.tr) + 1>> ELSE <<"zero">>
         [] c.kind = "mc" -> <<"rv", g, w, op, tr, 0>>
         [] c.kind = "col" -> <<"rv", g, w, op, tr, t>>]]]
Given(g) == LET c == sys.gens[g] IN
    [op \in 1..c.ops |-> [tr \in 1..c.gtr |-> [t \in 1..c.glen |-> <<"given", op, tr, t>>]]]
(* what is stored: 0 nothing, -1 the given samples, w > 0 draw number w *)
Value(g, w) == IF w = -1 THEN Given(g) ELSE Draw(g, w)

Init == /\ sys \in Systems
        /\ redraw = [g \in G |-> sys.gens[g].redraw]
        /\ stored = [g \in G |-> IF sys.gens[g].given THEN -1 ELSE 0]
        /\ draws = [g \in G |-> 0]
        /\ reads = <<>>
        /\ log = <<>>
Read(g) == LET again == redraw[g] \/ stored[g] = 0
               w == IF again THEN draws[g] + 1 ELSE stored[g]
           IN /\ stored' = [stored EXCEPT ![g] = w]
              /\ draws' = IF again THEN [draws EXCEPT ![g] = w] ELSE draws
              /\ reads' = Append(reads, [g |-> g, w |-> w])
              /\ log' = Append(log, [a |-> "read", g |-> g, w |-> w, v |-> Value(g, w)])
              /\ UNCHANGED <<sys, redraw>>
(* the announced numbers are those of the samples, also before any read *)
Shape(g) == LET c == sys.gens[g] IN
    IF stored[g] = -1 /\ ~redraw[g] THEN <<c.ops, c.gtr, c.glen>> ELSE <<c.ops, Traces(c), c.len>>
Meta(g) == /\ log' = Append(log, [a |-> "meta", g |-> g, w |-> 0, v |-> Shape(g)])
           /\ UNCHANGED <<sys, redraw, stored, draws, reads>>
Switch(g) == /\ redraw' = [redraw EXCEPT ![g] = ~@]
             /\ log' = Append(log, [a |-> "switch", g |-> g, w |-> 0, v |-> redraw'[g]])
             /\ UNCHANGED <<sys, stored, draws, reads>>
Next == /\ Len(log) < MaxLen
        /\ \E g \in G : Read(g) \/ Meta(g) \/ Switch(g)
Spec == Init /\ [][Next]_vars

(* ---- properties ----------------------------------------------------------- *)
Last == reads[Len(reads)]
LastV == Value(Last.g, Last.w)
LastC == sys.gens[Last.g]
QuasiStatic == (reads # <<>> /\ Last.w > 0 /\ LastC.kind \in {"det", "mc"}) =>
    \A op \in DOMAIN LastV : \A tr \in DOMAIN LastV[op] :
        \A s, t \in DOMAIN LastV[op][tr] : LastV[op][tr][s] = LastV[op][tr][t]
OneAtATime == (reads # <<>> /\ Last.w > 0 /\ LastC.kind = "det") =>
    /\ \A tr \in 1..Traces(LastC) :
          Cardinality({op \in 1..LastC.ops : LastV[op][tr][1] # <<"zero">>}) = 1
    /\ \A op \in 1..LastC.ops : \A j \in 1..LastC.tr :
          Cardinality({tr \in 1..Traces(LastC) : LastV[op][tr][1] = <<"pt", op, j>>}) = 1
Symbols(g, w) == LET v == Value(g, w)
                 IN {v[op][tr][t] : op \in DOMAIN v, tr \in DOMAIN v[1], t \in DOMAIN v[1][1]}
(* different draws share no random number *)
Independent == \A i, j \in 1..Len(reads) :
    (<<reads[i].g, reads[i].w>> # <<reads[j].g, reads[j].w>>
       /\ sys.gens[reads[i].g].kind # "det" /\ sys.gens[reads[j].g].kind # "det"
       /\ reads[i].w > 0 /\ reads[j].w > 0) =>
    Symbols(reads[i].g, reads[i].w) \cap Symbols(reads[j].g, reads[j].w) = {}
(* the samples kept change only in reads of the same generator that redraw *)
FixedStays == [][\A g \in G : (stored'[g] # stored[g]) =>
                    /\ Len(reads') > Len(reads) /\ reads'[Len(reads')].g = g
                    /\ (redraw[g] \/ stored[g] = 0)]_vars
RedrawsAlways == [][(Len(reads') > Len(reads) /\ redraw[reads'[Len(reads')].g]) =>
                    \A i \in 1..Len(reads) : reads[i] # reads'[Len(reads')]]_vars
EmitDone == (Len(log) = MaxLen) => Emit([id |-> sys.id, log |-> log])
=============================================================================
