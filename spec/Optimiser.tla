------------------------------ MODULE Optimiser ------------------------------
(***************************************************************************)
(* Optimisers and the runs they make.  A minimisation algorithm (any: the  *)
(* environment decides what it asks for) submits flat parameter vectors to *)
(* the optimiser, which evaluates the simulator, records, weights, and     *)
(* stops the run when its own wall time is over.                           *)
(*                                                                         *)
(* The landscape is a table: pulse p (a matrix of integers, group p.g has  *)
(* its own shape) has the costs p.c (one per cost function) and the        *)
(* gradients p.d [time][cost function][parameter].                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Worlds,   \* seq of [pulses: seq of [g, y, c, d], opts: seq of [kind, w, save, store, jac, it, wall, gain]]
  DefIt, DefWall, DefGain,   \* default termination conditions
  Ticks,    \* durations
  LateJac,  \* derivatives may be asked for after the end of the wall time
  MaxLen

VARIABLES wd, made, run, min, results, log, stop
vars == <<wd, made, run, min, results, log, stop>>

None == 0
Off == [on |-> FALSE, o |-> 0, p0 |-> 0, ev |-> <<>>, jc |-> <<>>, el |-> 0]

RECURSIVE Sum(_), Concat(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
Range(s) == {s[n] : n \in DOMAIN s}

P(i) == wd.pulses[i]
O(o) == wd.opts[o]
Same(p) == {q \in DOMAIN wd.pulses : P(q).g = P(p).g}

(* flat vectors list all times of the first parameter, then of the second.. *)
Flat(m) == Concat([j \in DOMAIN m[1] |-> [i \in DOMAIN m |-> m[i][j]]])
Norm2(p) == Sum([k \in DOMAIN P(p).c |-> P(p).c[k] * P(p).c[k]])
Weight(o, k) == IF O(o).w = <<>> THEN 1 ELSE O(o).w[k]
Scalar(o) == O(o).kind /= "lsq"
Weighted(o, p) == [k \in DOMAIN P(p).c |-> Weight(o, k) * P(p).c[k]]
(* what the minimisation algorithm is given *)
Objective(o, p) == IF Scalar(o) THEN <<Sum(Weighted(o, p))>> ELSE Weighted(o, p)
GradRow(o, p, k) == [n \in 1..Len(Flat(P(p).y)) |->
                        Weight(o, k) * Flat([i \in DOMAIN P(p).d |-> P(p).d[i][k]])[n]]
Slope(o, p) ==
  LET rows == TLCEval([k \in DOMAIN P(p).c |-> GradRow(o, p, k)])
  IN IF Scalar(o) THEN <<[n \in DOMAIN rows[1] |-> Sum([k \in DOMAIN rows |-> rows[k][n]])]>>
     ELSE rows

Or(x, d) == IF x = 0 THEN d ELSE x
Wall(o) == Or(O(o).wall, DefWall)
Late == run.on /\ run.el > Wall(run.o)

Best(ev) == {p \in Range(ev) : \A q \in Range(ev) : Norm2(p) <= Norm2(q)}

Ready == Len(log) < MaxLen /\ stop = FALSE
Add(e) == log' = Append(log, e)
E(op, n, p) == [op |-> op, n |-> n, p |-> p]

Init == /\ \E n \in DOMAIN Worlds : wd = Worlds[n] /\ log = <<E("world", n, 0)>>
        /\ made = {} /\ run = Off /\ min = None /\ results = <<>> /\ stop = FALSE

New(o) == /\ Ready /\ o \notin made
          /\ made' = made \union {o}
          /\ Add(E("new", o, 0))
          /\ UNCHANGED <<wd, run, min, results, stop>>
Start(o, p) == /\ Ready /\ ~run.on /\ o \in made
               /\ Len(log) + 2 < MaxLen
               /\ run' = [Off EXCEPT !.on = TRUE, !.o = o, !.p0 = p]
               /\ min' = None
               /\ Add(E("start", o, p))
               /\ UNCHANGED <<wd, made, results, stop>>
(* the algorithm asks for the objective *)
Eval(p) == /\ Ready /\ run.on /\ p \in Same(run.p0) /\ ~Late
           /\ run' = [run EXCEPT !.ev = Append(@, p)]
           /\ min' = IF min = None THEN p ELSE IF Norm2(p) < Norm2(min) THEN p ELSE min
           /\ Add(E("eval", run.o, p))
           /\ UNCHANGED <<wd, made, results, stop>>
(* ... and for its derivative *)
Jac(p) == /\ Ready /\ run.on /\ p \in Same(run.p0) /\ (LateJac \/ ~Late)
          /\ O(run.o).jac /\ O(run.o).kind /= "nm"
          /\ run' = [run EXCEPT !.jc = Append(@, p)]
          /\ Add(E("jac", run.o, p))
          /\ UNCHANGED <<wd, made, min, results, stop>>
Tick(d) == /\ Ready /\ run.on /\ ~Late
           /\ run' = [run EXCEPT !.el = @ + d]
           /\ Add(E("tick", run.o, d))
           /\ UNCHANGED <<wd, made, min, results, stop>>
Result(p, early) == [o |-> run.o, p |-> p, early |-> early, ev |-> run.ev, jc |-> run.jc, el |-> run.el]
(* the algorithm is done and returns one of its points *)
Finish(p) == /\ run.on /\ stop = FALSE /\ p \in Range(run.ev)
             /\ results' = Append(results, Result(p, FALSE))
             /\ run' = Off
             /\ Add(E("finish", run.o, p))
             /\ UNCHANGED <<wd, made, min, stop>>
(* it asks for another value after the time is over *)
Early(p) == /\ run.on /\ stop = FALSE /\ Late /\ p \in Same(run.p0)
            /\ results' = Append(results, Result(min, TRUE))
            /\ run' = Off
            /\ Add(E("early", run.o, p))
            /\ UNCHANGED <<wd, made, min, stop>>
(* the simulator raises: the run has no result *)
Crash(p) == /\ Ready /\ run.on /\ ~Late /\ p \in Same(run.p0)
            /\ run' = Off
            /\ Add(E("crash", run.o, p))
            /\ UNCHANGED <<wd, made, min, results, stop>>
Stop == /\ stop = FALSE /\ ~run.on /\ Len(log) >= MaxLen - 3
        /\ stop' = TRUE
        /\ UNCHANGED <<wd, made, run, min, results, log>>

Pulses == DOMAIN wd.pulses
TicksNow == IF run.on THEN Ticks ELSE {}
Next == \/ \E o \in DOMAIN wd.opts : New(o)
        \/ \E o \in DOMAIN wd.opts, p \in Pulses : Start(o, p)
        (* listed repeatedly: simulation draws among the disjuncts *)
        \/ \E p \in Pulses : Eval(p)
        \/ \E p \in Pulses : Eval(p)
        \/ \E p \in Pulses : Eval(p)
        \/ \E p \in Pulses : Jac(p)
        \/ \E p \in Pulses : Jac(p)
        \/ \E p \in Pulses : Finish(p) \/ Early(p) \/ Crash(p)
        \/ \E d \in TicksNow : Tick(d)
        \/ Stop
Spec == Init /\ [][Next]_vars

(* --- properties --- *)
(* the running minimum is a best evaluation *)
MinIsBest == run.on => IF run.ev = <<>> THEN min = None ELSE min \in Best(run.ev)
(* results name evaluated parameters *)
Evaluated == \A n \in DOMAIN results :
    LET r == results[n] IN
    IF r.ev = <<>> THEN r.early /\ r.p = None
    ELSE r.p \in Range(r.ev) /\ (r.early => r.p \in Best(r.ev))
(* nothing is evaluated after the end of the wall time *)
Punctual == [][run.on /\ run.el > Wall(run.o) => run'.ev = run.ev \/ ~run'.on]_vars
(* runs do not share histories *)
Fresh == \A n \in DOMAIN results : Len(results[n].ev) <= MaxLen
(* all of a run's settings are its optimiser's own *)
Own == [][run.on /\ run'.on => run'.o = run.o /\ run'.p0 = run.p0]_vars
(* objective and slope are linear in the weights: none counts as all ones  *)
UnitWeights == run.on /\ run.ev /= <<>> =>
    LET p == run.ev[Len(run.ev)] IN
    (\A k \in DOMAIN P(p).c : Weight(run.o, k) = 1) => Weighted(run.o, p) = P(p).c

(* --- what is to be observed --- *)
View1(e) ==
  CASE e.op = "start" -> [e |-> e, x |-> Flat(P(e.p).y), f |-> <<>>,
                          it |-> Or(O(e.n).it, DefIt), gain |-> Or(O(e.n).gain, DefGain)]
    [] e.op \in {"eval"} -> [e |-> e, x |-> Flat(P(e.p).y), f |-> Objective(e.n, e.p)]
    [] e.op \in {"jac", "finish"} -> [e |-> e, x |-> Flat(P(e.p).y), f |-> Objective(e.n, e.p), d |-> Slope(e.n, e.p)]
    [] e.op \in {"crash", "early"} -> [e |-> e, x |-> Flat(P(e.p).y)]
    [] OTHER -> [e |-> e]
View2(r) ==
  [o |-> r.o, p |-> r.p, early |-> r.early, ev |-> r.ev, jc |-> r.jc, el |-> r.el,
   best |-> Best(r.ev),
   slopes |-> {[p |-> n, s |-> Slope(r.o, n)] : n \in (IF r.early THEN Best(r.ev) ELSE {r.p})}]
Emit == stop => PrintT("@" \o ToJson([log |-> [n \in DOMAIN log |-> View1(log[n])],
                                      results |-> [n \in DOMAIN results |-> View2(results[n])]]))
=============================================================================
