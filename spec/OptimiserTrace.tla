--------------------------- MODULE OptimiserTrace ---------------------------
(***************************************************************************)
(* Runs recorded from real minimisations (scipy, simulated annealing) are  *)
(* behaviours of Optimiser.tla: a trace lists what the simulator was asked *)
(* for, how much time passed, and the result.  Numbers are abstracted to   *)
(* identifiers of parameter sets and the rank of their costs.              *)
(***************************************************************************)
EXTENDS Optimiser
CONSTANT Traces      \* seq of seqs of events [op, n, p]; Worlds[k] belongs to Traces[k]
VARIABLES tr, pos
tvars == <<wd, made, run, min, results, log, stop, tr, pos>>

TInit == /\ \E k \in DOMAIN Traces : tr = Traces[k] /\ wd = Worlds[k] /\ log = <<E("world", k, 0)>>
         /\ pos = 0
         /\ made = {} /\ run = Off /\ min = None /\ results = <<>> /\ stop = FALSE
Ev == tr[pos + 1]
TNext == /\ pos < Len(tr)
         /\ pos' = pos + 1 /\ tr' = tr
         /\ \/ Ev.op = "new" /\ New(Ev.n)
            \/ Ev.op = "start" /\ Start(Ev.n, Ev.p)
            \/ Ev.op = "eval" /\ Eval(Ev.p)
            \/ Ev.op = "jac" /\ Jac(Ev.p)
            \/ Ev.op = "tick" /\ Tick(Ev.p)
            \/ Ev.op = "finish" /\ Finish(Ev.p)
            \/ Ev.op = "early" /\ (\E p \in Pulses : Early(p))
               /\ (IF Ev.p = None THEN results'[Len(results')].p = None
                   ELSE Ev.p \in Best(run.ev))
TSpec == TInit /\ [][TNext]_tvars
Reached == (pos > 0) => PrintT("@" \o ToJson(<<log[1].n, pos>>))
(* only the furthest position matters *)
Accepted == (pos = Len(tr)) => PrintT("@" \o ToJson([id |-> log[1].n, pos |-> pos]))
TView == <<log[1], pos, run, min>>
=============================================================================
