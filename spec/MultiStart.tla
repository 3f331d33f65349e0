----------------------------- MODULE MultiStart -----------------------------
(***************************************************************************)
(* Optimising several starting points with a pool of worker processes.     *)
(* The optimiser handed in carries state (settings, counters of its        *)
(* simulator): every start gets its own copy of it, tasks are handed out   *)
(* in chunks, workers finish in any order, and results are collected by    *)
(* the number of the start.                                                *)
(* A run of start i from optimiser state q yields <<i, q>> and leaves the  *)
(* optimiser in state q + 1 + i (so that state that leaks shows).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Starts,     \* numbers of starts to consider
          Workers,    \* numbers of workers to consider
          Before      \* numbers of runs the optimiser made before

VARIABLES n, m, orig, copies, queue, busy, done, order, res
vars == <<n, m, orig, copies, queue, busy, done, order, res>>

Free == 0
Init == /\ n \in Starts /\ m \in Workers
        /\ orig \in Before
        /\ copies = [i \in 1..n |-> orig]
        /\ queue = [i \in 1..n |-> i]
        /\ busy = [k \in 1..m |-> Free]
        /\ done = {} /\ order = <<>> /\ res = <<>>
Take(k) == /\ busy[k] = Free /\ queue /= <<>>
           /\ busy' = [busy EXCEPT ![k] = Head(queue)]
           /\ queue' = Tail(queue)
           /\ UNCHANGED <<n, m, orig, copies, done, order, res>>
Run(k) == /\ busy[k] /= Free
          /\ LET i == busy[k] IN
             /\ done' = done \union {<<i, copies[i]>>}
             /\ copies' = [copies EXCEPT ![i] = @ + 1 + i]
             /\ order' = Append(order, i)
          /\ busy' = [busy EXCEPT ![k] = Free]
          /\ UNCHANGED <<n, m, orig, queue, res>>
Collect == /\ Cardinality(done) = n /\ Len(res) < n
           /\ res' = Append(res, CHOOSE d \in done : d[1] = Len(res) + 1)
           /\ UNCHANGED <<n, m, orig, copies, queue, busy, done, order>>
Next == (\E k \in 1..m : Take(k) \/ Run(k)) \/ Collect
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* one result per start, in the order of the starts, each from a fresh copy *)
InOrder == \A i \in DOMAIN res : res[i] = <<i, orig>>
Terminates == <>(Len(res) = n)
(* everybody is served once *)
Once == \A i, j \in DOMAIN order : order[i] = order[j] => i = j
(* a start is not overtaken by one that begins after it is finished *)
Emit == (Len(res) = n) => PrintT("@" \o ToJson([n |-> n, m |-> m, before |-> orig, order |-> order]))
Sym == <<n, m, orig, copies, queue, {busy[k] : k \in 1..m}, order, res>>
=============================================================================
