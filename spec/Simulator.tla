------------------------------ MODULE Simulator ------------------------------
(***************************************************************************)
(* Life of simulators that share solvers: costs, gradients and difference  *)
(* quotients are asked for in any order, with a pulse given in the call or *)
(* with the stored one; the solvers are used by somebody else in between;  *)
(* a cost function may raise; callers edit their pulses and the answers.   *)
(*                                                                         *)
(* Everything is integer valued: solver s shapes the nt x nc pulse by      *)
(* repeating every row os times (x) and by an amplitude function (a); cost *)
(* function f has components  L_k . a + q_k (sum a)^2.                      *)
(* Two layers: Eval is the specified answer (a function of the requested   *)
(* pulse only); the machine submits the pulse to the solvers one by one    *)
(* and collects the cost functions one by one (phase), so that Agree says  *)
(* that collecting them that way implements the specification.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Worlds,    \* seq of [nt, nc, pulses, sol, cf, sims]
  Faults,    \* whether cost functions may raise
  MaxLen

VARIABLES w, sol, attr, numeric, cell, log, job, out
vars == <<w, sol, attr, numeric, cell, log, job, out>>

W == w
None == 0
Idle == [op |-> "-"]

RECURSIVE Sum(_), Concat(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
Total(m) == Sum([i \in DOMAIN m |-> Sum(m[i])])
Plus(m, i, j, d) == [m EXCEPT ![i][j] = @ + d]

(* --- what a solver and a cost function do with a pulse p (a matrix) --- *)
Shape(s, p) == [i \in 1..(Len(p) * s.os) |-> p[((i - 1) \div s.os) + 1]]
Amp(s, row) ==
  CASE s.amp = "id" -> row
    [] s.amp = "sq" -> [j \in DOMAIN row |-> row[j] * row[j] + row[j]]
    [] s.amp = "mix" -> [j \in DOMAIN row |-> IF j = 1 THEN Sum(row) ELSE row[1] * row[j]]
(* d amplitude k / d x_j *)
DAmp(s, row, k, j) ==
  CASE s.amp = "id" -> IF k = j THEN 1 ELSE 0
    [] s.amp = "sq" -> IF k = j THEN 2 * row[j] + 1 ELSE 0
    [] s.amp = "mix" -> IF k = 1 THEN 1
                        ELSE (IF j = 1 THEN row[k] ELSE 0) + (IF j = k THEN row[1] ELSE 0)
Amps(s, p) == LET x == Shape(s, p) IN [i \in DOMAIN x |-> Amp(s, x[i])]

CostOf(f, p) ==
  LET a == TLCEval(Amps(W.sol[f.s], p))
      t == Total(a)
  IN [k \in DOMAIN f.L |->
        Total([i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> f.L[k][i][j] * a[i][j]]]) + f.q[k] * t * t]
GradOf(f, p) ==     \* [time][component][parameter]
  LET s == W.sol[f.s]
      x == TLCEval(Shape(s, p))
      tt == TLCEval(2 * Total(Amps(s, p)))
  IN TLCEval([t \in DOMAIN p |-> [k \in DOMAIN f.L |-> [j \in DOMAIN p[t] |->
        Sum([o \in 1..s.os |->
           LET i == (t - 1) * s.os + o
           IN Sum([c \in DOMAIN x[i] |-> (f.L[k][i][c] + f.q[k] * tt) * DAmp(s, x[i], c, j)])])]]])

Funcs(m) == [n \in DOMAIN W.sims[m].cf |-> W.cf[W.sims[m].cf[n]]]
CostAll(m, p) == Concat([n \in DOMAIN Funcs(m) |-> CostOf(Funcs(m)[n], p)])
GradAll(m, p) ==
  LET g == TLCEval([n \in DOMAIN Funcs(m) |-> GradOf(Funcs(m)[n], p)])
  IN [t \in DOMAIN p |-> Concat([n \in DOMAIN g |-> g[n][t]])]
Labels(m) == Concat([n \in DOMAIN Funcs(m) |-> Funcs(m)[n].lab])
Minus(a, b) == [k \in DOMAIN a |-> a[k] - b[k]]
(* difference quotients with step 1; symmetric ones are twice the value *)
Diff(m, p, sym) ==
  LET c == CostAll(m, p)
      d == TLCEval([t \in DOMAIN p |-> [j \in DOMAIN p[t] |->
             Minus(CostAll(m, Plus(p, t, j, 1)), IF sym THEN CostAll(m, Plus(p, t, j, -1)) ELSE c)]])
  IN [t \in DOMAIN p |-> [k \in DOMAIN c |-> [j \in DOMAIN p[t] |-> d[t][j][k]]]]

Pulse(i) == W.pulses[i]
Ids == DOMAIN W.pulses
Sims == DOMAIN W.sims
Ready == job = Idle /\ Len(log) < MaxLen
Add(e) == log' = Append(log, e)

Init == /\ \E n \in DOMAIN Worlds :
           /\ w = Worlds[n]
           /\ log = <<[op |-> "world", sim |-> n, p |-> 0, via |-> "", res |-> <<>>]>>
        /\ sol = [s \in DOMAIN W.sol |-> None]
        /\ attr = [m \in DOMAIN W.sims |-> None]
        /\ numeric = [m \in DOMAIN W.sims |-> FALSE]
        /\ cell = None
        /\ job = Idle /\ out = <<>>

(* --- one evaluation: submit to every solver, then collect in order --- *)
(* via: "arg" own array, "attr" the stored pulse, "cell" the caller's array  *)
Source(m, via, i) == CASE via = "arg" -> i [] via = "attr" -> attr[m] [] via = "cell" -> cell
Begin(op, m, via, i) ==
    /\ Ready
    /\ Source(m, via, i) /= None
    /\ (via /= "arg" => i = 1)
    /\ job' = [op |-> op, sim |-> m, p |-> Source(m, via, i), via |-> via, sub |-> 0, col |-> 0]
    /\ out' = <<>>
    /\ UNCHANGED <<w, sol, attr, numeric, cell, log>>
Running == job.op \in {"cost", "jac"}
Submit == /\ Running
          /\ job.sub < Len(W.sims[job.sim].sol)
          /\ sol' = [sol EXCEPT ![W.sims[job.sim].sol[job.sub + 1]] = job.p]
          /\ job' = [job EXCEPT !.sub = @ + 1]
          /\ UNCHANGED <<w, attr, numeric, cell, log, out>>
Collect == /\ Running
           /\ job.sub = Len(W.sims[job.sim].sol)
           /\ job.col < Len(W.sims[job.sim].cf)
           /\ LET f == Funcs(job.sim)[job.col + 1]
                  q == Pulse(sol[f.s])
              IN out' = IF job.op = "cost" THEN out \o CostOf(f, q)
                        ELSE IF out = <<>> THEN GradOf(f, q)
                        ELSE [t \in DOMAIN out |-> out[t] \o GradOf(f, q)[t]]
           /\ job' = [job EXCEPT !.col = @ + 1]
           /\ UNCHANGED <<w, sol, attr, numeric, cell, log>>
Collected == Running /\ job.col = Len(W.sims[job.sim].cf) /\ job.sub = Len(W.sims[job.sim].sol)
Return == /\ Collected
          /\ Add([op |-> IF job.op = "jac" /\ numeric[job.sim] THEN "njac" ELSE job.op,
                  sim |-> job.sim, p |-> job.p, via |-> job.via, res |-> out])
          /\ job' = Idle /\ out' = <<>>
          /\ UNCHANGED <<w, sol, attr, numeric, cell>>
(* cost function number job.col + 1 raises *)
Fail == /\ Faults
        /\ Running
        /\ job.sub = Len(W.sims[job.sim].sol) /\ job.col < Len(W.sims[job.sim].cf)
        /\ Add([op |-> "fail", sim |-> job.sim, p |-> job.p, via |-> job.op, res |-> <<job.col + 1>>])
        /\ job' = Idle /\ out' = <<>>
        /\ UNCHANGED <<w, sol, attr, numeric, cell>>

Differences(m, i, sym) ==
    /\ Ready
    /\ Add([op |-> IF sym THEN "sym" ELSE "fwd", sim |-> m, p |-> i, via |-> "arg", res |-> <<>>])
    /\ sol' = [s \in DOMAIN sol |-> IF \E n \in DOMAIN W.sims[m].sol : W.sims[m].sol[n] = s THEN None ELSE sol[s]]
    /\ UNCHANGED <<w, attr, numeric, cell, job, out>>
Compare(m, i, sym) ==
    /\ Ready /\ ~numeric[m]
    /\ Add([op |-> IF sym THEN "cmpsym" ELSE "cmpfwd", sim |-> m, p |-> i, via |-> "arg", res |-> <<>>])
    /\ sol' = [s \in DOMAIN sol |-> IF \E n \in DOMAIN W.sims[m].sol : W.sims[m].sol[n] = s THEN i ELSE sol[s]]
    /\ UNCHANGED <<w, attr, numeric, cell, job, out>>
Store(m, i) == /\ Ready /\ attr[m] /= i
               /\ attr' = [attr EXCEPT ![m] = i]
               /\ Add([op |-> "store", sim |-> m, p |-> i, via |-> "", res |-> <<>>])
               /\ UNCHANGED <<w, sol, numeric, cell, job, out>>
Numeric(m) == /\ Ready
              /\ numeric' = [numeric EXCEPT ![m] = ~@]
              /\ Add([op |-> "numeric", sim |-> m, p |-> 0, via |-> "", res |-> <<>>])
              /\ UNCHANGED <<w, sol, attr, cell, job, out>>
(* somebody else uses a solver *)
Disturb(s, i) == /\ Ready
                 /\ sol' = [sol EXCEPT ![s] = i]
                 /\ Add([op |-> "disturb", sim |-> s, p |-> i, via |-> "", res |-> <<>>])
                 /\ UNCHANGED <<w, attr, numeric, cell, job, out>>
(* the caller writes content i into the array it keeps *)
Edit(i) == /\ Ready /\ cell /= i
           /\ cell' = i
           /\ Add([op |-> "edit", sim |-> 0, p |-> i, via |-> "", res |-> <<>>])
           /\ UNCHANGED <<w, sol, attr, numeric, job, out>>
(* the caller overwrites the last answer *)
Scribble == /\ Ready
            /\ Add([op |-> "scribble", sim |-> 0, p |-> 0, via |-> "", res |-> <<>>])
            /\ UNCHANGED <<w, sol, attr, numeric, cell, job, out>>

Stop == /\ job = Idle /\ Len(log) = MaxLen
        /\ job' = [op |-> "stop"]
        /\ UNCHANGED <<w, sol, attr, numeric, cell, log, out>>

Next == \/ \E op \in {"cost", "jac"}, m \in Sims, via \in {"arg", "attr", "cell"}, i \in Ids : Begin(op, m, via, i)
        \/ Submit \/ Collect \/ Return \/ Fail
        \/ \E m \in Sims, i \in Ids : Store(m, i)
        \/ \E m \in Sims, i \in Ids, b \in BOOLEAN : Differences(m, i, b) \/ Compare(m, i, b)
        \/ \E m \in Sims : Numeric(m)
        \/ \E s \in DOMAIN W.sol, i \in Ids : Disturb(s, i)
        \/ \E i \in Ids : Edit(i)
        \/ Scribble
        \/ Stop
Spec == Init /\ [][Next]_vars

(* collecting from the solvers gives the specified answer, whatever they    *)
(* held before *)
Agree == Collected => out = (IF job.op = "cost" THEN CostAll(job.sim, Pulse(job.p))
                             ELSE GradAll(job.sim, Pulse(job.p)))
(* costs, gradients and labels are aligned *)
Aligned == Collected =>
    LET n == Len(Labels(job.sim))
    IN IF job.op = "cost" THEN Len(out) = n ELSE \A t \in DOMAIN out : Len(out[t]) = n
(* symmetric differences of the quadratic parts are exact where the         *)
(* amplitudes are linear *)
LinearExact == Collected /\ job.op = "jac" /\ (\A n \in DOMAIN Funcs(job.sim) : W.sol[Funcs(job.sim)[n].s].amp = "id")
    => LET d == Diff(job.sim, Pulse(job.p), TRUE)
       IN \A t \in DOMAIN out : \A k \in DOMAIN out[t] : \A j \in DOMAIN out[t][k] : d[t][k][j] = 2 * out[t][k][j]

(* what the steps of a history answer *)
Answer(e) ==
  CASE e.op \in {"fwd", "sym"} -> Diff(e.sim, Pulse(e.p), e.op = "sym")
    [] e.op \in {"cmpfwd", "cmpsym"} -> <<Diff(e.sim, Pulse(e.p), e.op = "cmpsym"), GradAll(e.sim, Pulse(e.p))>>
    [] OTHER -> e.res
Emit == (job.op = "stop") =>
    PrintT("@" \o ToJson([log |-> [n \in DOMAIN log |-> [log[n] EXCEPT !.res = Answer(log[n])]]]))
=============================================================================
