----------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* Results of optimisation runs, containers that list them, files that     *)
(* keep containers, and the analysis of a container.                       *)
(*                                                                         *)
(* A run is an entry [c, v, g, known]: content number c of the table Runs, *)
(* how often it was edited in place (v), and an alias group g.  Objects    *)
(* that may share memory have the same group (a container may keep the     *)
(* very arrays of the result appended); copies, loads and pickles get new  *)
(* groups.  An edit changes the entry edited and says nothing about other  *)
(* members of its group (known = FALSE); everything else must be as before.*)
(*                                                                         *)
(* Runs[c] = [lab, scalar, fc, hist, ct, gt, t0, t1]: labels, final costs, *)
(* costs per evaluation, ticks needed per evaluation of costs/gradients,   *)
(* start and end of the run.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Runs, Files, MaxObj, MaxLen

VARIABLES tab,       \* the table (a copy: cheap to read)
          res,       \* sequence of results: entries
          con,       \* sequence of containers: [runs, lab, own]
          files,     \* file -> Nothing or [runs, lab, own]
          fresh,     \* next alias group
          log
vars == <<tab, res, con, files, fresh, log>>

Nothing == [runs |-> <<>>, lab |-> 0, own |-> 0]
Bump == 10           \* an edit adds this to costs, parameters, end of the run
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Range(s) == {s[i] : i \in DOMAIN s}

Entry(c, g) == [c |-> c, v |-> 0, g |-> g, known |-> TRUE]
(* independent copies of some entries: shared inside as before *)
Groups(es) == {es[i].g : i \in DOMAIN es}
Renew(es) == LET G == Groups(es)
                 Rank(g) == Cardinality({h \in G : h < g})
             IN [i \in DOMAIN es |-> [es[i] EXCEPT !.g = fresh + Rank(es[i].g)]]
Used(es) == fresh + Cardinality(Groups(es))
Edited(es, g, i) ==    \* i = 0: the entry edited is not in es
  [k \in DOMAIN es |-> IF k = i THEN [es[k] EXCEPT !.v = @ + 1]
                       ELSE IF es[k].g = g THEN [es[k] EXCEPT !.known = FALSE] ELSE es[k]]

(* --- analysis of a list of entries --- *)
Fc(e) == [k \in DOMAIN tab[e.c].fc |-> tab[e.c].fc[k] + Bump * e.v]
Hist(e) == [i \in DOMAIN tab[e.c].hist |-> [k \in DOMAIN tab[e.c].hist[i] |-> tab[e.c].hist[i][k] + Bump * e.v]]
Sq(s) == Sum([k \in DOMAIN s |-> s[k] * s[k]])
Best(es) == {i \in DOMAIN es : \A j \in DOMAIN es : Sq(Fc(es[i])) <= Sq(Fc(es[j]))}
Longest(es) == CHOOSE m \in {Len(tab[es[i].c].hist) : i \in DOMAIN es} :
                 \A i \in DOMAIN es : Len(tab[es[i].c].hist) <= m
Absolute(es) == [i \in DOMAIN es |->    \* squares; -1 where the run is over
                  [k \in 1..Longest(es) |-> IF k <= Len(Hist(es[i])) THEN Sq(Hist(es[i])[k]) ELSE -1]]
Columns(m) == IF m = <<>> THEN <<>> ELSE [k \in DOMAIN m[1] |-> Sum([i \in DOMAIN m |-> m[i][k]])]
OptTime(e) == tab[e.c].t1 + Bump * e.v - tab[e.c].t0
Analysis(es) ==
  IF es = <<>> \/ \E i \in DOMAIN es : ~es[i].known THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, best |-> Best(es), abs |-> Absolute(es),
        ct |-> [i \in DOMAIN es |-> Columns(tab[es[i].c].ct)],
        gt |-> [i \in DOMAIN es |-> Columns(tab[es[i].c].gt)],
        opt |-> [i \in DOMAIN es |-> OptTime(es[i])],
        totc |-> Sum([i \in DOMAIN es |-> Sum(Columns(tab[es[i].c].ct))]),
        totg |-> Sum([i \in DOMAIN es |-> Sum(Columns(tab[es[i].c].gt))])]

(* --- actions --- *)
Init == /\ tab = Runs
        /\ res = <<>> /\ con = <<>> /\ files = [f \in Files |-> Nothing] /\ fresh = 1 /\ log = <<>>

Live == Len(log) < MaxLen
Do(op) == log' = Append(log, op)

NewResult(c) == /\ Live /\ Len(res) < MaxObj
  /\ res' = Append(res, Entry(c, fresh)) /\ fresh' = fresh + 1
  /\ Do([op |-> "result", c |-> c]) /\ UNCHANGED <<tab, con, files>>
(* to_dict / from_dict: equal, may share; deepcopy, pickle: independent *)
Convert(i, how) == /\ Live /\ i \in DOMAIN res /\ res[i].known
  /\ Len(res) < MaxObj
  /\ res' = Append(res, IF how = "dict" THEN res[i] ELSE [res[i] EXCEPT !.g = fresh])
  /\ fresh' = fresh + 1
  /\ Do([op |-> "convert", i |-> i, how |-> how]) /\ UNCHANGED <<tab, con, files>>
NewContainer(own) == /\ Live /\ Len(con) < MaxObj
  /\ con' = Append(con, [runs |-> <<>>, lab |-> 0, own |-> own])
  /\ Do([op |-> "container", own |-> own]) /\ UNCHANGED <<tab, res, files, fresh>>
(* results with other cost labels are refused *)
AppendRun(k, i) == /\ Live /\ k \in DOMAIN con /\ i \in DOMAIN res /\ res[i].known
  /\ Len(con[k].runs) < 6
  /\ LET ok == con[k].runs = <<>> \/ con[k].lab = tab[res[i].c].lab IN
     /\ con' = IF ok THEN [con EXCEPT ![k].runs = Append(@, res[i]), ![k].lab = tab[res[i].c].lab] ELSE con
     /\ Do([op |-> "append", k |-> k, i |-> i, ok |-> ok])
  /\ UNCHANGED <<tab, res, files, fresh>>
CopyContainer(k, how) == /\ Live /\ k \in DOMAIN con /\ Len(con) < MaxObj
  /\ con' = Append(con, [con[k] EXCEPT !.runs = Renew(@)])
  /\ fresh' = Used(con[k].runs)
  /\ Do([op |-> "copy", k |-> k, how |-> how]) /\ UNCHANGED <<tab, res, files>>
(* into a named file, or the own file of the container (own = 0: none) *)
Store(k, f) == /\ Live /\ k \in DOMAIN con /\ con[k].runs /= <<>>
  /\ files' = [files EXCEPT ![f] = con[k]]
  /\ Do([op |-> "store", k |-> k, f |-> f, by |-> IF con[k].own = f THEN "own" ELSE "name"])
  /\ UNCHANGED <<tab, res, con, fresh>>
Load(f) == /\ Live /\ files[f] /= Nothing /\ Len(con) < MaxObj
  /\ con' = Append(con, [files[f] EXCEPT !.runs = Renew(@)])
  /\ fresh' = Used(files[f].runs)
  /\ Do([op |-> "load", f |-> f]) /\ UNCHANGED <<tab, res, files>>
EditRun(k, i) == /\ Live /\ k \in DOMAIN con /\ i \in DOMAIN con[k].runs /\ con[k].runs[i].known
  /\ LET g == con[k].runs[i].g IN
     /\ con' = [m \in DOMAIN con |-> [con[m] EXCEPT !.runs = Edited(@, g, IF m = k THEN i ELSE 0)]]
     /\ res' = Edited(res, g, 0)
  /\ Do([op |-> "edit", k |-> k, i |-> i]) /\ UNCHANGED <<tab, files, fresh>>
EditResult(i) == /\ Live /\ i \in DOMAIN res /\ res[i].known
  /\ res' = Edited(res, res[i].g, i)
  /\ con' = [m \in DOMAIN con |-> [con[m] EXCEPT !.runs = Edited(@, res[i].g, 0)]]
  /\ Do([op |-> "editresult", i |-> i]) /\ UNCHANGED <<tab, files, fresh>>
(* what every container says now *)
Read == /\ Live /\ con /= <<>> /\ log /= <<>> /\ log[Len(log)].op /= "read"
  /\ Do([op |-> "read", res |-> res, con |-> con, an |-> [k \in DOMAIN con |-> Analysis(con[k].runs)]])
  /\ UNCHANGED <<tab, res, con, files, fresh>>
Stop == /\ Len(log) = MaxLen
  /\ log' = Append(log, [op |-> "end", res |-> res, con |-> con, an |-> [k \in DOMAIN con |-> Analysis(con[k].runs)]])
  /\ UNCHANGED <<tab, res, con, files, fresh>>

Next == \/ \E c \in DOMAIN Runs : NewResult(c)
        \/ \E i \in 1..MaxObj, h \in {"dict", "deepcopy", "pickle"} : Convert(i, h)
        \/ \E f \in Files \union {0} : NewContainer(f)
        \/ \E k, i \in 1..MaxObj : AppendRun(k, i)
        \/ \E k, i \in 1..MaxObj : AppendRun(k, i)
        \/ \E k \in 1..MaxObj, h \in {"deepcopy", "pickle"} : CopyContainer(k, h)
        \/ \E k \in 1..MaxObj, f \in Files : Store(k, f)
        \/ \E f \in Files : Load(f)
        \/ \E k \in 1..MaxObj, i \in 1..6 : EditRun(k, i)
        \/ \E i \in 1..MaxObj : EditResult(i)
        \/ Read \/ Stop
Spec == Init /\ [][Next]_vars

(* --- properties of the specification itself --- *)
(* files never change by edits, only by storing *)
FilesFrozen == [][\A f \in Files : files'[f] /= files[f] =>
                    /\ log'[Len(log')].op = "store" /\ log'[Len(log')].f = f]_vars
(* an entry changes only by an edit; positions are never permuted *)
Ordered == [][\A k \in DOMAIN con : \A i \in DOMAIN con[k].runs :
                 /\ con'[k].runs[i].c = con[k].runs[i].c
                 /\ con'[k].runs[i].v /= con[k].runs[i].v => log'[Len(log')].op = "edit"]_vars
(* different groups never share: equal groups only inside one memory *)
KnownAgree == \A k, m \in DOMAIN con : \A i \in DOMAIN con[k].runs : \A j \in DOMAIN con[m].runs :
                 (con[k].runs[i].g = con[m].runs[j].g) => con[k].runs[i].c = con[m].runs[j].c
OneLabel == \A k \in DOMAIN con : \A e \in Range(con[k].runs) : tab[e.c].lab = con[k].lab
Emit == (log /= <<>> /\ log[Len(log)].op = "end") => PrintT("@" \o ToJson([log |-> log]))
=============================================================================
