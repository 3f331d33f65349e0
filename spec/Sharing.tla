------------------------------ MODULE Sharing ------------------------------
(***************************************************************************)
(* Objects owned by the caller (leaves: operators, arrays, lists ...) and   *)
(* objects of the library built from them and from each other, shared in    *)
(* any pattern.  Two layers are modelled.                                   *)
(*                                                                         *)
(* Values: what an object means is a tree of the calls that made it, with   *)
(* the contents of the leaves, and for solvers and simulators the accepted  *)
(* parameters.  The answer to a question is the tree of the question.       *)
(* Trees have no sharing: evaluating one on separate copies of everything   *)
(* gives the specified answer.                                              *)
(*                                                                         *)
(* References: objects point to what they were built from, accepted         *)
(* parameters are a copy (CopyOnAccept) or a reference to the array of the  *)
(* caller.  NoLeak: what a solver reads are the accepted parameters.        *)
(*                                                                         *)
(* Leaves change only when the caller edits them (Frame), and only arrays   *)
(* of parameters are edited.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS
  Leaves,        \* sequence of sets of types
  Calls,         \* sequence of [name, args (sequence of types), eff, makes]
  Scripts,       \* set of [id, steps]; a step is <<call, pick, pick ...>>,
                 \* call 0 edits a leaf; steps = <<>>: any calls
  Versions, MaxLen, MaxObj, CopyOnAccept

VARIABLES script, heap, ver, pc, log, asked
vars == <<script, heap, ver, pc, log, asked>>
View == <<script.id, heap, ver>>

NoPar == <<0, 0>>
Unknown == <<-1, -1>>
Kind(o) == IF heap[o].call = 0 THEN "leaf" ELSE Calls[heap[o].call].name
L == Len(Leaves)
Has(o, t) == t \in heap[o].types

RECURSIVE Under(_)
(* solvers and simulators an object is built from *)
Under(o) == {o} \cup UNION {Under(heap[o].refs[i]) : i \in DOMAIN heap[o].refs}
Solvers(o) == {p \in Under(o) : Has(p, "takes")}

RECURSIVE Tree(_)
Tree(o) == IF heap[o].call = 0 THEN <<"leaf", o, ver[o]>>
           ELSE <<"call", heap[o].call, [i \in DOMAIN heap[o].refs |-> Tree(heap[o].refs[i])],
                  heap[o].par>>
(* without parameters accepted before, which an evaluation replaces *)
RECURSIVE Bare(_, _)
Bare(o, own) == IF heap[o].call = 0 THEN <<"leaf", o, ver[o]>>
           ELSE <<"call", heap[o].call, [i \in DOMAIN heap[o].refs |-> Bare(heap[o].refs[i], FALSE)],
                  IF own THEN heap[o].par ELSE NoPar>>
Below(o) == {s \in Solvers(o) : ~Has(s, "keeps")}
(* what a solver of the reference layer reads *)
Reads(o) == IF heap[o].held = NoPar THEN NoPar
            ELSE IF heap[o].held = Unknown THEN Unknown
            ELSE IF CopyOnAccept THEN heap[o].held
            ELSE <<heap[o].held[1], ver[heap[o].held[1]]>>

Init == /\ script \in Scripts
        /\ heap = [o \in 1..L |-> [call |-> 0, refs |-> <<>>, types |-> Leaves[o],
                                    par |-> NoPar, held |-> NoPar]]
        /\ ver = [o \in 1..L |-> 0]
        /\ pc = 1 /\ log = <<>> /\ asked = <<>>

Candidates(t) == {o \in DOMAIN heap : t \in heap[o].types}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})

(* the accepted parameters of the objects S are the present contents of y *)
Accept(S, y) == [o \in DOMAIN heap |-> IF o \in S
                  THEN [heap[o] EXCEPT !.par = <<y, ver[y]>>, !.held = <<y, ver[y]>>] ELSE heap[o]]
Forget(S) == [o \in DOMAIN heap |-> IF o \in S
                  THEN [heap[o] EXCEPT !.par = Unknown, !.held = Unknown] ELSE heap[o]]
Ready(o) == \A s \in Solvers(o) : heap[s].par \notin {NoPar, Unknown}

Do(k, a) ==
  LET c == Calls[k]
      note(ans) == log' = Append(log, [c |-> k, a |-> a, v |-> ans])
  IN CASE c.eff = "make" ->
            /\ Len(heap) < MaxObj
            /\ heap' = Append(heap, [call |-> k, refs |-> a, types |-> c.makes,
                                     par |-> NoPar, held |-> NoPar])
            /\ note(<<>>) /\ UNCHANGED <<ver, asked>>
       (* as above, with the parameters of the last argument *)
       [] c.eff = "makepar" ->
            /\ Len(heap) < MaxObj
            /\ LET y == a[Len(a)] p == <<y, ver[y]>>
               IN heap' = Append(heap, [call |-> k, refs |-> a, types |-> c.makes,
                                        par |-> p, held |-> p])
            /\ note(<<>>) /\ UNCHANGED <<ver, asked>>
       (* parameters a[2] are submitted to a[1] *)
       [] c.eff = "set" ->
            /\ heap' = Accept({a[1]}, a[2])
            /\ note(<<>>) /\ UNCHANGED <<ver, asked>>
       (* a question about a[1] .. with the accepted parameters *)
       [] c.eff = "ask" ->
            /\ \A i \in DOMAIN a : Ready(a[i])
            /\ LET t == <<"call", k, [i \in DOMAIN a |-> Tree(a[i])], NoPar>>
               IN note(t) /\ asked' = Append(asked, t)
            /\ UNCHANGED <<heap, ver>>
       (* an evaluation of a[1] at the parameters a[2] *)
       [] c.eff = "eval" ->
            /\ heap' = Accept(Below(a[1]), a[2])
            /\ LET t == <<"call", k, <<Bare(a[1], FALSE), Tree(a[2])>>, NoPar>>
               IN note(t) /\ asked' = Append(asked, t)
            /\ UNCHANGED ver
       (* an evaluation of a[1] at its own parameters *)
       [] c.eff = "own" ->
            /\ heap' = [o \in DOMAIN heap |-> IF o \in Below(a[1])
                  THEN [heap[o] EXCEPT !.par = heap[a[1]].par, !.held = heap[a[1]].held] ELSE heap[o]]
            /\ LET t == <<"call", k, <<Bare(a[1], TRUE)>>, NoPar>>
               IN note(t) /\ asked' = Append(asked, t)
            /\ UNCHANGED ver
       (* many evaluations starting from the parameters a[2] *)
       [] c.eff = "run" ->
            /\ heap' = Forget(Below(a[1]))
            /\ LET t == <<"call", k, <<Bare(a[1], FALSE), Tree(a[2])>>, NoPar>>
               IN note(t) /\ asked' = Append(asked, t)
            /\ UNCHANGED ver
Skip == UNCHANGED <<heap, ver, log, asked>>
Edit(y) == /\ ver' = [ver EXCEPT ![y] = (@ + 1) % Versions]
           /\ log' = Append(log, [c |-> 0, a |-> <<y>>, v |-> <<"leaf", y, (ver[y] + 1) % Versions>>])
           /\ UNCHANGED <<heap, asked>>

Enabled(k, a) == LET c == Calls[k] IN
    CASE c.eff \in {"make", "makepar"} -> Len(heap) < MaxObj
      [] c.eff = "ask" -> \A i \in DOMAIN a : Ready(a[i])
      [] OTHER -> TRUE

Scripted ==
  /\ script.steps /= <<>> /\ pc <= Len(script.steps)
  /\ LET st == script.steps[pc] k == st[1]
         ts == IF k = 0 THEN <<"par">> ELSE Calls[k].args
         pools == [i \in DOMAIN ts |-> Sorted(Candidates(ts[i]))]
         a == [i \in DOMAIN ts |-> pools[i][1 + (st[i + 1] % Len(pools[i]))]]
     IN IF \E i \in DOMAIN ts : pools[i] = <<>> THEN Skip
        ELSE IF k = 0 THEN Edit(a[1])
        ELSE IF Enabled(k, a) THEN Do(k, a) ELSE Skip
  /\ pc' = pc + 1 /\ UNCHANGED script
RECURSIVE Tuples(_)
Tuples(ts) == IF ts = <<>> THEN {<<>>}
              ELSE {<<x>> \o t : x \in Candidates(Head(ts)), t \in Tuples(Tail(ts))}
Free ==
  /\ script.steps = <<>> /\ pc <= MaxLen
  /\ \/ \E k \in DOMAIN Calls : \E a \in Tuples(Calls[k].args) : Enabled(k, a) /\ Do(k, a)
     \/ \E y \in Candidates("par") : Edit(y)
  /\ pc' = pc + 1 /\ UNCHANGED script
(* a finished script stops in a state of its own, where it is printed *)
Stop == /\ script.steps /= <<>> /\ pc = Len(script.steps) + 1
        /\ pc' = 1000 /\ UNCHANGED <<script, heap, ver, log, asked>>
Next == Scripted \/ Free \/ Stop
Spec == Init /\ [][Next]_vars

(* accepted parameters are read whatever happens to the array of the caller *)
NoLeak == \A o \in DOMAIN heap : Reads(o) = heap[o].par
(* calls of the library leave every object of the caller as it is; structure
   and the meaning of other objects change only by parameters *)
Frame == [][ /\ (Len(log') = Len(log) \/ log'[Len(log')].c /= 0) => ver' = ver
             /\ \A o \in DOMAIN heap : heap'[o].call = heap[o].call /\ heap'[o].refs = heap[o].refs
             /\ (ver' /= ver => heap' = heap) ]_vars
(* answers already given stay *)
AnswersStay == [][ /\ Len(asked') >= Len(asked)
                   /\ \A i \in DOMAIN asked : asked'[i] = asked[i] ]_vars
(* the same question about the same values has one answer: it mentions only
   leaf contents, calls and accepted parameters *)
Typed == \A o \in DOMAIN heap : heap[o].call > 0 =>
            \A i \in DOMAIN heap[o].refs : heap[o].refs[i] < o
                /\ Calls[heap[o].call].args[i] \in heap[heap[o].refs[i]].types
EmitLog == pc = 1000 => PrintT("@" \o ToJson([id |-> script.id, log |-> log]))
============================================================================
