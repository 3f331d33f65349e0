-------------------------- MODULE PulseDescription --------------------------
(***************************************************************************)
(* Life of solvers that hand a description of their pulse to the filter    *)
(* function formalism.  A solver keeps the description until its pulse or  *)
(* its time steps change; cost functions with other spectra and            *)
(* frequencies use the same description; the caller may ask for the        *)
(* description (in another basis), copy solvers and edit his arrays.       *)
(*                                                                         *)
(* Two layers: solver o is at pulse pul[o] (0: none) on the time grid      *)
(* tau[o]; seq[o] is the description kept, [p, t, b] or Nothing.  Answers  *)
(* are taken from the description; Agree says they are those of the pulse  *)
(* currently set.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Len_,      \* <<number of time steps of pulse 1, 2, ...>>
          Grid,      \* <<number of time steps of grid 1, 2, ...>>
          NCost, NBasis, MaxObj, MaxLen, MayRegrid
VARIABLES pul, tau, seq, log
vars == <<pul, tau, seq, log>>

Nothing == [p |-> 0, t |-> 0, b |-> 0]
Objs == DOMAIN pul
Cur(o) == [p |-> pul[o], t |-> tau[o]]

Init == /\ \E g \in DOMAIN Grid : tau = <<g>>
        /\ pul = <<0>> /\ seq = <<Nothing>>
        /\ log = <<[op |-> "new", o |-> 1, t |-> tau[1]]>>
Live == Len(log) < MaxLen
Do(op) == log' = Append(log, op)

SetPulse(o, p) == /\ Live /\ o \in Objs /\ Len_[p] = Grid[tau[o]]
  /\ pul' = [pul EXCEPT ![o] = p]
  /\ seq' = [seq EXCEPT ![o] = IF pul[o] = p THEN @ ELSE Nothing]
  /\ Do([op |-> "set", o |-> o, p |-> p]) /\ UNCHANGED tau
(* parameters survive if there are as many time steps as before *)
SetTimes(o, t) == /\ Live /\ o \in Objs /\ MayRegrid
  /\ tau' = [tau EXCEPT ![o] = t]
  /\ pul' = [pul EXCEPT ![o] = IF Grid[t] = Grid[tau[o]] THEN @ ELSE 0]
  /\ seq' = [seq EXCEPT ![o] = Nothing]
  /\ Do([op |-> "times", o |-> o, t |-> t])
(* p = 0: of the pulse set; b = 0: no basis asked for *)
Create(o, p, b) == /\ Live /\ o \in Objs
  /\ (IF p = 0 THEN pul[o] /= 0 ELSE Len_[p] = Grid[tau[o]])
  /\ pul' = [pul EXCEPT ![o] = IF p = 0 THEN @ ELSE p]
  /\ seq' = [seq EXCEPT ![o] = [p |-> pul'[o], t |-> tau[o], b |-> b]]
  /\ Do([op |-> "create", o |-> o, p |-> p, b |-> b, d |-> seq'[o]]) /\ UNCHANGED tau
Ask(o, f, what) == /\ Live /\ o \in Objs /\ pul[o] /= 0
  /\ seq' = [seq EXCEPT ![o] = IF @ = Nothing THEN [p |-> pul[o], t |-> tau[o], b |-> 0] ELSE @]
  /\ Do([op |-> what, o |-> o, f |-> f, d |-> seq'[o]]) /\ UNCHANGED <<pul, tau>>
(* the solver is used otherwise *)
Evolve(o) == /\ Live /\ o \in Objs /\ pul[o] /= 0
  /\ Do([op |-> "evolve", o |-> o, d |-> Cur(o)]) /\ UNCHANGED <<pul, tau, seq>>
Copy(o) == /\ Live /\ o \in Objs /\ Len(pul) < MaxObj
  /\ pul' = Append(pul, pul[o]) /\ tau' = Append(tau, tau[o]) /\ seq' = Append(seq, seq[o])
  /\ Do([op |-> "copy", o |-> o])
(* the arrays last handed in are edited by the caller, not the solver *)
EditArrays == /\ Live /\ Do([op |-> "edit", o |-> 1]) /\ UNCHANGED <<pul, tau, seq>>

Next == \/ \E o \in 1..MaxObj, p \in DOMAIN Len_ : SetPulse(o, p)
        \/ \E o \in 1..MaxObj, t \in DOMAIN Grid : SetTimes(o, t)
        \/ \E o \in 1..MaxObj, p \in 0..Len(Len_), b \in 0..NBasis : Create(o, p, b)
        \/ \E o \in 1..MaxObj, f \in 1..NCost : Ask(o, f, "cost")
        \/ \E o \in 1..MaxObj, f \in 1..NCost : Ask(o, f, "cost")
        \/ \E o \in 1..MaxObj, f \in 1..NCost : Ask(o, f, "grad")
        \/ \E o \in 1..MaxObj : Evolve(o)
        \/ \E o \in 1..MaxObj : Copy(o)
        \/ EditArrays
Spec == Init /\ [][Next]_vars

(* a description that is kept is the one of the pulse set *)
Kept == \A o \in Objs : seq[o] /= Nothing => seq[o].p = pul[o] /\ seq[o].t = tau[o] /\ pul[o] /= 0
Agree == LET e == log[Len(log)] IN
           e.op \in {"cost", "grad", "create"} => e.d.p = pul[e.o] /\ e.d.t = tau[e.o]
(* copies go their own way *)
Separate == [][\A o \in Objs : (<<pul[o], tau[o]>> /= <<pul'[o], tau'[o]>>) => log'[Len(log')].o = o]_vars
Emit == Len(log) = MaxLen => PrintT("@" \o ToJson([log |-> log]))
=============================================================================
