----------------------------- MODULE SolverCache -----------------------------
(***************************************************************************)
(* Life of one solver object: parameters are submitted (accepted or        *)
(* rejected), the caller edits or re-submits its own array, time grids are *)
(* changed, caches are dropped and quantities are queried in any order.    *)
(* Two layers are modelled: the abstract solver, whose answers depend only *)
(* on the current settings <<par, grid>>, and a lazily filled cache per    *)
(* quantity with its dependencies.  CacheFresh states that the second      *)
(* implements the first: whatever is cached belongs to current settings.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Vals,      \* parameter values (contents of a parameter array)
  Grids,     \* time grids
  Size,      \* [Grids -> Nat] number of slices of a grid
  Bad,       \* kinds of unacceptable parameter arrays
  Queries,   \* quantities
  Dep,       \* [Queries -> SUBSET Queries] quantities filled on the way
  Edits,     \* whether the caller edits / re-submits its array
  MaxLen,    \* length of a history
  OnlyEmitFull

VARIABLES par, arr, arrsize, grid, cache, len, hist
vars == <<par, arr, arrsize, grid, cache, len, hist>>

None == 0                     \* no parameters
NoTag == <<-1, -1>>
Settings == <<par, grid>>
SettingsView == <<par, arr, arrsize, grid, cache>>

Log(e) == /\ len < MaxLen
          /\ len' = len + 1
          /\ hist' = Append(hist, e)

Empty == [q \in Queries |-> NoTag]

Init == /\ par = None /\ arr = None /\ arrsize = 0
        /\ grid \in Grids
        /\ cache = Empty
        /\ len = 0
        /\ hist = <<<<"New", grid, 0>>>>

(* a new array with content v, of the length the current grid needs *)
Set(v) == /\ Log(<<"Set", v, 0>>)
          /\ arr' = v /\ arrsize' = Size[grid]
          /\ par' = v
          /\ cache' = IF par = v THEN cache ELSE Empty
          /\ UNCHANGED grid
(* the caller writes new content into the array submitted last *)
Edit(v) == /\ Edits /\ arr /= None /\ arr /= v
           /\ Log(<<"Edit", v, 0>>)
           /\ arr' = v
           /\ UNCHANGED <<par, arrsize, grid, cache>>
(* the array submitted last is submitted again, whatever it contains now *)
Resubmit == /\ Edits /\ arr /= None /\ arrsize = Size[grid]
            /\ Log(<<"Resubmit", arr, 0>>)
            /\ par' = arr
            /\ cache' = IF par = arr THEN cache ELSE Empty
            /\ UNCHANGED <<arr, arrsize, grid>>
(* an unacceptable array: raises, and nothing is different afterwards *)
Reject(b) == /\ Log(<<"Reject", b, 0>>)
             /\ cache' \in {cache, Empty}     \* caches may be dropped
             /\ UNCHANGED <<par, arr, arrsize, grid>>
(* a new time grid: parameters of the wrong length are forgotten *)
Regrid(g) == /\ Log(<<"Regrid", g, 0>>)
             /\ grid' = g
             /\ par' = IF Size[g] = Size[grid] THEN par ELSE None
             /\ cache' = Empty
             /\ UNCHANGED <<arr, arrsize>>
Reset == /\ Log(<<"Reset", 0, 0>>)
         /\ cache' = Empty
         /\ UNCHANGED <<par, arr, arrsize, grid>>
(* a query answers for the current settings, or raises if there are none *)
Query(q) == /\ Log(<<"Query", q, par>>)
            /\ cache' = IF par = None THEN cache
                        ELSE [x \in Queries |-> IF x = q \/ x \in Dep[q]
                                THEN (IF cache[x] = NoTag THEN Settings ELSE cache[x])
                                ELSE cache[x]]
            /\ UNCHANGED <<par, arr, arrsize, grid>>

Next == \/ \E v \in Vals : Set(v) \/ Edit(v)
        \/ Resubmit
        \/ \E b \in Bad : Reject(b)
        \/ \E g \in Grids : Regrid(g)
        \/ Reset
        \/ \E q \in Queries : Query(q)
Spec == Init /\ [][Next]_vars

CacheFresh == \A q \in Queries : cache[q] \in {NoTag, Settings}
(* settings change only by the actions that say so *)
SettingsStable == [][(\E q \in Queries : Query(q)) \/ Reset \/ (\E b \in Bad : Reject(b))
                     \/ (\E v \in Vals : Edit(v)) => UNCHANGED <<par, grid>>]_vars
(* a second submission of the same content leaves everything as it is *)
Idempotent == [][\A v \in Vals : Set(v) /\ par = v => UNCHANGED <<par, grid, cache>>]_vars

EmitDone == (len = MaxLen \/ ~OnlyEmitFull) =>
    PrintT("@" \o ToJson([h |-> hist, par |-> par, grid |-> grid]))
=============================================================================
