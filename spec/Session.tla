--------------------------------- MODULE Session ---------------------------------
(* Sessions with ray tracers: what a user sets, moves, traces and keeps.              *)
(*                                                                                    *)
(* The machine follows the implementation: a tracer has settings, a reference to its  *)
(* ledger (an object in a heap, as callers keep references to it) and a table of the  *)
(* surfaces it knows.  The objects of the scene are shared by all tracers and are      *)
(* represented by version numbers.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Tracers, Comps, MaxLen, MaxVer, Acts,
          Faults    \* deliberate faults: "forgets": a reset keeps the progress of a trace that was
                    \* broken off; "table": the table of surfaces is built once; "ledger": a
                    \* trace fills the ledger of the trace before; "stale": once a trace was completed the
                    \* tracer counts as finished for ever

VARIABLES conf,    \* tracer -> settings
          ver,     \* component -> version: pose, material; 0: the sources
          table,   \* tracer -> components whose surfaces are known
          heap,    \* ledgers: what they were computed from; << >>: empty
          frame,   \* tracer -> ledger
          last,    \* tracer -> what the last trace has to have been computed from
          done,    \* tracer -> there is a complete trace to be shown
          left,    \* tracer -> a trace was broken off by an exception and left the machine in the middle
          kept,    \* ledgers kept by the caller, with their content at that time
          ops
svars == <<conf, ver, table, heap, frame, last, done, left, kept, ops>>
\* what a broken trace has left in its ledger: nobody relies on it
Broken == <<"broken">>

Nrs == {1, 2}
Lims == {0, 1, 2}
Subsets == {S \in SUBSET Comps : S # {}}
Default == [nr |-> 1, lim |-> 1, comps |-> Comps]
Log(e) == ops' = Append(ops, e)
Room == Len(ops) < MaxLen

\* what a trace of t is computed from: known components only interact if they are in the table
Computed(t, tab) == << conf[t].nr, conf[t].lim, conf[t].comps,
                       [c \in conf[t].comps \cup {0} |-> ver[c]],
                       conf[t].comps \subseteq tab /\ ~("forgets" \in Faults /\ left[t]) >>

SInit ==
  /\ conf = [t \in Tracers |-> Default] /\ ver = [c \in Comps \cup {0} |-> 0]
  /\ table = [t \in Tracers |-> {}]
  /\ heap = [t \in 1..Cardinality(Tracers) |-> << >>]
  /\ frame = [t \in Tracers |-> t] /\ last = [t \in Tracers |-> << >>]
  /\ done = [t \in Tracers |-> FALSE]
  /\ left = [t \in Tracers |-> FALSE] /\ kept = {} /\ ops = << >>

SetNr(t, v) == conf' = [conf EXCEPT ![t].nr = v] /\ Log([a |-> "nr", t |-> t, v |-> v])
SetLim(t, v) == conf' = [conf EXCEPT ![t].lim = v] /\ Log([a |-> "lim", t |-> t, v |-> v])
Load(t, S) == conf' = [conf EXCEPT ![t].comps = S] /\ Log([a |-> "load", t |-> t, s |-> S])
Change(c) == /\ ver[c] < MaxVer /\ ver' = [ver EXCEPT ![c] = @ + 1]
             /\ Log([a |-> "change", c |-> c]) /\ UNCHANGED <<conf, table, heap, frame, last, done, left, kept>>
\* a reset makes a new ledger; a trace starts with a reset, builds the table and fills the ledger
Reset(t) ==
  /\ heap' = Append(heap, << >>) /\ frame' = [frame EXCEPT ![t] = Len(heap) + 1]
  /\ last' = [last EXCEPT ![t] = << >>]
  /\ done' = [done EXCEPT ![t] = "stale" \in Faults /\ @]
  /\ left' = [left EXCEPT ![t] = "forgets" \in Faults /\ @]
  /\ Log([a |-> "reset", t |-> t]) /\ UNCHANGED <<conf, ver, table, kept>>
Trace(t) ==
  /\ table' = [table EXCEPT ![t] = IF "table" \in Faults /\ @ # {} THEN @ ELSE conf[t].comps]
  /\ IF "ledger" \in Faults
     THEN heap' = [heap EXCEPT ![frame[t]] = Computed(t, table'[t])] /\ frame' = frame
     ELSE heap' = Append(heap, Computed(t, table'[t])) /\ frame' = [frame EXCEPT ![t] = Len(heap) + 1]
  /\ last' = [last EXCEPT ![t] = << conf[t].nr, conf[t].lim, conf[t].comps,
                                   [c \in conf[t].comps \cup {0} |-> ver[c]], TRUE >>]
  /\ kept' = kept \cup {<<frame'[t], heap'[frame'[t]]>>}
  /\ left' = [left EXCEPT ![t] = FALSE] /\ done' = [done EXCEPT ![t] = TRUE]
  /\ Log([a |-> "trace", t |-> t]) /\ UNCHANGED <<conf, ver>>
\* a source or a material raises an exception during a trace
Fail(t) ==
  /\ table' = [table EXCEPT ![t] = conf[t].comps]
  /\ heap' = Append(heap, Broken) /\ frame' = [frame EXCEPT ![t] = Len(heap) + 1]
  /\ last' = [last EXCEPT ![t] = Broken] /\ left' = [left EXCEPT ![t] = TRUE]
  /\ done' = [done EXCEPT ![t] = "stale" \in Faults /\ @]
  /\ Log([a |-> "fail", t |-> t]) /\ UNCHANGED <<conf, ver, kept>>
Results(t) == /\ Log([a |-> "results", t |-> t]) /\ UNCHANGED <<conf, ver, table, heap, frame, last, done, left, kept>>
Look(t) == /\ Log([a |-> "look", t |-> t]) /\ UNCHANGED <<conf, ver, table, heap, frame, last, done, left, kept>>
Show(t) == /\ Log([a |-> "show", t |-> t]) /\ UNCHANGED <<conf, ver, table, heap, frame, last, done, left, kept>>
May(x) == x \in Acts
ASet == May("set") /\ Room /\ \E t \in Tracers : ((\E v \in Nrs : SetNr(t, v)) \/ (\E v \in Lims : SetLim(t, v)))
                                  /\ UNCHANGED <<ver, table, heap, frame, last, done, left, kept>>
ALoad == May("load") /\ Room /\ \E t \in Tracers, S \in Subsets : Load(t, S) /\ UNCHANGED <<ver, table, heap, frame, last, done, left, kept>>
AChange == May("change") /\ Room /\ \E c \in Comps \cup {0} : Change(c)
AReset == May("reset") /\ Room /\ \E t \in Tracers : Reset(t)
ATrace == Room /\ \E t \in Tracers : Trace(t)
AFail == May("fail") /\ Room /\ \E t \in Tracers : Fail(t)
ALook == May("look") /\ Room /\ \E t \in Tracers : Results(t) \/ Look(t)
AShow == May("show") /\ Room /\ \E t \in Tracers : Show(t)
AEnd == May("end") /\ Len(ops) = MaxLen /\ Log([a |-> "end"]) /\ UNCHANGED <<conf, ver, table, heap, frame, last, done, left, kept>>
SNext == ASet \/ ALoad \/ AChange \/ AReset \/ ATrace \/ AFail \/ ALook \/ AShow \/ AEnd
SSpec == SInit /\ [][SNext]_svars

\* the results of a tracer are those of its last trace, computed from what was current then
Current == \A t \in Tracers : heap[frame[t]] = last[t]
\* what callers kept stays as it was
Held == \A k \in kept : heap[k[1]] = k[2]
\* no two tracers write to the same ledger
Own == \A t, u \in Tracers : t # u => frame[t] # frame[u]
\* what show draws: the rays of the last trace, if that was completed and not reset since
Shown(t) == IF done[t] THEN heap[frame[t]] ELSE << >>
Drawn == \A t \in Tracers : Shown(t) = IF last[t] = Broken THEN << >> ELSE last[t]
SView == <<conf, ver, table, heap, frame, last, done, left, kept, Len(ops)>>
Emit == (ops # << >> /\ ops[Len(ops)].a = "end") => PrintT("SCRIPT " \o ToJson(ops))
===================================================================================
