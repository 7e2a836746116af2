--------------------------------- MODULE MC_Rays ---------------------------------
(* The tracing loop as a batch machine, and what it has to do for every single ray.   *)
(*                                                                                    *)
(* What the scene does to a ray is its fate: a sequence of                            *)
(*   "go"      a surface is met and the ray goes on                                   *)
(*   "absorb"  a surface is met that absorbs the ray                                  *)
(*   "weak"    a surface is met that takes nearly all of the intensity                *)
(*   "loop"    from here on surfaces are met forever                                  *)
(*   "miss"    nothing is ahead                                                       *)
(* The machine follows the implementation: all rays alive are propagated and made to  *)
(* interact together, the segments of the rays that were not dead are inserted into   *)
(* the ledger, dead rays are trimmed.  A ray that has been absorbed or has become too *)
(* weak is noticed one turn later.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS NRays, MaxGo, MaxLim

VARIABLES fate, lim, phase, gen, set, hit, frame
rvars == <<fate, lim, phase, gen, set, hit, frame>>

Ids == 0..(NRays - 1)
Fates == {[i \in 1..k |-> "go"] \o <<e>> : k \in 0..MaxGo, e \in {"absorb", "weak", "loop", "miss"}}
\* what is met at interaction number g (from 0)
Met(f, g) == IF g + 1 <= Len(f) THEN f[g + 1] ELSE IF f[Len(f)] = "loop" THEN "loop" ELSE "miss"

\* ------------------------------------------------------------ for a single ray
\* number of segments without a limit, at most m
RECURSIVE Segs(_, _, _)
Segs(f, g, m) == IF g >= m THEN m
                 ELSE LET x == Met(f, g) IN
                      CASE x = "miss" -> g
                        [] x \in {"absorb", "weak"} -> g + 1
                        [] OTHER -> Segs(f, g + 1, m)
Expected(i) == Segs(fate[i], 0, lim)
RowsOf(i) == SelectSeq(frame, LAMBDA r : r.id = i)

\* ------------------------------------------------------------------ the machine
RInit ==
  /\ fate \in [Ids -> Fates] /\ lim \in 0..MaxLim
  /\ phase = "initialize" /\ gen = 0 /\ set = << >> /\ hit = << >> /\ frame = << >>
Initialize ==
  /\ phase = "initialize"
  /\ set' = [k \in 1..NRays |-> [id |-> k - 1, gen |-> 0, moving |-> TRUE, strong |-> TRUE]]
  /\ phase' = IF gen < lim THEN "propagate" ELSE "finish"
  /\ UNCHANGED <<fate, lim, gen, hit, frame>>
Propagate ==
  /\ phase = "propagate"
  /\ hit' = [k \in 1..Len(set) |-> IF set[k].moving THEN Met(fate[set[k].id], gen) ELSE "miss"]
  /\ phase' = "interact"
  /\ UNCHANGED <<fate, lim, gen, set, frame>>
Interact ==
  /\ phase = "interact"
  /\ LET dead(k) == ~set[k].moving \/ hit[k] = "miss" \/ ~set[k].strong
         live == SelectSeq([k \in 1..Len(set) |-> k], LAMBDA k : ~dead(k))
         next(k) == [set[k] EXCEPT !.moving = @ /\ hit[k] # "absorb", !.strong = @ /\ hit[k] # "weak",
                                   !.gen = gen + 1]
     IN IF live = << >> THEN /\ phase' = "finish" /\ UNCHANGED <<gen, set, frame>>
        ELSE /\ frame' = frame \o [j \in 1..Len(live) |-> [id |-> set[live[j]].id, gen |-> set[live[j]].gen]]
             /\ set' = [j \in 1..Len(live) |-> next(live[j])]
             /\ gen' = gen + 1
             /\ phase' = IF gen + 1 >= lim THEN "finish" ELSE "propagate"
  /\ UNCHANGED <<fate, lim, hit>>
Finish == /\ phase = "finish" /\ phase' = "idle" /\ UNCHANGED <<fate, lim, gen, set, hit, frame>>
RNext == Initialize \/ Propagate \/ Interact \/ Finish
RSpec == RInit /\ [][RNext]_rvars /\ WF_rvars(RNext)

\* -------------------------------------------------------------------- properties
\* the ledger of every ray is the beginning of its own chain, whatever the others do
Chains == \A i \in Ids : LET r == RowsOf(i) IN
            Len(r) <= Expected(i) /\ \A k \in 1..Len(r) : r[k].gen = k - 1
\* in the end it is all of it
Complete == phase = "idle" => \A i \in Ids : Len(RowsOf(i)) = Expected(i)
\* rays are handled in order within a generation, generations in order
Ordered == \A a, b \in 1..Len(frame) : a < b =>
             frame[a].gen < frame[b].gen \/ (frame[a].gen = frame[b].gen /\ frame[a].id < frame[b].id)
Alive == \A j \in 1..Len(set) : set[j].gen = gen
Terminates == <>(phase = "idle")

\* the cases, for the real tracer
Emit == (phase = "initialize" /\ lim = 0) =>
          PrintT("CASE " \o ToJson([fates |-> [k \in 1..NRays |-> fate[k - 1]], lims |-> [l \in 1..(MaxLim + 1) |-> MaxLim + 1 - l]]))
===================================================================================
