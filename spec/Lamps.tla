---------------------------------- MODULE Lamps ----------------------------------
(* Histories of lamps: who draws rays when, and who may change what was handed out.  *)
(*                                                                                    *)
(* The machine follows the implementation: a static lamp keeps a set of rays for      *)
(* every count in a heap of ray sets, hands out copies of it, and puts the current    *)
(* pose and wavelength on the copy; an ordinary lamp draws anew on every call.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Static, Plain, Counts, MaxLen, Acts, Aliased, Shared
\* Aliased: callers get the kept set itself; Shared: all lamps keep theirs in the same place.
\* Both are FALSE for the machine as it has to be.

VARIABLES heap,     \* ray sets: [draw: which drawing of random numbers, col: wavelength, mod: spoiled]
          kept,     \* static lamp and count -> place in the heap, 0: none
          pose, col, \* lamp -> version of its pose and wavelength
          out,      \* emissions in order: [l, c, r: place of the returned set, pose]
          draws,    \* number of drawings so far
          ops
lvars == <<heap, kept, pose, col, out, draws, ops>>
Lamps == Static \cup Plain
Log(e) == ops' = Append(ops, e)
Room == Len(ops) < MaxLen
May(x) == x \in Acts
Key(l, c) == IF Shared THEN << 0, c >> ELSE << l, c >>

LInit == /\ heap = << >> /\ kept = [k \in (Static \cup {0}) \X Counts |-> 0]
          /\ pose = [l \in Lamps |-> 0] /\ col = [l \in Lamps |-> 0]
          /\ out = << >> /\ draws = 0 /\ ops = << >>

Fresh(l) == [draw |-> draws + 1, col |-> col[l], mod |-> FALSE]
EmitPlain(l, c) ==
  /\ heap' = Append(heap, Fresh(l)) /\ draws' = draws + 1
  /\ out' = Append(out, [l |-> l, c |-> c, pose |-> pose[l], r |-> Len(heap) + 1, got |-> Fresh(l)])
  /\ UNCHANGED kept
EmitStatic(l, c) ==
  LET known == kept[Key(l, c)] # 0
      h1 == IF known THEN heap ELSE Append(heap, Fresh(l))
      p == IF known THEN kept[Key(l, c)] ELSE Len(h1)
      got == [h1[p] EXCEPT !.col = col[l]]
  IN /\ draws' = IF known THEN draws ELSE draws + 1
     /\ kept' = [kept EXCEPT ![Key(l, c)] = p]
     /\ heap' = IF Aliased THEN h1 ELSE Append(h1, got)
     /\ out' = Append(out, [l |-> l, c |-> c, pose |-> pose[l], r |-> IF Aliased THEN p ELSE Len(h1) + 1, got |-> got])
Emit(l, c) == /\ IF l \in Static THEN EmitStatic(l, c) ELSE EmitPlain(l, c)
              /\ Log([a |-> "emit", l |-> l, c |-> c]) /\ UNCHANGED <<pose, col>>
\* the caller overwrites the set that an emission returned
Spoil(i) == /\ heap' = [heap EXCEPT ![out[i].r].mod = TRUE]
            /\ Log([a |-> "spoil", i |-> i]) /\ UNCHANGED <<kept, pose, col, out, draws>>
Move(l) == /\ pose[l] < 2 /\ pose' = [pose EXCEPT ![l] = @ + 1]
           /\ Log([a |-> "move", l |-> l]) /\ UNCHANGED <<heap, kept, col, out, draws>>
Colour(l) == /\ col[l] < 2 /\ col' = [col EXCEPT ![l] = @ + 1]
             /\ Log([a |-> "colour", l |-> l]) /\ UNCHANGED <<heap, kept, pose, out, draws>>
LNext == \/ Room /\ \E l \in Lamps, c \in Counts : Emit(l, c)
         \/ Room /\ May("spoil") /\ \E i \in 1..Len(out) : (i = Len(out) \/ May("spoilany")) /\ ~heap[out[i].r].mod /\ Spoil(i)
         \/ Room /\ May("move") /\ \E l \in Lamps : Move(l)
         \/ Room /\ May("colour") /\ \E l \in Lamps : Colour(l)
         \/ May("end") /\ Len(ops) = MaxLen /\ Log([a |-> "end"]) /\ UNCHANGED <<heap, kept, pose, col, out, draws>>
LSpec == LInit /\ [][LNext]_lvars

I == 1..Len(out)
\* a static lamp repeats itself, whatever happened to earlier sets
Repeats == \A i, j \in I : out[i].l = out[j].l /\ out[i].c = out[j].c /\ out[i].l \in Static
                            => out[i].got.draw = out[j].got.draw
Intact == \A i \in I : ~out[i].got.mod
\* different lamps and counts have drawings of their own, plain lamps one for every call
Own == \A i, j \in I : out[i].got.draw = out[j].got.draw
                         => i = j \/ (out[i].l = out[j].l /\ out[i].c = out[j].c /\ out[i].l \in Static)
\* the returned sets are different places
Places == \A i, j \in I : i # j => out[i].r # out[j].r
LView == <<heap, kept, pose, col, out, draws, Len(ops)>>
EmitScript == (ops # << >> /\ ops[Len(ops)].a = "end") => PrintT("SCRIPT " \o ToJson(ops))
==================================================================================
