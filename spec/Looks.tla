---------------------------------- MODULE Looks ----------------------------------
(* Asking questions about a scene.                                                    *)
(*                                                                                    *)
(* Objects have a state that only changes by commands.  A question has an argument    *)
(* that belongs to the caller and concerns one object; its answer belongs to the      *)
(* caller, too, who may overwrite it.  The machine follows the implementation:        *)
(* objects keep what they computed (a cache), arguments and answers are arrays in a   *)
(* heap.  Whatever was asked, and whatever became of the answers, the next answer     *)
(* depends on the commands only.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Objects, Questions, MaxLen, Acts,
          Faults   \* "handout": the cache itself is handed out; "touches": a question changes its
                   \* object; "scratch": a question uses its argument as scratch memory

VARIABLES ver,      \* object -> number of commands
          state,    \* object -> state, as the machine has it
          arg,      \* question -> whether its argument is as the caller made it
          heap,     \* arrays: <<question, state of the object, argument>> or << >> (overwritten)
          cache,    \* question -> place in the heap, 0: nothing
          out,      \* answers the caller has: places in the heap
          last,     \* the last answer: <<question, content at the time>>
          ops
lvars == <<ver, state, arg, heap, cache, out, last, ops>>
Of(q) == ((q - 1) % Cardinality(Objects)) + 1
Log(e) == ops' = Append(ops, e)
Room == Len(ops) < MaxLen
May(x) == x \in Acts

LInit == /\ ver = [o \in Objects |-> 0] /\ state = [o \in Objects |-> 0]
         /\ arg = [q \in Questions |-> TRUE] /\ heap = << >> /\ cache = [q \in Questions |-> 0]
         /\ out = {} /\ last = << >> /\ ops = << >>
\* a command: what was computed is no longer valid
Change(o) ==
  /\ ver' = [ver EXCEPT ![o] = @ + 1] /\ state' = [state EXCEPT ![o] = @ + 1]
  /\ cache' = [q \in Questions |-> IF Of(q) = o THEN 0 ELSE cache[q]]
  /\ last' = << >> /\ Log([a |-> "change", o |-> o]) /\ UNCHANGED <<arg, heap, out>>
Ask(q) ==
  LET o == Of(q)
      new == <<q, state[o], arg[q]>>
      kept == cache[q] # 0
      val == IF kept THEN heap[cache[q]] ELSE new
      \* the cache, and what the caller gets
      h == IF kept THEN heap ELSE Append(heap, new)
      c == IF kept THEN cache[q] ELSE Len(h)
  IN /\ heap' = IF "handout" \in Faults THEN h ELSE Append(h, val)
     /\ cache' = [cache EXCEPT ![q] = c]
     /\ out' = out \cup {IF "handout" \in Faults THEN c ELSE Len(h) + 1}
     /\ last' = <<q, val>>
     /\ arg' = IF "scratch" \in Faults THEN [arg EXCEPT ![q] = FALSE] ELSE arg
     /\ state' = IF "touches" \in Faults THEN [state EXCEPT ![o] = @ + 100] ELSE state
     /\ Log([a |-> "ask", q |-> q]) /\ UNCHANGED ver
\* the caller overwrites an answer
Spoil(i) == /\ heap' = [heap EXCEPT ![i] = << >>] /\ last' = << >> /\ Log([a |-> "spoil"])
            /\ UNCHANGED <<ver, state, arg, cache, out>>
LNext ==
  \/ May("change") /\ Room /\ \E o \in Objects : Change(o)
  \/ Room /\ \E q \in Questions : Ask(q)
  \/ May("spoil") /\ Room /\ \E i \in out : heap[i] # << >> /\ Spoil(i)
  \/ May("end") /\ Len(ops) = MaxLen /\ Log([a |-> "end"]) /\ UNCHANGED <<ver, state, arg, heap, cache, out, last>>
LSpec == LInit /\ [][LNext]_lvars

Answers == last = << >> \/ last[2] = <<last[1], ver[Of(last[1])], TRUE>>
Mine == \A q \in Questions : cache[q] = 0 \/ cache[q] \notin out
Args == \A q \in Questions : arg[q]
Untouched == state = ver
LView == <<ver, state, arg, heap, cache, out, last, Len(ops)>>
Emit == (ops # << >> /\ ops[Len(ops)].a = "end") => PrintT("SCRIPT " \o ToJson(ops))
==================================================================================
