---------------------------------- MODULE Scene ----------------------------------
(* The life of a scene, abstractly: objects are created, combined, grouped, moved,  *)
(* inverted and pinned.  A pose is the sequence of transformations that made it (a  *)
(* word), so that nothing is said about numbers and nothing commutes.               *)
(*                                                                                  *)
(* The actions follow the implementation: a transformation is applied to an object, *)
(* which notifies the composites built from it (they recompute their bounding       *)
(* volumes, and notify theirs), and is then passed on to its parts, one after the   *)
(* other.  The invariants say what the user relies on: the pose of an object is     *)
(* given by the history of calls on it and on what contained it at the time, and    *)
(* every bounding volume belongs to the current poses of the leaves below it.       *)
(* Its behaviours are also used as scripts for the real code.                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS MaxObjs,     \* number of objects
          MaxLen,      \* number of calls
          Gens,        \* transformations
          Kinds,       \* kinds of plain objects: "leaf", "other"
          MaxPins,     \* nesting of pin contexts
          PinLen,      \* objects in a pin context
          Acts,        \* kinds of calls
          Depth,       \* nesting of containers
          RootResets,  \* normals are reset on whole objects only
          Sharing      \* an object may be in several containers

VARIABLES obj,      \* sequence of [kind, op, parts]
          pose,     \* sequence of words
          flip,     \* leaf: normal turned against the outward side of the leaf
          inv,      \* leaf: parity of the inversions asked for since the last reset
          box,      \* what the bounding volume was computed from
          pins,     \* open pin contexts: sequences of <<object, pose>>
          ops       \* the calls made
svars == <<obj, pose, flip, inv, box, pins, ops>>

SObjs == 1..Len(obj)
IsSolid(n) == obj[n].kind \in {"leaf", "csg"}
\* words: left multiplication by a generator or its inverse (a negative number)
LMul(g, w) == IF w # << >> /\ w[1] = -g THEN Tail(w) ELSE <<g>> \o w
RECURSIVE LMulW(_, _)
LMulW(v, w) == IF v = << >> THEN w ELSE LMulW(Front(v), LMul(v[Len(v)], w))
WInv(w) == [i \in 1..Len(w) |-> -w[Len(w) + 1 - i]]
RECURSIVE RUnder(_)
\* what a call on n reaches, in order
RUnder(n) == <<n>> \o FlattenSeq([i \in 1..Len(obj[n].parts) |-> RUnder(obj[n].parts[i])])
SUnder(n) == ToSet(RUnder(n))
SLeaves(n) == {x \in SUnder(n) : obj[x].kind = "leaf"}
Composites(n) == {c \in SObjs : obj[c].kind = "csg" /\ \E i \in 1..2 : obj[c].parts[i] = n}
Containers(n) == {c \in SObjs : \E i \in 1..Len(obj[c].parts) : obj[c].parts[i] = n}

\* ------------------------------------------------------------- the mechanism
\* r = [p |-> poses, b |-> boxes]
BoxOf(r, n) == IF obj[n].kind = "leaf" THEN <<n, r.p[n]>>
               ELSE IF obj[n].kind = "csg"
               THEN (IF obj[n].op = "difference" THEN <<r.b[obj[n].parts[1]]>>
                     ELSE <<obj[n].op, r.b[obj[n].parts[1]], r.b[obj[n].parts[2]]>>)
               ELSE << >>
RECURSIVE Notify(_, _)
RECURSIVE NotifyAll(_, _)
Notify(r, n) == NotifyAll([r EXCEPT !.b[n] = BoxOf(r, n)], SetToSeq(Composites(n)))
NotifyAll(r, s) == IF s = << >> THEN r ELSE NotifyAll(Notify(r, Head(s)), Tail(s))
RECURSIVE Moved(_, _, _)
RECURSIVE MoveParts(_, _, _)
Moved(r, n, v) == MoveParts(Notify([r EXCEPT !.p[n] = LMulW(v, @)], n), obj[n].parts, v)
MoveParts(r, s, v) == IF s = << >> THEN r ELSE MoveParts(Moved(r, Head(s), v), Tail(s), v)

\* ------------------------------------------------------------------- actions
Log(e) == ops' = Append(ops, e)
Room == Len(ops) < MaxLen
Free(n) == Sharing \/ Containers(n) = {}
Create(k) ==
  /\ Room /\ Len(obj) < MaxObjs
  /\ obj' = Append(obj, [kind |-> k, op |-> "", parts |-> << >>])
  /\ pose' = Append(pose, << >>) /\ flip' = Append(flip, FALSE) /\ inv' = Append(inv, FALSE)
  /\ box' = Append(box, IF k = "leaf" THEN <<Len(obj) + 1, << >>>> ELSE << >>)
  /\ Log([a |-> "new", kind |-> k]) /\ UNCHANGED pins
\* nothing is contained twice in a container
Apart(s) == \A i, j \in 1..Len(s) : i # j => SUnder(s[i]) \cap SUnder(s[j]) = {}
Join(o, l, r) ==
  /\ Room /\ Len(obj) < MaxObjs /\ l # r /\ Free(l) /\ Free(r) /\ IsSolid(l) /\ IsSolid(r) /\ Apart(<<l, r>>)
  /\ LET n == Len(obj) + 1 IN
     /\ obj' = Append(obj, [kind |-> "csg", op |-> o, parts |-> <<l, r>>])
     /\ pose' = Append(pose, << >>) /\ inv' = Append(inv, FALSE)
     /\ flip' = [x \in 1..n |-> IF x = n THEN FALSE
                 ELSE IF o = "difference" /\ x \in SLeaves(r) THEN ~flip[x] ELSE flip[x]]
     /\ box' = Append(box, IF o = "difference" THEN <<box[l]>> ELSE <<o, box[l], box[r]>>)
  /\ Log([a |-> "csg", op |-> o, l |-> l, r |-> r]) /\ UNCHANGED pins
Collect(s) ==
  /\ Room /\ Len(obj) < MaxObjs /\ Apart(s) /\ (\A i \in 1..Len(s) : Free(s[i]))
  /\ obj' = Append(obj, [kind |-> "group", op |-> "", parts |-> s])
  /\ pose' = Append(pose, << >>) /\ flip' = Append(flip, FALSE) /\ inv' = Append(inv, FALSE)
  /\ box' = Append(box, << >>)
  /\ Log([a |-> "group", items |-> s]) /\ UNCHANGED pins
AddTo(n, m) ==
  /\ Room /\ obj[n].kind = "group" /\ pins = << >> /\ Free(m)
  /\ \A c \in SObjs : n \in SUnder(c) => SUnder(c) \cap SUnder(m) = {}
  /\ n \notin SUnder(m)
  /\ obj' = [obj EXCEPT ![n].parts = Append(@, m)]
  /\ Log([a |-> "append", n |-> n, m |-> m]) /\ UNCHANGED <<pose, flip, inv, box, pins>>
Drop(n, m) ==
  /\ Room /\ obj[n].kind = "group" /\ m \in ToSet(obj[n].parts) /\ pins = << >>
  /\ obj' = [obj EXCEPT ![n].parts = SelectSeq(@, LAMBDA x : x # m)]
  /\ Log([a |-> "remove", n |-> n, m |-> m]) /\ UNCHANGED <<pose, flip, inv, box, pins>>
Tf(n, g) ==
  /\ Room
  /\ LET r == Moved([p |-> pose, b |-> box], n, <<g>>) IN pose' = r.p /\ box' = r.b
  /\ Log([a |-> "tf", n |-> n, g |-> g]) /\ UNCHANGED <<obj, flip, inv, pins>>
\* a call that is rejected changes nothing
Reject(n) == /\ Room /\ Log([a |-> "bad", n |-> n]) /\ UNCHANGED <<obj, pose, flip, inv, box, pins>>
Flip(n) ==
  /\ Room /\ IsSolid(n)
  /\ flip' = [x \in SObjs |-> IF x \in SLeaves(n) THEN ~flip[x] ELSE flip[x]]
  /\ inv' = [x \in SObjs |-> IF x \in SLeaves(n) THEN ~inv[x] ELSE inv[x]]
  /\ Log([a |-> "inv", n |-> n]) /\ UNCHANGED <<obj, pose, box, pins>>
\* the implementation resets both parts and inverts the subtracted one
RECURSIVE ResetFlips(_, _)
ResetFlips(f, n) ==
  IF obj[n].kind = "leaf" THEN [f EXCEPT ![n] = FALSE]
  ELSE LET f1 == ResetFlips(ResetFlips(f, obj[n].parts[1]), obj[n].parts[2]) IN
       IF obj[n].op # "difference" THEN f1
       ELSE [x \in SObjs |-> IF x \in SLeaves(obj[n].parts[2]) THEN ~f1[x] ELSE f1[x]]
Unflip(n) ==
  /\ Room /\ IsSolid(n) /\ (RootResets => Composites(n) = {})
  /\ flip' = ResetFlips(flip, n)
  /\ inv' = [x \in SObjs |-> IF x \in SLeaves(n) THEN FALSE ELSE inv[x]]
  /\ Log([a |-> "rst", n |-> n]) /\ UNCHANGED <<obj, pose, box, pins>>
\* what two pinned containers share is pinned, too, or below something pinned that they share:
\* otherwise there is no telling which of the containers it has to follow home
Settled(s) ==
  \A i, j \in 1..Len(s) : s[i] \notin SUnder(s[j]) /\ s[j] \notin SUnder(s[i]) =>
    LET both == SUnder(s[i]) \cap SUnder(s[j]) IN
    \A x \in both : \E k \in 1..Len(s) : s[k] \in both /\ x \in SUnder(s[k])
Pin(s) ==
  /\ Room /\ Len(pins) < MaxPins /\ (Sharing => Settled(s))
  /\ pins' = Append(pins, [i \in 1..Len(s) |-> <<s[i], pose[s[i]]>>])
  /\ Log([a |-> "pin", ns |-> s]) /\ UNCHANGED <<obj, pose, flip, inv, box>>
\* leaving a pin context: every pinned object is moved back by what it is off, in order; this is
\* repeated as restoring a container moves its members
RECURSIVE Back(_, _, _)
Back(r, s, i) ==
  IF i > Len(s) * Len(s) THEN r
  ELSE LET k == ((i - 1) % Len(s)) + 1 n == s[k][1] IN
       Back(Moved(r, n, LMulW(s[k][2], WInv(r.p[n]))), s, i + 1)
Unpin(exc) ==
  /\ pins # << >> /\ Len(ops) <= MaxLen + MaxPins
  /\ LET r == Back([p |-> pose, b |-> box], pins[Len(pins)], 1) IN pose' = r.p /\ box' = r.b
  /\ pins' = Front(pins)
  /\ Log([a |-> "unpin", exc |-> exc]) /\ UNCHANGED <<obj, flip, inv>>

RECURSIVE Height(_)
Height(n) == IF obj[n].parts = << >> THEN 0
             ELSE 1 + (CHOOSE h \in 0..MaxObjs : h = LET H == {Height(obj[n].parts[i]) : i \in 1..Len(obj[n].parts)} IN
                        CHOOSE x \in H : \A y \in H : y <= x)
Distinct(S, k) == {s \in [1..k -> S] : \A i, j \in 1..k : i # j => s[i] # s[j]}
Seqs1(S, k) == UNION {Distinct(S, i) : i \in 1..k}
May(x) == x \in Acts
SInit == obj = << >> /\ pose = << >> /\ flip = << >> /\ inv = << >> /\ box = << >> /\ pins = << >> /\ ops = << >>
ANew == May("new") /\ \E k \in Kinds : Create(k)
ACsg == May("csg") /\ \E o \in {"union", "intersect", "difference"} : \E l, r \in SObjs :
           Height(l) < Depth /\ Height(r) < Depth /\ Join(o, l, r)
AGroup == May("group") /\ \E s \in Seqs1(SObjs, 2) : (\A i \in 1..Len(s) : Height(s[i]) < Depth) /\ Collect(s)
AMember == May("member") /\ \E n, m \in SObjs : AddTo(n, m) \/ Drop(n, m)
ATf == May("tf") /\ \E n \in SObjs : \E g \in Gens : Tf(n, g)
AInv == May("inv") /\ \E n \in SObjs : Flip(n)
ARst == May("inv") /\ \E n \in SObjs : Unflip(n)
ABad == May("bad") /\ \E n \in SObjs : Reject(n)
APin == May("pin") /\ \E s \in Seqs1(SObjs, PinLen) : Pin(s)
AUnpin == May("pin") /\ \E x \in BOOLEAN : Unpin(x)
\* the end of a random script
AEnd == /\ May("end") /\ Len(ops) >= MaxLen /\ pins = << >> /\ ops[Len(ops)].a # "end"
        /\ Log([a |-> "end"]) /\ UNCHANGED <<obj, pose, flip, inv, box, pins>>
SNext == AEnd \/ ANew \/ ACsg \/ AGroup \/ AMember \/ ATf \/ AInv \/ ARst \/ ABad \/ APin \/ AUnpin
SSpec == SInit /\ [][SNext]_svars

\* ---------------------------------------------------------------- properties
\* bounding volumes belong to the current poses of the leaves
RECURSIVE TrueBox(_)
TrueBox(n) == IF obj[n].kind = "leaf" THEN <<n, pose[n]>>
              ELSE IF obj[n].kind = "csg"
              THEN (IF obj[n].op = "difference" THEN <<TrueBox(obj[n].parts[1])>>
                    ELSE <<obj[n].op, TrueBox(obj[n].parts[1]), TrueBox(obj[n].parts[2])>>)
              ELSE << >>
BoxesFresh == \A n \in SObjs : box[n] = TrueBox(n)

\* a transformation reaches what it should exactly once
Once == [][\A n \in SObjs : \A g \in Gens : Tf(n, g) =>
             \A x \in SObjs : pose'[x] = IF x \in SUnder(n) THEN LMul(g, pose[x]) ELSE pose[x]]_svars
\* pinned objects are back; what is below a pinned container and was not moved on its own, too
Restored == [][(\E x \in BOOLEAN : Unpin(x)) =>
                 \A i \in 1..Len(pins[Len(pins)]) : pose'[pins[Len(pins)][i][1]] = pins[Len(pins)][i][2]]_svars
\* relative pose of member and container is kept by everything that happens to the container
\* normals point out of the whole object
RECURSIVE OddSub(_, _)
\* is leaf x on an odd number of subtracted branches below n
OddSub(n, x) ==
  IF obj[n].kind = "leaf" THEN FALSE
  ELSE LET l == obj[n].parts[1] r == obj[n].parts[2] IN
       IF x \in SUnder(l) THEN OddSub(l, x)
       ELSE IF obj[n].op = "difference" THEN ~OddSub(r, x) ELSE OddSub(r, x)
Tops(x) == {c \in SObjs : IsSolid(c) /\ x \in SUnder(c) /\ Composites(c) = {}}
Shared(x) == Cardinality(Tops(x)) # 1 \/ \E c \in SObjs : x \in SUnder(c) /\ Cardinality(Composites(c)) > 1
NormalsOutward ==
  \A x \in SObjs : obj[x].kind = "leaf" /\ ~Shared(x) =>
     LET t == CHOOSE c \in Tops(x) : TRUE IN flip[x] = (OddSub(t, x) # inv[x])

SView == <<obj, pose, flip, inv, box, pins, Len(ops)>>   \* how a state was reached does not matter

\* for random scripts
Emit == (ops # << >> /\ ops[Len(ops)].a = "end") => PrintT("SCRIPT " \o ToJson(ops))
=================================================================================
