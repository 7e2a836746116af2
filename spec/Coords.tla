---------------------------------- MODULE Coords ----------------------------------
(* Points, vectors and rays as objects that are made, read and written.               *)
(*                                                                                    *)
(* The machine follows the implementation: a coordinate object is an array of four     *)
(* numbers in a heap, a ray an array of two of them; origin and direction of a ray    *)
(* are views of its parts.  Against it stand the values a user expects: making a ray  *)
(* or setting a part of it copies; writing through a view writes to the ray.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, Rays, MaxLen, Acts,
          Faults   \* "aliased": a ray keeps the objects it was made from; "shared": rays made
                   \* without arguments share their parts; "detached": a view is a copy

VARIABLES heap,   \* array -> version of its content (of every entry)
          at,     \* name -> array or 0
          ray,    \* ray -> <<array, array>> or << >>
          want,   \* name -> <<kind, ...>>: "own", entries, or "view", ray, part, or << >>
          wray,   \* ray -> <<entries, entries>>
          ver, ops
cvars == <<heap, at, ray, want, wray, ver, ops>>
Kinds == {"point", "vector", "homogeneous", "colour"}
Live == {n \in Names : at[n] # 0}
Made == {r \in Rays : ray[r] # << >>}
Log(e) == ops' = Append(ops, e)
Room == Len(ops) < MaxLen
May(x) == x \in Acts
Four(v) == [i \in 1..4 |-> v]
\* versions 0 and 1: the default origin and direction
CInit == /\ heap = <<Four(0), Four(1)>> /\ at = [n \in Names |-> 0] /\ ray = [r \in Rays |-> << >>]
         /\ want = [n \in Names |-> << >>] /\ wray = [r \in Rays |-> << >>] /\ ver = 1 /\ ops = << >>

New(n, k) ==
  /\ heap' = Append(heap, Four(ver + 1)) /\ at' = [at EXCEPT ![n] = Len(heap) + 1] /\ ver' = ver + 1
  /\ want' = [want EXCEPT ![n] = <<"own", Four(ver + 1)>>]
  /\ Log([a |-> "new", n |-> n, k |-> k]) /\ UNCHANGED <<ray, wray>>
Value(n) == IF want[n][1] = "own" THEN want[n][2] ELSE wray[want[n][2]][want[n][3]]
\* a and b: names, or 0: the default
Shoot(r, a, b) ==
  LET ca == IF a = 0 THEN 1 ELSE at[a]  cb == IF b = 0 THEN 2 ELSE at[b]
      va == IF a = 0 THEN Four(0) ELSE Value(a)  vb == IF b = 0 THEN Four(1) ELSE Value(b)
      keep == ("aliased" \in Faults /\ a # 0 /\ b # 0) \/ ("shared" \in Faults /\ a = 0 /\ b = 0)
  IN /\ heap' = IF keep THEN heap ELSE heap \o <<heap[ca], heap[cb]>>
     /\ ray' = [ray EXCEPT ![r] = IF keep THEN <<ca, cb>> ELSE <<Len(heap) + 1, Len(heap) + 2>>]
     /\ wray' = [wray EXCEPT ![r] = <<va, vb>>]
     /\ Log([a |-> "ray", r |-> r, o |-> a, d |-> b]) /\ UNCHANGED <<at, want, ver>>
View(n, r, p) ==
  /\ IF "detached" \in Faults THEN heap' = Append(heap, heap[ray[r][p]]) /\ at' = [at EXCEPT ![n] = Len(heap) + 1]
     ELSE heap' = heap /\ at' = [at EXCEPT ![n] = ray[r][p]]
  /\ want' = [want EXCEPT ![n] = <<"view", r, p>>]
  /\ Log([a |-> "view", n |-> n, r |-> r, p |-> p]) /\ UNCHANGED <<ray, wray, ver>>
Put(n, i) ==
  /\ heap' = [heap EXCEPT ![at[n]][i] = ver + 1] /\ ver' = ver + 1
  /\ IF want[n][1] = "own" THEN want' = [want EXCEPT ![n][2][i] = ver + 1] /\ wray' = wray
     ELSE want' = want /\ wray' = [wray EXCEPT ![want[n][2]][want[n][3]][i] = ver + 1]
  /\ Log([a |-> "put", n |-> n, i |-> i]) /\ UNCHANGED <<at, ray>>
Aim(r, p, n) ==
  /\ heap' = [heap EXCEPT ![ray[r][p]] = heap[at[n]]] /\ wray' = [wray EXCEPT ![r][p] = Value(n)]
  /\ Log([a |-> "aim", r |-> r, p |-> p, n |-> n]) /\ UNCHANGED <<at, ray, want, ver>>
Unit(n) == Log([a |-> "unit", n |-> n]) /\ UNCHANGED <<heap, at, ray, want, wray, ver>>

\* a ray is made once: views of it stay valid
CNext ==
  \/ Room /\ \E n \in Names, k \in Kinds : (May("kinds") \/ k = "point") /\ New(n, k)
  \/ Room /\ \E r \in Rays : ray[r] = << >> /\ \E a, b \in Live \cup {0} : Shoot(r, a, b)
  \/ Room /\ \E n \in Names, r \in Made, p \in {1, 2} : View(n, r, p)
  \/ Room /\ \E n \in Live, i \in 1..4 : (May("kinds") \/ i < 3) /\ Put(n, i)
  \/ Room /\ \E r \in Made, p \in {1, 2}, n \in Live : Aim(r, p, n)
  \/ May("unit") /\ Room /\ \E n \in Live : Unit(n)
  \/ May("end") /\ Len(ops) = MaxLen /\ Log([a |-> "end"]) /\ UNCHANGED <<heap, at, ray, want, wray, ver>>
CSpec == CInit /\ [][CNext]_cvars

Holds == /\ \A n \in Live : heap[at[n]] = Value(n)
         /\ \A r \in Made : heap[ray[r][1]] = wray[r][1] /\ heap[ray[r][2]] = wray[r][2]
CView == <<heap, at, ray, want, wray, Len(ops)>>
Emit == (ops # << >> /\ ops[Len(ops)].a = "end") => PrintT("SCRIPT " \o ToJson(ops))
===================================================================================
