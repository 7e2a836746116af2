--------------------------------- MODULE RaySets ---------------------------------
(* Ray sets and their fields.                                                         *)
(*                                                                                    *)
(* The machine follows the implementation: a set is an array of 13 rows in a heap,    *)
(* its fields are views of some of its rows, and making a set from others copies.     *)
(* Against it stand the values that a user expects: of every field of every column of *)
(* every set, what was written there last.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, MaxCols, MaxLen, Acts, Views, Overlap
\* Views: a selection shares its memory with the set it was made from; Overlap: two fields
\* share a row.  Both are FALSE for the machine as it has to be.

VARIABLES heap,   \* arrays: sequences of columns, a column is row -> version
          at,     \* set -> place in the heap, 0: does not exist
          want,   \* set -> sequence of columns, a column is field -> version
          ver, ops
rvars == <<heap, at, want, ver, ops>>
Fields == {"rays", "generation", "intensity", "wavelength", "index", "id"}
All == Fields \cup {"metadata"}
Rows(f) == CASE f = "rays" -> 1..8 [] f = "generation" -> {9} [] f = "intensity" -> {IF Overlap THEN 9 ELSE 10}
             [] f = "wavelength" -> {11} [] f = "index" -> {12} [] f = "id" -> {13} [] f = "metadata" -> 9..13
Parts(f) == IF f = "metadata" THEN Fields \ {"rays"} ELSE {f}
Live == {n \in Names : at[n] # 0}
Cols(n) == Len(want[n])
Log(e) == ops' = Append(ops, e)
May(x) == x \in Acts
Room == Len(ops) < MaxLen

RInit == heap = << >> /\ at = [n \in Names |-> 0] /\ want = [n \in Names |-> << >>] /\ ver = 0 /\ ops = << >>

New(n, k) ==
  /\ heap' = Append(heap, [i \in 1..k |-> [r \in 1..13 |-> 0]]) /\ at' = [at EXCEPT ![n] = Len(heap) + 1]
  /\ want' = [want EXCEPT ![n] = [i \in 1..k |-> [f \in Fields |-> 0]]]
  /\ Log([a |-> "new", n |-> n, k |-> k]) /\ UNCHANGED ver
Write(n, f, lo, hi, how) ==
  /\ heap' = [heap EXCEPT ![at[n]] = [i \in 1..Len(@) |-> IF i \in lo..hi
                 THEN [r \in 1..13 |-> IF r \in Rows(f) THEN ver + 1 ELSE @[i][r]] ELSE @[i]]]
  /\ want' = [want EXCEPT ![n] = [i \in 1..Len(@) |-> IF i \in lo..hi
                 THEN [g \in Fields |-> IF g \in Parts(f) THEN ver + 1 ELSE @[i][g]] ELSE @[i]]]
  /\ ver' = ver + 1 /\ Log([a |-> "write", n |-> n, f |-> f, lo |-> lo, hi |-> hi, how |-> how]) /\ UNCHANGED at
\* a set made of chosen columns of another; sel: TRUE for every column taken
Pick(s, sel) == LET k == Cardinality({i \in DOMAIN sel : sel[i]})
                    nth(j) == CHOOSE i \in DOMAIN sel : sel[i] /\ Cardinality({x \in 1..i : sel[x]}) = j
                IN [j \in 1..k |-> s[nth(j)]]
Mask(n, m, sel) ==
  /\ IF Views /\ \A i \in DOMAIN sel : sel[i]
     THEN heap' = heap /\ at' = [at EXCEPT ![n] = at[m]]
     ELSE heap' = Append(heap, Pick(heap[at[m]], sel)) /\ at' = [at EXCEPT ![n] = Len(heap) + 1]
  /\ want' = [want EXCEPT ![n] = Pick(want[m], sel)]
  /\ Log([a |-> "mask", n |-> n, m |-> m, sel |-> sel]) /\ UNCHANGED ver
Copy(n, m) ==
  /\ heap' = Append(heap, heap[at[m]]) /\ at' = [at EXCEPT ![n] = Len(heap) + 1]
  /\ want' = [want EXCEPT ![n] = want[m]] /\ Log([a |-> "copy", n |-> n, m |-> m]) /\ UNCHANGED ver
Join(n, a, b) ==
  /\ heap' = Append(heap, heap[at[a]] \o heap[at[b]]) /\ at' = [at EXCEPT ![n] = Len(heap) + 1]
  /\ want' = [want EXCEPT ![n] = want[a] \o want[b]]
  /\ Log([a |-> "join", n |-> n, m |-> <<a, b>>]) /\ UNCHANGED ver

RNext ==
  \/ Room /\ \E n \in Names, k \in 1..MaxCols : (May("again") \/ at[n] = 0) /\ New(n, k)
  \/ Room /\ May("write") /\ \E n \in Live, f \in All : Cols(n) > 0 /\ \E lo \in 1..Cols(n) : \E hi \in lo..Cols(n) :
       \E how \in {"view", "slice"} \cup (IF lo = 1 /\ hi = Cols(n) THEN {"set"} ELSE {})
                   \cup (IF lo = 1 /\ hi = Cols(n) /\ f \in Fields \ {"rays"} THEN {"scalar"} ELSE {}) :
         (May("how") \/ how = "view") /\ Write(n, f, lo, hi, how)
  \/ Room /\ May("make") /\ \E n \in Names, m \in Live : n # m /\ (Copy(n, m) \/ \E sel \in [1..Cols(m) -> BOOLEAN] : Mask(n, m, sel))
  \/ Room /\ May("join") /\ \E n \in Names, a, b \in Live : Cols(a) + Cols(b) <= 2 * MaxCols /\ n \notin {a, b} /\ Join(n, a, b)
  \/ May("end") /\ Len(ops) = MaxLen /\ Log([a |-> "end"]) /\ UNCHANGED <<heap, at, want, ver>>
RSpec == RInit /\ [][RNext]_rvars

\* every field reads what was written last to that field of that set
Reads == \A n \in Live : Len(heap[at[n]]) = Cols(n) /\ \A i \in 1..Cols(n) : \A f \in Fields :
            \A r \in Rows(f) : heap[at[n]][i][r] = want[n][i][f]
Apart == \A n, m \in Live : n # m => at[n] # at[m]
RView == <<heap, at, want, Len(ops)>>
EmitScript == (ops # << >> /\ ops[Len(ops)].a = "end") => PrintT("SCRIPT " \o ToJson(ops))
==================================================================================
