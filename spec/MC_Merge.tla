------------------------------- MODULE MC_Merge -------------------------------
(* The merging of sorted lists of interval end points, as an algorithm: sort the *)
(* concatenated lists stably, count how many solids a ray is in after each end   *)
(* point, and keep the end points at which membership in the result changes.     *)
(* Checked exhaustively against the set semantics (MergeBad, SheetBad) for all   *)
(* lists over a small set of values.                                             *)
EXTENDS Merge, SequencesExt

CONSTANTS Vals, Lens

Sorted(n, S) ==        \* sorted sequences of length n; at most one end at -infinity
  {s \in [1..n -> S] : (\A i \in 1..(n-1) : s[i] <= s[i+1]) /\ (n = 1 \/ s[2] # -Inf)}
Lists == UNION {Sorted(n, Vals \cup {Inf, -Inf}) : n \in Lens}

VARIABLES op, a, b, pc, arr, cum, out
mvars == <<op, a, b, pc, arr, cum, out>>

MInit == /\ op \in {"union", "intersect", "difference"} /\ a \in Lists /\ b \in Lists
         /\ pc = "sort" /\ arr = << >> /\ cum = << >> /\ out = << >>

N == Len(a) + Len(b)
Val(i) == IF i <= Len(a) THEN a[i] ELSE b[i - Len(a)]
\* a stable sort of the concatenation, as a sequence of positions in it
Sort == /\ pc = "sort"
        /\ arr' = SortSeq([i \in 1..N |-> i], LAMBDA x, y : Val(x) < Val(y) \/ (Val(x) = Val(y) /\ x < y))
        /\ pc' = "count" /\ UNCHANGED <<op, a, b, cum, out>>
\* +1 at the start of an interval, -1 at its end; the subtracted solid counts the other way round
Step1(i) == LET even == i % 2 = 0 sub == op = "difference" /\ i > Len(a) IN IF even = sub THEN 1 ELSE -1
Count == /\ pc = "count"
         /\ cum' = LET F[i \in 0..N] == IF i = 0 THEN (IF op = "difference" THEN 1 ELSE 0)
                                        ELSE F[i-1] + Step1(arr[i]) IN [i \in 1..N |-> F[i]]
         /\ pc' = "keep" /\ UNCHANGED <<op, a, b, arr, out>>
Before(i) == IF i = 1 THEN cum[N] ELSE cum[i-1]
In(c) == IF op = "union" THEN c # 0 ELSE c = 2
Keep == /\ pc = "keep"
        /\ out' = SortSeq([i \in 1..N |-> IF In(cum[i]) # In(Before(i)) \/ (op # "union" /\ In(cum[i]))
                                          THEN Val(arr[i]) ELSE Inf], LAMBDA x, y : x < y)
        /\ pc' = "done" /\ UNCHANGED <<op, a, b, arr, cum>>
MNext == Sort \/ Count \/ Keep \/ (pc = "done" /\ UNCHANGED mvars)
MSpec == MInit /\ [][MNext]_mvars

\* the empty pairs of a list that is padded come last
Correct == pc = "done" => MergeBad(op, a, b, out) \cup SheetBad(op, a, b, out) = {}
\* the operations are related to each other as for sets; the counts stay in range
CountRange == pc \in {"keep", "done"} => \A i \in 1..N : cum[i] \in (IF op = "difference" THEN 0..2 ELSE 0..2)
Parity == pc = "done" => Cardinality({i \in 1..N : out[i] # Inf}) % 2 = 0 \/ (\E i \in 1..Len(a) : a[i] = -Inf) \/ (\E i \in 1..Len(b) : b[i] = -Inf)
                         \/ (\E i \in 1..Len(a) : i % 2 = 1 /\ i < Len(a) /\ a[i] # Inf /\ a[i+1] = Inf)
                         \/ (\E i \in 1..Len(b) : i % 2 = 1 /\ i < Len(b) /\ b[i] # Inf /\ b[i+1] = Inf)
================================================================================
