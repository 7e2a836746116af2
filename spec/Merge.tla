---------------------------------- MODULE Merge ----------------------------------
(* Merging sorted lists of interval end points: what the result has to be.         *)
EXTENDS Integers, Sequences, FiniteSets

LOCAL Must(b, s) == IF b THEN {} ELSE {s}
\* Lists of end points are sequences of integers, Inf for the padding.
Inf == 1000000
LOCAL Ends(s) == {s[i] : i \in 1..Len(s)} \ {Inf, -Inf}
\* membership of a point (not an end point) in the set of intervals of a sorted list
InSet(s, x) == Cardinality({i \in 1..Len(s) : s[i] < x}) % 2 = 1
Comb(op, a, b) == CASE op = "union" -> a \/ b [] op = "intersect" -> a /\ b [] op = "difference" -> a /\ ~b
\* all values are even; the odd numbers between them are sample points
MergeBad(op, a, b, out) ==
  LET P == Ends(a) \cup Ends(b)
      S == {p - 1 : p \in P} \cup {p + 1 : p \in P} \cup {-1, 1}
      twice == {p \in P : Cardinality({i \in 1..Len(a) : a[i] = p}) + Cardinality({i \in 1..Len(b) : b[i] = p}) > 1}
      \* end points at which exactly one list has exactly one end
      clean == P \ twice
      count(p) == Cardinality({i \in 1..Len(out) : out[i] = p})
      in(x) == Comb(op, InSet(a, x), InSet(b, x))
      flips(p) == in(p - 1) # in(p + 1)
      unb(s) == \E i \in 1..Len(s) : s[i] = -Inf
  IN Must(Len(out) = Len(a) + Len(b), "merge-length")
     \cup Must(\A i \in 1..(Len(out) - 1) : out[i] <= out[i + 1], "merge-sorted")
     \cup Must(\A i \in 1..Len(out) : out[i] \in P \cup {Inf, -Inf}, "merge-invented")
     \cup Must(\A x \in S : InSet(out, x) = in(x), "merge-set")
     \cup Must(\A p \in clean : count(p) = IF flips(p) THEN 1 ELSE 0, "merge-end-points")
\* a sheet is a pair of equal end points of one list: kept iff the other list's truth value
\* makes the difference
SheetBad(op, a, b, out) ==
  LET P == Ends(a) \cup Ends(b)
      cnt(s, p) == Cardinality({i \in 1..Len(s) : s[i] = p})
      sheetA == {p \in P : cnt(a, p) = 2 /\ cnt(b, p) = 0}
      sheetB == {p \in P : cnt(b, p) = 2 /\ cnt(a, p) = 0}
      keptA(p) == LET x == InSet(b, p) y == InSet(a, p) IN Comb(op, ~y, x) # Comb(op, y, x)
      keptB(p) == LET x == InSet(a, p) y == InSet(b, p) IN Comb(op, x, ~y) # Comb(op, x, y)
  IN Must(\A p \in sheetA : cnt(out, p) = IF keptA(p) THEN 2 ELSE 0, "merge-sheet")
     \cup Must(\A p \in sheetB : cnt(out, p) = IF keptB(p) THEN 2 ELSE 0, "merge-sheet")
==================================================================================
