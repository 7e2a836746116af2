----------------------------------- MODULE Show -----------------------------------
(* What is shown of a trace: one arrow for every segment, and its colour.            *)
EXTENDS Utils, Tracing

Flat(view, v) == IF view = "xy" THEN <<v[1], v[2]>> ELSE <<v[1], v[3]>>
ArrowTol == Dec(1, 8)
\* arrows: <<x, y, u, v>>, cols: their colours; rows: the segments of the last complete trace
ShowBad(view, mode, rows, ems, arrows, cols) ==
  LET N == Len(arrows)
      at == TLCEval([i \in 1..Len(rows) |-> Flat(view, RFrom(rows[i])) \o Flat(view, RTo(rows[i]))])
      fits(i, j) == LET a == arrows[i] r == at[j] tol == Mul(ArrowTol, Add(One, VMax(r))) IN
         /\ Near(a[1], r[1], tol) /\ Near(a[2], r[2], tol)
         /\ Near(Add(a[1], a[3]), r[3], tol) /\ Near(Add(a[2], a[4]), r[4], tol)
      coloured(i, j) == mode # "wavelength" \/
         \E x \in {Ramp(RWl(rows[j]))} : \A c \in 1..3 : IsPow(cols[i][c], x[c], 4, 5, Dec(1, 6))
      inorder == \A i \in 1..N : fits(i, i) /\ coloured(i, i)
      own == Owners(ems)
      src(i) == SourceOf(own, RId(rows[i]))
      same(i, k) == \A c \in 1..3 : Near(cols[i][c], cols[k][c], Dec(1, 6))
      \* the first row of each source stands for it
      firsts == TLCEval({i \in 1..N : \A k \in 1..(i - 1) : src(k) # src(i)})
      bySource == /\ \A i \in 1..N : \A k \in firsts : (src(i) = src(k)) = same(i, k)
  IN IF \E i \in 1..N : ~AllFin(arrows[i]) \/ ~AllFin(cols[i]) THEN {"show-arrows"}
     ELSE IF N # Len(rows) THEN {"show-arrows"}
     ELSE IF inorder
          THEN If(mode # "" \/ \A i \in 1..N : same(i, 1), "show-colour")
               \cup If(mode # "source" \/ bySource, "show-colour")
     ELSE IF \A i \in 1..N : fits(i, i) THEN {"show-colour"}
     \* the order of the arrows does not matter
     ELSE IF (\A i \in 1..N : \E j \in 1..N : fits(i, j)) /\ (\A j \in 1..N : \E i \in 1..N : fits(i, j))
          THEN If(\A i \in 1..N : \E j \in 1..N : fits(i, j) /\ coloured(i, j), "show-colour")
     ELSE {"show-arrows"}
===================================================================================
