---------------------------------- MODULE Utils ----------------------------------
(* Utility formulas and ray sets.                                                  *)
EXTENDS Render, Merge

\* ------------------------------------------------------------ wavelength to colour
\* linear ramps (before raising to gamma) for a wavelength in um
Ramp(wl) ==
  LET at(n) == Dec(n, 3)
      up(a, b) == Div(Sub(wl, at(a)), Sub(at(b), at(a)))
      x == Min2(Max2(wl, at(380)), at(750))
      fade(a, b) == Add(Dec(3, 1), Mul(Dec(7, 1), Div(Sub(x, at(a)), Sub(at(b), at(a)))))
  IN CASE Lt(wl, at(440)) -> << Mul(Div(Sub(at(440), x), Dec(60, 3)), fade(380, 440)), Zero, fade(380, 440) >>
       [] Le(at(440), wl) /\ Lt(wl, at(490)) -> << Zero, up(440, 490), One >>
       [] Le(at(490), wl) /\ Lt(wl, at(510)) -> << Zero, One, Sub(One, up(490, 510)) >>
       [] Le(at(510), wl) /\ Lt(wl, at(580)) -> << up(510, 580), One, Zero >>
       [] Le(at(580), wl) /\ Lt(wl, at(645)) -> << One, Sub(One, up(580, 645)), Zero >>
       [] OTHER -> << fade(750, 645), Zero, Zero >>
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN One ELSE Mul(x, Pow(x, n - 1))
\* y = x^(p/q) up to eps
IsPow(y, x, p, q, eps) ==
  /\ Le(Pow(Max2(Zero, Sub(y, eps)), q), Add(Pow(x, p), Dec(1, 15)))
  /\ Le(Pow(x, p), Add(Pow(Add(y, eps), q), Dec(1, 15)))
RgbBad(wls, out, p, q) ==
  IF Len(out) # Len(wls) \/ \E i \in 1..Len(out) : Len(out[i]) # 3 \/ ~AllFin(out[i]) THEN {"rgb-shape"}
  ELSE If(\A i \in 1..Len(out) : \A c \in 1..3 : Le(Zero, out[i][c]) /\ Le(out[i][c], One), "rgb-range")
       \cup If(\A i \in 1..Len(out) : \E x \in {Ramp(wls[i])} : \A c \in 1..3 :
                  IsPow(out[i][c], x[c], p, q, Dec(1, 8)), "rgb-ramp")

\* ------------------------------------------------------------ lensmaker's equation
LOCAL Curv(r) == IF Len(r) = 5 THEN Zero ELSE Div(One, r)
Power(r1, r2, n, t) ==
  LET c1 == Curv(r1) c2 == Curv(r2) m == Sub(n, One) IN
  Mul(m, Add(Sub(c1, c2), Div(Mul(Mul(m, t), Mul(c1, c2)), n)))
LensmakerBad(r1, r2, n, t, f) ==
  LET p == Power(r1, r2, n, t) IN
  IF Lt(Abs(p), Dec(1, 12)) THEN {}     \* afocal: no focal length
  ELSE If(Fin(f) /\ RNear(Mul(f, p), One, Dec(1, 9)), "lensmaker")
\* where the paraxial ray leaving in the row r crosses the axis, measured from the second
\* vertex at t/2, compared with the back focal distance
FocusBad(r1, r2, n, t, f, r) ==
  LET d == RTilt(r) o == RFrom(r)
      x == Sub(o[1], Div(Mul(o[2], d[1]), d[2]))
      bfd == Mul(f, Sub(One, Div(Mul(Mul(Sub(n, One), t), Curv(r1)), n)))
  IN IF ~Fin(f) \/ ~RowFin(r) \/ d[2] = Zero THEN {"lensmaker-focus"}
     ELSE If(Near(Sub(x, Mul(Half, t)), bfd, Mul(Dec(1, 3), Add(One, Abs(f)))), "lensmaker-focus")

\* ------------------------------------------------------------ ray sets
\* A ray set is a sequence of columns <<rays (8 numbers), generation, intensity, wavelength,
\* index, id>> flattened to 13 exact numbers each.
Fields == [rays |-> 1..8, generation |-> {9}, intensity |-> {10}, wavelength |-> {11}, index |-> {12},
           id |-> {13}, metadata |-> 9..13]
FreshSet(n) == TLCEval([i \in 1..n |-> << Zero, Zero, Zero, One, Zero, Zero, Zero, Zero,
                                          Zero, Int2Fx(100), Dec(633, 3), One, Int2Fx(i - 1) >>])
FieldOffset(f) == IF f = "rays" THEN 1 ELSE IF f = "metadata" THEN 9 ELSE CHOOSE x \in Fields[f] : TRUE
\* write the field f of the columns in the sequence cols; vals[k] belongs to cols[k] and holds
\* the numbers of the field
WriteField(s, f, cols, vals) ==
  TLCEval([i \in 1..Len(s) |->
    IF \E k \in 1..Len(cols) : cols[k] = i
    THEN LET k == CHOOSE k \in 1..Len(cols) : cols[k] = i /\ \A m \in 1..Len(cols) : cols[m] = i => m <= k IN
         TLCEval([x \in 1..13 |-> IF x \in Fields[f] THEN vals[k][x - FieldOffset(f) + 1] ELSE s[i][x]])
    ELSE s[i]])
==================================================================================
