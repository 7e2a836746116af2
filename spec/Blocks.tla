---------------------------------- MODULE Blocks ----------------------------------
(* The building blocks: coordinates, colours, rays, plane shapes, boxes around points *)
(* and roots of polynomials.                                                          *)
EXTENDS Show

\* ------------------------------------------------- coordinates, colours and rays
\* Every object has four numbers; what is not given has its default.
NewValue(kind, args) ==
  LET d == CASE kind = "point"  -> <<Zero, Zero, Zero, One>>
             [] kind = "colour" -> <<Zero, Zero, Zero, One>>
             [] OTHER           -> <<Zero, Zero, Zero, Zero>>
      n == IF kind \in {"point", "vector"} THEN 3 ELSE 4
  IN TLCEval([i \in 1..4 |-> IF i <= Len(args) /\ i <= n THEN args[i] ELSE d[i]])
DefaultRay == << <<Zero, Zero, Zero, One>>, <<One, Zero, Zero, Zero>> >>

\* co: name -> [r |-> ray or "", p |-> part, v |-> own numbers]; ry: ray -> <<origin, direction>>
OwnValue(v) == [r |-> "", p |-> 0, v |-> v]
CoValue(co, ry, n) == IF co[n].r = "" THEN co[n].v ELSE ry[co[n].r][co[n].p]

\* the vector part is scaled to length one, the last entry stays
UnitBad(old, new) ==
  LET l == VNorm(<<old[1], old[2], old[3]>>) IN
  IF ~(\A i \in 1..4 : Fin(new[i])) THEN {"unit-value"}
  ELSE If(new[4] = old[4] /\ \A i \in 1..3 : Near(Mul(new[i], l), old[i], Mul(Dec(1, 12), Max2(One, l))), "unit-value")

\* ------------------------------------------------------------------- plane shapes
\* Closed disks and rectangles around the origin.  A point nearer to the rim than
\* rounding can tell is undecided, unless all numbers are integers.
WholeNum(x) == x[2] = 0 /\ x[3] = 0 /\ x[4] = 0
InDiskBad(r, p, in) ==
  LET m == Sub(Dot(p, p), Sq(r))  exact == WholeNum(r) /\ WholeNum(p[1]) /\ WholeNum(p[2]) IN
  IF ~exact /\ Le(Abs(m), Mul(Dec(1, 12), Max2(One, Sq(r)))) THEN {}
  ELSE If(in = Le(m, Zero), "disk")
InRectBad(a, b, p, in) ==
  LET ma == Sub(Mul(Two, Abs(p[1])), a)  mb == Sub(Mul(Two, Abs(p[2])), b)
      m == Max2(ma, mb)
      exact == WholeNum(a) /\ WholeNum(b) /\ WholeNum(p[1]) /\ WholeNum(p[2])
  IN IF ~exact /\ Le(Abs(m), Mul(Dec(1, 12), Max2(One, Max2(a, b)))) THEN {}
     ELSE If(in = Le(m, Zero), "rectangle")

\* --------------------------------------------------- the box around a set of points
\* pts: points; spans: three pairs; corners: eight points
Least(S) == CHOOSE x \in S : \A y \in S : Le(x, y)
Most(S) == CHOOSE x \in S : \A y \in S : Le(y, x)
BoxBad(pts, spans, corners) ==
  LET lo == TLCEval([i \in 1..3 |-> Least({pts[k][i] : k \in 1..Len(pts)})])
      hi == TLCEval([i \in 1..3 |-> Most({pts[k][i] : k \in 1..Len(pts)})])
  IN If(\A i \in 1..3 : spans[i] = <<lo[i], hi[i]>>, "box-span")
     \cup If({corners[k] : k \in 1..Len(corners)} =
             {<<x, y, z, One>> : x \in {lo[1], hi[1]}, y \in {lo[2], hi[2]}, z \in {lo[3], hi[3]}}
             /\ Len(corners) = 8, "box-corners")

\* ------------------------------------------------------------ roots of a x^2 + b x + c
\* Is x a root?  judged by the distance to the exact roots, relative to their size.
LOCAL Scale(a, b, c) == Max2(Sq(b), Abs(Mul(Int2Fx(4), Mul(a, c))))
Disc(a, b, c) == Sub(Sq(b), Mul(Int2Fx(4), Mul(a, c)))
Hopeless(a, b, c) == Le(Abs(Disc(a, b, c)), Mul(Dec(1, 6), Scale(a, b, c)))
\* the roots in ascending order, if there are any (a # 0)
Root1(a, b, c) == LET s == Sqrt(Disc(a, b, c)) x == Div(Sub(Opp(b), s), Mul(Two, a)) y == Div(Add(Opp(b), s), Mul(Two, a)) IN
                  <<Min2(x, y), Max2(x, y)>>
RootNear(x, y) == Fin(x) /\ RNear(x, y, Dec(1, 7))
PInf(x) == Len(x) = 5 /\ x[5] = 1
NInf(x) == Len(x) = 5 /\ x[5] = 2
\* a double root is only decided if there is no rounding
Double(a, b, c) == WholeNum(a) /\ WholeNum(b) /\ WholeNum(c) /\ a # Zero /\ Disc(a, b, c) = Zero
DoubleRoot(a, b) == Div(Opp(b), Mul(Two, a))
RootsBad(a, b, c, x, y) ==
  If(CASE Double(a, b, c) -> RootNear(x, DoubleRoot(a, b)) /\ RootNear(y, DoubleRoot(a, b))
       [] a = Zero /\ b = Zero -> PInf(y) /\ (IF Le(c, Zero) THEN NInf(x) ELSE PInf(x))
       [] a = Zero -> \E r \in {Div(Opp(c), b)} : RootNear(x, r) /\ RootNear(y, r)
       [] Hopeless(a, b, c) -> TRUE
       [] Lt(Disc(a, b, c), Zero) -> PInf(x) /\ PInf(y)
       [] OTHER -> \E r \in {Root1(a, b, c)} : \/ RootNear(x, r[1]) /\ RootNear(y, r[2])
                                               \/ RootNear(x, r[2]) /\ RootNear(y, r[1]), "roots")
\* a root of zero may count as positive or not
SmallestBad(a, b, c, x) ==
  If(CASE Double(a, b, c) -> (RootNear(x, DoubleRoot(a, b)) /\ Le(Zero, DoubleRoot(a, b)))
                            \/ (PInf(x) /\ Le(DoubleRoot(a, b), Zero))
       [] a = Zero \/ Hopeless(a, b, c) -> TRUE
       [] Lt(Disc(a, b, c), Zero) -> PInf(x)
       [] OTHER -> \E r \in {Root1(a, b, c)} :
            \/ Lt(r[1], Dec(1, 9)) /\ Lt(r[2], Dec(1, 9)) /\ PInf(x)
            \/ \E i \in {1, 2} : /\ Lt(Opp(Dec(1, 9)), r[i]) /\ RootNear(x, r[i])
                                 /\ (i = 1 \/ Lt(r[1], Dec(1, 9))), "smallest-root")

\* ------------------------------------------------------------------- dot products
\* rows of m1 and m2 as sequences of equal length; out: the products of the columns (axis 0)
\* or of the rows (axis 1)
DotOf(u, v) == FoldLeft(LAMBDA s, i : Add(s, Mul(u[i], v[i])), Zero, [i \in 1..Len(u) |-> i])
Column(m, j) == TLCEval([i \in 1..Len(m) |-> m[i][j]])
DotsBad(m1, m2, axis, out) ==
  LET n == IF axis = 0 THEN Len(m1[1]) ELSE Len(m1)
      u(i) == IF axis = 0 THEN Column(m1, i) ELSE m1[i]
      v(i) == IF axis = 0 THEN Column(m2, i) ELSE m2[i]
  IN If(Len(out) = n /\ \A i \in 1..n : Fin(out[i]) /\ RNear(out[i], DotOf(u(i), v(i)), Dec(1, 9)), "dot-product")
===================================================================================
