---------------------------------- MODULE Parts ----------------------------------
(* The parts that the factories build: which solid they document, in the frame in *)
(* which they are delivered (optical axis x, aperture in the yz plane).            *)
EXTENDS Tracing

\* An aperture specification is a sequence: <<d>> a circle of diameter d, <<a, b>> with
\* a, b > 0 a rectangle, with a, b < 0 an ellipse, a along y and b along z.
Circular(a) == Len(a) = 1
AbsA(a) == <<Abs(a[1]), Abs(a[Len(a)])>>
\* (y-oy)^2/u^2 + (z-oz)^2/v^2 <= 1, scaled by u^2
LOCAL Oval(u, v, oy, oz) ==
  LET k == Div(Sq(u), Sq(v)) IN
  Form(<<Zero, One, k>>, <<Zero, Mul(Opp(Two), oy), Mul(Opp(Two), Mul(k, oz))>>,
       Sub(Add(Sq(oy), Mul(k, Sq(oz))), Sq(u)))
\* the infinite tube with the given outline around the point (oy, oz)
Tube(a, oy, oz) ==
  LET s == AbsA(a) h == <<Mul(Half, s[1]), Mul(Half, s[2])>> IN
  IF Circular(a) \/ Lt(a[1], Zero) THEN << Oval(h[1], h[2], oy, oz) >>
  ELSE << Slab(2, Sub(oy, h[1]), Add(oy, h[1])), Slab(3, Sub(oz, h[2]), Add(oz, h[2])) >>
LOCAL Infinite(x) == Len(x) = 5

\* A part is described by a base leaf and a sequence of further leaves that are combined
\* with it one after the other: <<op, forms, material>>
\* lens with vertices at -t/2 and t/2; radii signed as for a thick lens
LOCAL LensOf(r1, r2, t, ap, m) ==
  LET h == Mul(Half, t)
      \* a concave side is closed by a plane that lies inside of its sphere
      lo == IF ~Infinite(r1) /\ Lt(r1, Zero) THEN Add(Opp(h), r1) ELSE Opp(h)
      hi == IF ~Infinite(r2) /\ Lt(Zero, r2) THEN Add(h, r2) ELSE h
      b1 == IF Infinite(r1) THEN << >>
            ELSE << <<IF Lt(Zero, r1) THEN "intersect" ELSE "difference", << BallAt(1, Sub(r1, h), r1) >>, m>> >>
      b2 == IF Infinite(r2) THEN << >>
            ELSE << <<IF Lt(r2, Zero) THEN "intersect" ELSE "difference", << BallAt(1, Add(r2, h), r2) >>, m>> >>
  IN [base |-> Leaf(Tube(ap, Zero, Zero) \o << Slab(1, lo, hi) >>, << >>, m), more |-> b1 \o b2]
LOCAL Unsigned(r, s) == IF Infinite(r) THEN r ELSE Mul(s, Abs(r))
LOCAL Plain(forms, m) == [base |-> Leaf(forms, << >>, m), more |-> << >>]
LOCAL Stop(ap) == Leaf(Tube(ap, Zero, Zero), << Form(Vzero, Unit3(1), Zero) >>, "absorber")
\* the largest squared distance from the axis of points in the aperture, or more
LOCAL Reach2(ap, oy, oz) == LET s == AbsA(ap) IN Add(Sq(Add(Abs(oy), s[1])), Sq(Add(Abs(oz), s[2])))

\* e.f: factory, e.p: numbers, e.ap: aperture, e.oy, e.oz: off axis point, e.mat: material
PartDesc(e) ==
  LET Q == Tube(e.ap, e.oy, e.oz) p == e.p m == e.mat IN
  CASE e.f = "thick"    -> LensOf(p[1], p[2], p[3], e.ap, m)
    [] e.f = "biconvex" -> LensOf(Unsigned(p[1], One), Unsigned(p[2], Opp(One)), p[3], e.ap, m)
    [] e.f = "planoconvex" -> LensOf(<<0,0,0,0,1>>, Unsigned(p[1], Opp(One)), p[2], e.ap, m)
    [] e.f = "plane"    -> IF p[1] = Zero THEN [base |-> Leaf(Q, << Form(Vzero, Unit3(1), Zero) >>, m), more |-> << >>]
                           ELSE Plain(Q \o << Slab(1, Opp(p[1]), Zero) >>, m)
    [] e.f = "spherical" ->
         IF Infinite(p[1])
         THEN [base |-> Leaf(Q \o << Slab(1, Opp(p[2]), One) >>, << >>, "absorber"),
               more |-> << <<"difference", << HalfGe(1, Zero) >>, m>> >>]
         ELSE [base |-> Leaf(Q \o << Slab(1, Opp(p[2]), p[1]) >>, << >>, "absorber"),
               more |-> << <<"difference", << BallAt(1, p[1], p[1]) >>, m>> >>]
    [] e.f = "parabolic" ->
         LET f == p[1] IN
         [base |-> Leaf(Q \o << Slab(1, Opp(Add(f, p[2])), Add(Div(Reach2(e.ap, e.oy, e.oz), Mul(Int2Fx(4), f)), One)) >>,
                        << >>, "absorber"),
          more |-> << <<"difference", << Form(<<Zero,One,One>>, <<Mul(Int2Fx(-4), f), Zero, Zero>>,
                                             Mul(Int2Fx(-4), Sq(f))) >>, m>> >>]
    [] e.f = "baffle"   -> [base |-> Stop(e.ap), more |-> << >>]
    [] e.f = "aperture" -> [base |-> Stop(e.ap), more |-> << <<"difference", Tube(e.ap2, Zero, Zero), "black">> >>]
    [] e.f = "prism"    ->
         LET s == p[1] h == Mul(s, Sin(Deg(Int2Fx(60)))) hh == Mul(Half, h) r3 == Sqrt(Int2Fx(3)) IN
         Plain(<< Slab(2, Opp(Mul(Half, p[2])), Mul(Half, p[2])), HalfGe(3, Opp(hh)),
                  Form(Vzero, <<r3, Zero, One>>, Opp(hh)), Form(Vzero, <<Opp(r3), Zero, One>>, Opp(hh)) >>, m)

RECURSIVE AddMore(_, _, _, _, _)
LOCAL AddMore(w, n, more, k, top) ==
  IF k > Len(more) THEN w
  ELSE LET x == n \o "/" \o ToString(k)
           c == IF k = Len(more) THEN n ELSE n \o "+" \o ToString(k)
           w1 == Put(w, x, [Leaf(more[k][2], << >>, more[k][3]) EXCEPT !.own = n])
       IN AddMore(Combine(w1, c, more[k][1], top, x), n, more, k + 1, c)
\* the world with the part e.n, whose surfaces have the identities sids
AddPart(w, e, sids) ==
  LET d == PartDesc(e)
      b == IF d.more = << >> THEN e.n ELSE e.n \o "/0"
      w1 == AddMore(Put(w, b, [d.base EXCEPT !.own = e.n]), e.n, d.more, 1, b)
  IN Put(w1, e.n, [w1[e.n] EXCEPT !.sids = sids])
\* materials of the surfaces of a part, as logged <<identity, material>>
PartMatsBad(e) ==
  LET M == {e.sids[i][2] : i \in 1..Len(e.sids)} IN
  CASE e.f \in {"thick", "biconvex", "planoconvex", "plane", "prism"} -> If(M = {e.mat}, "part-material")
    [] e.f \in {"spherical", "parabolic"} -> If(M = {e.mat, "absorber"}, "part-material")
    [] OTHER -> If("absorber" \in M, "part-material")
==================================================================================
