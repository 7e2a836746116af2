---------------------------------- MODULE Geom ---------------------------------
(* Solids as point sets.                                                        *)
(*                                                                              *)
(* A form is a quadratic function f(p) = sum q_i p_i^2 + sum l_i p_i + c with   *)
(* record [q, l, c]; a leaf solid is the set of points at which all its forms   *)
(* are <= 0, in its own coordinate frame.  A sheet is a part of the zero set of *)
(* one form (plane), bounded by other forms.                                    *)
EXTENDS Lin, SequencesExt

Form(q, l, c) == [q |-> q, l |-> l, c |-> c]
Unit3(i) == CASE i = 1 -> <<One,Zero,Zero>> [] i = 2 -> <<Zero,One,Zero>> [] i = 3 -> <<Zero,Zero,One>>
\* lo <= p_i <= hi
Slab(i, lo, hi) == LET m == Add(lo, hi) IN
   Form(Unit3(i), VScale(Opp(m), Unit3(i)), Mul(lo, hi))
\* s * p_i <= b   (s = 1 or -1)
HalfLe(i, b) == Form(Vzero, Unit3(i), Opp(b))
HalfGe(i, b) == Form(Vzero, VOpp(Unit3(i)), b)
\* sphere with centre c0 on the i-axis
BallAt(i, c0, r) == Form(<<One,One,One>>, VScale(Mul(Opp(Two), c0), Unit3(i)), Sub(Sq(c0), Sq(r)))

FEval(f, p) == Add(Add(Dot(f.q, <<Sq(p[1]),Sq(p[2]),Sq(p[3])>>), Dot(f.l, p)), f.c)
LOCAL Gr(f, p, i) == Add(Mul(Two, Mul(f.q[i], p[i])), f.l[i])
FGrad(f, p) == <<Gr(f,p,1), Gr(f,p,2), Gr(f,p,3)>>

\* The forms of the primitives, as their equations are documented.
PrimForms(kind, p) ==
  CASE kind = "sphere"     -> << BallAt(1, Zero, p[1]) >>
    [] kind = "cylinder"   -> << Form(<<One,One,Zero>>, Vzero, Opp(Sq(p[1]))), Slab(3, p[2], p[3]) >>
    [] kind = "paraboloid" -> << Form(<<One,One,Zero>>, <<Zero,Zero,Mul(Int2Fx(-4),p[1])>>, Zero),
                                 HalfLe(3, p[2]) >>
    [] kind = "cuboid"     -> << Slab(1, Min2(p[1],p[4]), Max2(p[1],p[4])),
                                 Slab(2, Min2(p[2],p[5]), Max2(p[2],p[5])),
                                 Slab(3, Min2(p[3],p[6]), Max2(p[3],p[6])) >>
    [] kind = "plane"      -> << Slab(1, Opp(Mul(Half,p[1])), Mul(Half,p[1])),
                                 Slab(2, Opp(Mul(Half,p[2])), Mul(Half,p[2])) >>
    [] OTHER               -> << >>
PrimSheet(kind) == IF kind = "plane" THEN << Form(Vzero, Unit3(3), Zero) >> ELSE << >>

\* ----------------------------------------------------- forms along a ray
\* f(o + t d) = A t^2 + B t + C
Along(f, o, d) ==
  << Dot(f.q, <<Sq(d[1]),Sq(d[2]),Sq(d[3])>>),
     Add(Mul(Two, Dot(f.q, <<Mul(o[1],d[1]),Mul(o[2],d[2]),Mul(o[3],d[3])>>)), Dot(f.l, d)),
     FEval(f, o) >>
PEval(a, t) == Add(Mul(Add(Mul(a[1], t), a[2]), t), a[3])

TangTol == Dec(1, 11)       \* discriminants this small count as tangential
FarAway == Int2Fx(1000000)  \* parameters beyond this are not looked at
\* real roots (a tangential near miss counts as a double root)
Roots(a) ==
  LET A == a[1] B == a[2] C == a[3] IN
  IF A = Zero THEN (IF B = Zero THEN << >> ELSE << Div(Opp(C), B) >>)
  ELSE
    LET disc == Sub(Sq(B), Mul(Int2Fx(4), Mul(A, C)))
        tol == Mul(TangTol, Max2(Sq(B), Mul(Abs(A), Max2(Abs(A), One))))
    IN IF Lt(disc, Opp(tol)) THEN << >>
       ELSE IF Lt(disc, Zero) THEN LET t == Div(Opp(B), Mul(Two, A)) IN << t, t >>
       ELSE LET s == Sqrt(disc)
                q == Mul(Opp(Half), IF Lt(B, Zero) THEN Sub(B, s) ELSE Add(B, s))
            IN IF q = Zero THEN << Zero, Zero >> ELSE << Div(q, A), Div(C, q) >>

Rel(t) == Add(One, Abs(t))
================================================================================
