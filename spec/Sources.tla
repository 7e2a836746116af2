--------------------------------- MODULE Sources -------------------------------
(* Light sources: the pattern of rays they emit.                                *)
(* w[n].src = [k, a, b, c, wl]: kind, parameters, wavelength.                    *)
EXTENDS Optics

LOCAL Frac(i, n) == Rat(i, n)      \* i/n
\* ray i of n in the source's own frame: <<origin, direction>>
LocalRay(s, i, n) ==
  CASE s.k = "line" ->
         << <<Zero, IF n = 1 THEN Zero ELSE Mul(s.a, Sub(Frac(i - 1, n - 1), Half)), Zero>>, <<One, Zero, Zero>> >>
    [] s.k = "circle" ->
         LET t == Mul(Mul(Two, Pi), Frac(i - 1, n)) r == Mul(Half, s.a) IN
         << <<Zero, Mul(r, Sin(t)), Mul(r, Cos(t))>>, <<One, Zero, Zero>> >>
    [] s.k = "cone" ->
         LET a == Deg(s.a) t == Mul(Mul(Two, Pi), Frac(i - 1, n)) IN
         << Vzero, <<Cos(a), Mul(Sin(a), Sin(t)), Mul(Sin(a), Cos(t))>> >>
    [] s.k = "wedge" ->
         LET t == Mul(Deg(s.a), Sub(Frac(i - 1, n - 1), Half)) IN
         << Vzero, <<Cos(t), Sin(t), Zero>> >>
Patterned == {"line", "circle", "cone", "wedge"}
\* cases in which the documentation leaves the pattern open
PatternOpen(s, n) == n = 1 /\ s.k \in {"cone", "wedge"}

\* a logged ray: [o, d, wl, pw, idx, gen, id]; gen and id are numbers
RayFin(r) == AllFin(r.o) /\ AllFin(r.d) /\ Fin(r.wl) /\ Fin(r.pw) /\ Fin(r.idx) /\ Fin(r.gen)
MetaBad(w, n, r, pw) ==
  If(Near(r.wl, w[n].src.wl, Dec(1,12)), "emit-wavelength")
  \cup If(Near(r.pw, pw, Dec(1,9)), "emit-intensity")
  \cup If(r.idx = One, "emit-index") \cup If(r.gen = Zero, "emit-generation")
  \cup If(Near(VNorm(r.d), One, Dec(1,9)), "emit-unit")
EmitBad(w, n, cnt, rays) ==
  LET s == w[n].src M == w[n].M IN
  If(Len(rays) = cnt, "emit-count")
  \cup IF \E i \in 1..Len(rays) : ~RayFin(rays[i]) THEN {"emit-finite"}
       ELSE IF Len(rays) # cnt THEN {}
       ELSE UNION {LET r == rays[i] p == LocalRay(s, i, cnt) IN
             MetaBad(w, n, r, Int2Fx(100))
             \cup (IF PatternOpen(s, cnt) THEN {}
                   ELSE If(VRNear(r.o, MPt(M, p[1]), Dec(1,8)), "emit-position")
                        \cup If(VNear(r.d, VUnit(MDir(M, p[2])), Dec(1,8)), "emit-direction")) : i \in 1..cnt}
\* lamps: s.a width (y), s.b length (z), s.c maximal angle in degrees.  The angle and the
\* extent are those in the frame of the lamp.
LampBad(w, n, cnt, rays) ==
  LET s == w[n].src I == Inv(w[n].M) cm == Cos(Deg(s.c)) eps == Dec(1, 8) IN
  If(Len(rays) = cnt, "emit-count")
  \cup IF \E i \in 1..Len(rays) : ~RayFin(rays[i]) THEN {"emit-finite"}
       ELSE UNION {LET r == rays[i] p == MPt(I, r.o) d == VUnit(MDir(I, r.d)) IN
             MetaBad(w, n, r, r.pw)
             \cup If(Near(p[1], Zero, eps) /\ Le(Abs(p[2]), Add(Mul(Half, s.a), eps))
                                           /\ Le(Abs(p[3]), Add(Mul(Half, s.b), eps)), "lamp-extent")
             \cup If(Le(Sub(cm, eps), d[1]), "lamp-angle")
             \cup If(Near(r.pw, Mul(Int2Fx(100), d[1]), Dec(1,5)), "lamp-intensity") : i \in 1..Len(rays)}
\* lamp rays fill their range: used on large samples only
Spread(w, n, rays) ==
  LET s == w[n].src I == Inv(w[n].M)
      P == TLCEval([i \in 1..Len(rays) |-> MPt(I, rays[i].o)])
      D == TLCEval([i \in 1..Len(rays) |-> VUnit(MDir(I, rays[i].d))])
      quad(f, g) == \A u \in {TRUE, FALSE} : \A v \in {TRUE, FALSE} :
          \E i \in 1..Len(rays) : Lt(Zero, f[i]) = u /\ Lt(Zero, g[i]) = v
      comp(F, c) == TLCEval([i \in 1..Len(rays) |-> F[i][c]])
      far(F, c, x) == \E i \in 1..Len(rays) : Le(Mul(Dec(7,1), x), Abs(F[i][c]))
      cm == Cos(Deg(s.c))
  IN If(quad(comp(P, 2), comp(P, 3)) /\ far(P, 2, Mul(Half, s.a)) /\ far(P, 3, Mul(Half, s.b)), "lamp-spread")
     \cup If(quad(comp(D, 2), comp(D, 3)), "lamp-directions")
     \cup If(\E i \in 1..Len(rays) : Lt(D[i][1], Add(cm, Mul(Dec(3,1), Sub(One, cm)))), "lamp-cone")
\* Rays are spread evenly: over the rectangle, over the solid angle of the cone, and independently of each
\* other.  Every one of these halves has half of the rays up to 15/4 of the root of their number (7.5 standard
\* deviations, exceeded with a probability below 1e-13): used on samples of 1000 rays and more.
EvenBad(w, n, rays) ==
  LET s == w[n].src I == Inv(w[n].M) N == Len(rays)
      mid == Mul(Half, Add(One, Cos(Deg(s.c))))
      F == TLCEval([i \in 1..N |->       \* the signs of a ray
             LET p == MPt(I, rays[i].o) d == VUnit(MDir(I, rays[i].d)) IN
             << Lt(Zero, p[2]), Lt(Zero, p[3]), Lt(Abs(p[2]), Mul(Rat(1, 4), s.a)), Lt(Abs(p[3]), Mul(Rat(1, 4), s.b)),
                Lt(Zero, d[2]), Lt(Zero, d[3]), Lt(Abs(d[2]), Abs(d[3])), Lt(mid, d[1]) >>])
      half(k) == LET c == Cardinality({i \in 1..N : F[i][k]}) IN 4 * (2 * c - N) * (2 * c - N) <= 225 * N
      pair(k, m) == LET c == Cardinality({i \in 1..N : F[i][k] = F[i][m]}) IN 4 * (2 * c - N) * (2 * c - N) <= 225 * N
  IN If(\A k \in 1..4 : half(k), "lamp-uneven-rectangle")
     \cup If(\A k \in 5..8 : half(k), "lamp-uneven-cone")
     \cup If(\A k, m \in 1..8 : k < m => pair(k, m), "lamp-dependent")
\* the same rays in the frame of the source, as <<origin, direction, intensity>>
SameLocalSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
  VRNear(a[i][1], b[i][1], Dec(1,7)) /\ VNear(a[i][2], b[i][2], Dec(1,7)) /\ Near(a[i][3], b[i][3], Dec(1,7))
Localise(w, n, rays) == LET I == Inv(w[n].M) IN
  TLCEval([i \in 1..Len(rays) |-> <<MPt(I, rays[i].o), VUnit(MDir(I, rays[i].d)), rays[i].pw>>])
================================================================================
