--------------------------------- MODULE Optics --------------------------------
(* Materials: refractive indices and what happens to a ray at a surface.        *)
EXTENDS Obs

\* ------------------------------------------------------- index of refraction
\* material: [k |-> kind, v |-> parameters]
Sellmeier(v, wl) ==
  LET l2 == Sq(wl) term(b, c) == Div(Mul(b, l2), Sub(l2, c)) IN
  Sqrt(Add(One, Add(term(v[1], v[4]), Add(term(v[2], v[5]), term(v[3], v[6])))))
IndexAt(m, wl) == CASE m.k = "const" -> m.v[1]
                    [] m.k = "sell"  -> Sellmeier(m.v, wl)
Abbe(m) == Div(Sub(IndexAt(m, Dec(5893, 4)), One),
               Sub(IndexAt(m, Dec(4861, 4)), IndexAt(m, Dec(6563, 4))))
IsGlass(m) == m.k \in {"const", "sell"}

\* The catalogue of predefined materials.
D9(i, f) == Add(Int2Fx(i), Dec(f, 9))
Catalogue ==
  [mirror   |-> [k |-> "mirror", v |-> << >>],
   absorber |-> [k |-> "absorb", v |-> << >>],
   ideal    |-> [k |-> "const", v |-> <<Dec(15, 1)>>],
   BK7      |-> [k |-> "sell", v |-> <<D9(1,39612120), Dec(231792344,9), D9(1,10469450),
                                      Dec(600069867,11), Dec(200179144,10), D9(103,560653000)>>],
   SF5      |-> [k |-> "sell", v |-> <<D9(1,524818890), Dec(187085527,9), D9(1,427290150),
                                      Dec(11254756,9), Dec(588995392,10), D9(129,141675000)>>],
   SF2      |-> [k |-> "sell", v |-> <<D9(1,403018210), Dec(231767504,9), Dec(939056586,9),
                                      Dec(105795466,10), Dec(493226978,10), D9(112,405955000)>>]]

\* ------------------------------------------------------------------ the laws
\* mirror: the component along the unit normal n is reversed
Reflect(d, n) == VSub(d, VScale(Mul(Two, Dot(d, n)), n))
\* Snell's law for a unit direction d at a surface with outward unit normal n of a body
\* with index nb, coming from a medium with index n1; outside the index is ng.
Snell(d, n, n1, nb, ng) ==
  LET out == Lt(Zero, Dot(d, n))                  \* leaving the body
      n2 == IF out THEN ng ELSE nb
      N == IF out THEN VOpp(n) ELSE n             \* against the ray
      c == Opp(Dot(d, N))
      r == Div(n1, n2)
      k == Sub(One, Mul(Sq(r), Sub(One, Sq(c))))  \* squared cosine of the refracted ray
  IN [k |-> k, c |-> c,
      d |-> IF Lt(Zero, k)
            THEN VUnit(VAdd(VScale(r, d), VScale(Sub(Mul(r, c), Sqrt(k)), N)))
            ELSE VUnit(Reflect(d, N)),
      i |-> IF Lt(Zero, k) THEN n2 ELSE n1]

\* Response of material m to a ray: [k, d, i, p]: k = "go", "dead" or "amb" (too close to a
\* case distinction to be decided), new direction, index and intensity.
Response(m, d, n, wl, idx, pw) ==
  CASE m.k = "absorb" -> [k |-> "dead", d |-> d, i |-> idx, p |-> pw]
    [] m.k = "mirror" -> [k |-> "go", d |-> Reflect(d, n), i |-> idx, p |-> pw]
    [] m.k = "lossy"  -> [k |-> "go", d |-> Reflect(d, n), i |-> idx, p |-> Mul(pw, m.v[1])]
    [] m.k = "pass"   -> [k |-> "go", d |-> d, i |-> idx, p |-> Mul(pw, m.v[1])]
    [] IsGlass(m) ->
         LET s == Snell(d, n, idx, IndexAt(m, wl), One) IN
         [k |-> IF Lt(Abs(s.k), Dec(1,7)) \/ Lt(s.c, Dec(1,7)) THEN "amb" ELSE "go",
          d |-> s.d, i |-> s.i, p |-> pw]
    [] OTHER -> [k |-> "amb", d |-> d, i |-> idx, p |-> pw]

\* ---------------------------------------------------------- direct observations
DirTol == Dec(1, 6)
\* a material's response to rays hitting leaf n: every ray is
\* [o, d, wl, idx, pw] before and [o, d, wl, idx, pw] after
MTraceBad(w, mats, n, a, b) ==
  LET f == OnForm(w, n, a.o)
      m == mats[w[n].mat]
  IN IF f = -1 \/ ~Regular(w, n, f, a.o) THEN {}
     ELSE LET nrm == SignedNormal(w, n, f, a.o)
              r == Response(m, a.d, nrm, a.wl, a.idx, a.pw)
          IN IF r.k = "amb" THEN {}
             ELSE IF ~(AllFin(b.o) /\ AllFin(b.d) /\ Fin(b.wl) /\ Fin(b.idx) /\ Fin(b.pw)) THEN {"response"}
             ELSE If(VRNear(b.o, a.o, Dec(1,9)), "response-position")
                  \cup If(Near(b.wl, a.wl, Dec(1,12)), "response-wavelength")
                  \cup If(Near(b.pw, r.p, Dec(1,9)), "response-intensity")
                  \cup (IF r.k = "dead" THEN If(VNear(b.d, Vzero, Dec(1,9)), "response-absorb")
                        ELSE If(VNear(b.d, r.d, DirTol), "response-direction")
                             \cup If(Near(VNorm(b.d), One, Dec(1,8)), "response-unit")
                             \cup If(Near(b.idx, r.i, Dec(1,8)), "response-index"))
ReflectBad(d, n, out) == If(AllFin(out) /\ VNear(out, Reflect(d, n), Dec(1,8)), "reflect-law")
RefractBad(d, n, n1, n2, ng, out, nout) ==
  LET s == Snell(VUnit(d), n, n1, n2, ng) IN
  IF Lt(Abs(s.k), Dec(1,7)) \/ Lt(Abs(s.c), Dec(1,7)) THEN {}
  ELSE IF ~AllFin(out) \/ ~Fin(nout) THEN {"snell-law"}
  ELSE If(VNear(out, s.d, DirTol), "snell-law") \cup If(Near(nout, s.i, Dec(1,9)), "snell-index")
       \cup If(Near(VNorm(out), One, Dec(1,8)), "snell-unit")
================================================================================
