---------------------------------- MODULE Render ---------------------------------
(* Cameras, rendered images and drawings.                                          *)
EXTENDS Parts

\* ------------------------------------------------------------------- cameras
\* w[n].src = [k |-> "camera", a |-> width, b |-> height, nh, nv]: the pixel in row i
\* and column j (counted from 0) looks along +x from a point of the yz plane; the first
\* row is the top (+z) and the first column at +y.
LOCAL Step(width, k, n) == Mul(width, Sub(Half, Rat(k, n - 1)))
PixelRay(s, M, i, j) ==
  LET p == <<Zero, Step(s.a, j, s.nh), Step(s.b, i, s.nv)>> IN
  << MPt(M, p), VUnit(MDir(M, <<One, Zero, Zero>>)) >>
CamBad(w, n, e) ==
  LET s == w[n].src M == w[n].M IN
  If(e.res = <<s.nh, s.nv>>, "camera-resolution")
  \cup If(VNear(<<e.span[1], e.span[2], Zero>>, <<s.a, s.b, Zero>>, Dec(1, 9)), "camera-span")
  \cup If(Len(e.rays) = s.nh * s.nv, "camera-rays")
  \cup (IF Len(e.rays) # s.nh * s.nv THEN {}
        ELSE UNION {LET r == PixelRay(s, M, (k - 1) \div s.nh, (k - 1) % s.nh) IN
                    If(AllFin(e.rays[k][1]) /\ VRNear(e.rays[k][1], r[1], Dec(1, 8)), "camera-position")
                    \cup If(AllFin(e.rays[k][2]) /\ VNear(e.rays[k][2], r[2], Dec(1, 8)), "camera-direction")
                    : k \in 1..Len(e.rays)})

\* ------------------------------------------------------------------- shading
\* a gooch material: v = <<base, warm, cool, <<alpha, beta>> >>
Shade(m, p, nrm, lights) ==
  LET mixc(a, x, y) == TLCEval([c \in 1..4 |-> Add(Mul(Sub(One, a), x[c]), Mul(a, y[c]))])
      warm == mixc(m.v[4][1], m.v[2], m.v[1])
      cool == mixc(m.v[4][2], m.v[3], m.v[1])
      one(l) == Mul(Half, Add(One, Dot(VUnit(VSub(l, p)), nrm)))
      mix == Div(FoldLeft(LAMBDA a, l : Add(a, one(l)), Zero, lights), Int2Fx(Len(lights)))
  IN TLCEval([c \in 1..4 |-> Add(Mul(mix, warm[c]), Mul(Sub(One, mix), cool[c]))])
ColourNear(a, b, eps) == Len(a) = 4 /\ AllFin(a) /\ \A c \in 1..4 : Near(a[c], b[c], eps)

\* What is seen along a ray: [k: "none", "hit", "amb"; s: the surface; t, f]
See(w, pa, o, d) ==
  LET h == Ahead(w, pa, o, d) IN
  IF h.k = "hit" /\ h.one THEN LET x == CHOOSE y \in h.z.s : TRUE IN [k |-> "hit", s |-> x, t |-> h.z.lo, f |-> h.z.f, sh |-> h.z.k = "pair"]
  ELSE [k |-> IF h.k = "none" THEN "none" ELSE "amb", s |-> "", t |-> Zero, f |-> 0, sh |-> FALSE]

\* a shaded image: rows of pixels with four channels
ShadedBad(w, mats, n, comps, lights, img) ==
  LET s == w[n].src pa == PrepAll(w, comps)
      pix(i, j) ==
        LET r == PixelRay(s, w[n].M, i, j) v == See(w, pa, r[1], r[2]) c == img[i + 1][j + 1] IN
        CASE v.k = "none" -> If(Len(c) = 4 /\ AllFin(c) /\ \A x \in 1..4 : c[x] = Zero, "image-background")
          [] v.k = "hit" ->
               LET p == At(r[1], r[2], v.t) IN
               IF ~Regular(w, v.s, v.f, p) THEN {}
               ELSE LET g == SignedNormal(w, v.s, v.f, p) m == mats[w[v.s].mat] IN
                    If(ColourNear(c, Shade(m, p, g, lights), Dec(1, 5))
                       \/ (v.sh /\ ColourNear(c, Shade(m, p, VOpp(g), lights), Dec(1, 5))), "image-colour")
          [] OTHER -> {}
  IN IF Len(img) # s.nv \/ \E i \in 1..Len(img) : Len(img[i]) # s.nh THEN {"image-size"}
     ELSE UNION {UNION {pix(i, j) : j \in 0..(s.nh - 1)} : i \in 0..(s.nv - 1)}

\* an outline image: marked pixels are TRUE
EdgesBad(w, n, comps, img) ==
  LET s == w[n].src pa == PrepAll(w, comps)
      I == 1..s.nv  J == 1..s.nh
      c == TLCEval([i \in I |-> TLCEval([j \in J |->
             LET r == PixelRay(s, w[n].M, i - 1, j - 1) v == See(w, pa, r[1], r[2]) IN
             IF v.k = "hit" THEN v.s ELSE v.k])])
      \* neighbours (right and below)
      nb(i, j) == {x \in {<<i + 1, j>>, <<i, j + 1>>} : x[1] \in I /\ x[2] \in J}
      differ(a, b) == a # b /\ a # "amb" /\ b # "amb"
      missing == \E i \in I : \E j \in J : \E x \in nb(i, j) :
                    differ(c[i][j], c[x[1]][x[2]]) /\ ~img[i][j] /\ ~img[x[1]][x[2]]
      \* is there a boundary (or something undecided) near a pixel; lines are wider in large images
      big == (IF s.nh > s.nv THEN s.nh ELSE s.nv) \div 300
      dist == IF big > 1 THEN 1 + big ELSE 2
      \* something that reaches the border of the image may have an outline there
      border(a, b) == a = 1 \/ a = s.nv \/ b = 1 \/ b = s.nh
      near(i, j) == \E a \in ((i - dist)..(i + dist)) \cap I : \E b \in ((j - dist)..(j + dist)) \cap J :
                       c[a][b] # c[i][j] \/ (border(a, b) /\ c[a][b] # "none")
      extra == \E i \in I : \E j \in J : img[i][j] /\ c[i][j] # "amb" /\ ~near(i, j)
  IN IF Len(img) # s.nv \/ \E i \in 1..Len(img) : Len(img[i]) # s.nh THEN {"image-size"}
     ELSE If(~missing, "outline-missing") \cup If(~extra, "outline-extra")

\* ------------------------------------------------------------------- drawings
\* A drawing of components in the xy or xz plane: ext = <<left, right, bottom, top>> in plot
\* coordinates; img rows from top to bottom; every surface has a single colour (its material
\* shades everything alike); what a pixel shows has to be visible within one pixel of it
\* the ray that looks at the plot coordinates x, y
ViewRay(view, x, y) == LET far == Int2Fx(1000) IN
  IF view = "xy" THEN << <<x, y, far>>, <<Zero, Zero, Opp(One)>> >> ELSE << <<x, Opp(far), y>>, <<Zero, One, Zero>> >>
\* plot coordinates of the middle of pixel (i, j), moved by (a, b) quarters of a pixel
PixX(ext, nh, j, b) == Add(ext[1], Mul(Sub(ext[2], ext[1]), Rat(4 * j - 2 + b, 4 * nh)))
PixY(ext, nv, i, a) == Sub(ext[4], Mul(Sub(ext[4], ext[3]), Rat(4 * i - 2 + a, 4 * nv)))
\* the point of pixel (i, j) if the outermost rows and columns lie on the border of the image
BorderX(ext, nh, j) == Add(ext[1], Mul(Sub(ext[2], ext[1]), Rat(j - 1, nh - 1)))
BorderY(ext, nv, i) == Sub(ext[4], Mul(Sub(ext[4], ext[3]), Rat(i - 1, nv - 1)))
Seen1(w, pa, view, x, y) == LET r == ViewRay(view, x, y) v == See(w, pa, r[1], r[2]) IN
  IF v.k = "hit" THEN v.s ELSE v.k
DrawBad(w, mats, view, comps, ext, img) ==
  LET pa == PrepAll(w, comps)
      nv == Len(img) nh == Len(img[1])
      at(i, j, a, b) == Seen1(w, pa, view, PixX(ext, nh, j, b), PixY(ext, nv, i, a))
      I == 0..(nv + 1) J == 0..(nh + 1)
      c == TLCEval([i \in I |-> TLCEval([j \in J |-> at(i, j, 0, 0)])])
      fits(p, x) == \/ x = "amb"
                    \/ x = "none" /\ p[4] = Zero
                    \/ x \notin {"amb", "none"} /\ ColourNear(p, mats[w[x].mat].v[1], Dec(1, 6))
      ok(i, j) == \/ \E a \in (i - 1)..(i + 1) : \E b \in (j - 1)..(j + 1) : fits(img[i][j], c[a][b])
                  \* details smaller than a pixel
                  \/ fits(img[i][j], Seen1(w, pa, view, BorderX(ext, nh, j), BorderY(ext, nv, i)))
                  \/ \E a, b \in {-4, -3, -2, -1, 0, 1, 2, 3, 4} : fits(img[i][j], at(i, j, a, b))
  IN IF \A i \in 1..nv : Len(img[i]) = nh /\ \A j \in 1..nh : Len(img[i][j]) = 4 /\ AllFin(img[i][j])
     THEN If(\A i \in 1..nv : \A j \in 1..nh : ok(i, j), "drawing-pixel")
     ELSE {"image-size"}
\* what is drawn: given bounds are part of it, otherwise the whole scene (nothing is seen around it)
ExtentBad(w, view, comps, ext, bounds, img) ==
  LET pa == PrepAll(w, comps)
      v == IF view = "xy" THEN 2 ELSE 3
      sx == Div(Sub(ext[2], ext[1]), Int2Fx(Len(img[1])))  sy == Div(Sub(ext[4], ext[3]), Int2Fx(Len(img)))
      lo(k) == Min2(bounds[1][k], bounds[2][k])  hi(k) == Max2(bounds[1][k], bounds[2][k])
      wx == Sub(ext[2], ext[1])  wy == Sub(ext[4], ext[3])
      Out(f) == UNION { { <<Sub(ext[1], Mul(wx, f)), Add(ext[3], Mul(wy, Rat(k, 24)))>>,
                          <<Add(ext[2], Mul(wx, f)), Add(ext[3], Mul(wy, Rat(k, 24)))>>,
                          <<Add(ext[1], Mul(wx, Rat(k, 24))), Sub(ext[3], Mul(wy, f))>>,
                          <<Add(ext[1], Mul(wx, Rat(k, 24))), Add(ext[4], Mul(wy, f))>> } : k \in -8..32 }
      empty(q) == Seen1(w, pa, view, q[1], q[2]) \in {"none", "amb"}
  IN IF ~AllFin(ext) \/ Le(wx, Zero) \/ Le(wy, Zero) THEN {"drawing-extent"}
     ELSE IF bounds # << >>
     THEN If(/\ Le(ext[1], Add(lo(1), sx)) /\ Le(Sub(hi(1), sx), ext[2])
             /\ Le(ext[3], Add(lo(v), sy)) /\ Le(Sub(hi(v), sy), ext[4]), "drawing-extent")
     ELSE If(\A q \in UNION {Out(Rat(1, 50)), Out(Rat(1, 8)), Out(Rat(1, 3))} : empty(q), "drawing-extent")
\* no image at all: nothing to be seen anywhere near the origin
Unseen(w, view, comps) ==
  LET pa == PrepAll(w, comps)
  IN comps = << >> \/ \A i, j \in -20..20 : Seen1(w, pa, view, Rat(i, 4), Rat(j, 4)) \in {"none", "amb"}
\* the same for outlines: next to every marked pixel something changes
DrawEdgesBad(w, view, comps, ext, img) ==
  LET pa == PrepAll(w, comps)
      nv == Len(img) nh == Len(img[1])
      I == 1..nv J == 1..nh
      c == TLCEval([i \in I |-> TLCEval([j \in J |-> Seen1(w, pa, view, PixX(ext, nh, j, 0), PixY(ext, nv, i, 0))])])
      \* what is seen at other points of the same pixel: for details smaller than a pixel
      c2 == TLCEval([i \in I |-> TLCEval([j \in J |-> Seen1(w, pa, view, BorderX(ext, nh, j), BorderY(ext, nv, i))])])
      sees(i, j) == IF i \in I /\ j \in J THEN c[i][j] ELSE "amb"
      near(i, j, k) == \E a \in (i - k)..(i + k) : \E b \in (j - k)..(j + k) :
                          sees(a, b) # c[i][j] \/ (a \in I /\ b \in J /\ c2[a][b] # c[i][j])
      \* a clear boundary: the two pixels on either side of it are settled
      clear(i, j) == /\ i \in 2..(nv - 1) /\ j \in 2..(nh - 3)
                     /\ \A a \in (i - 1)..(i + 1) : c[a][j] = c[i][j] /\ c[a][j - 1] = c[i][j]
                                                   /\ c[a][j + 1] = c[i][j + 1] /\ c[a][j + 2] = c[i][j + 1]
                     /\ c[i][j] # c[i][j + 1] /\ c[i][j] # "amb" /\ c[i][j + 1] # "amb"
      marked(i, j) == \E b \in (j - 1)..(j + 2) : img[i][b]
  IN If(\A i \in I : \A j \in J : ~img[i][j] \/ c[i][j] = "amb" \/ near(i, j, 3), "drawing-outline")
     \cup If(\A i \in I : \A j \in J : ~clear(i, j) \/ marked(i, j), "drawing-outline")
==================================================================================
