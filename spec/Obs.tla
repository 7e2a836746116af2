---------------------------------- MODULE Obs ----------------------------------
(* What observations of scene objects have to look like in a given world.       *)
(* Every operator returns a set of names of violated clauses (empty: fine).      *)
EXTENDS World

If(b, s) == IF b THEN {} ELSE {s}       \* clause s has to hold
Fin(x) == Len(x) = 4                     \* logged number is finite
AllFin(v) == \A i \in DOMAIN v : Fin(v[i])

\* ---------------------------------------------------------------- poses
LOCAL Mat12(v) == << <<v[1],v[2],v[3],v[4]>>, <<v[5],v[6],v[7],v[8]>>, <<v[9],v[10],v[11],v[12]>> >>
LOCAL Col3(v) == <<v[1],v[2],v[3]>>
LOCAL Orthonormal(M) ==
  \A i \in 1..3 : \A j \in 1..3 :
     Near(Dot(<<M[1][i],M[2][i],M[3][i]>>, <<M[1][j],M[2][j],M[3][j]>>), IF i = j THEN One ELSE Zero, Dec(1,9))
  /\ Lt(Zero, Det(M))
LOCAL QRot(q) ==   \* rotation matrix of the unit quaternion <<x,y,z,w>>
  LET x == q[1] y == q[2] z == q[3] w == q[4]
      d(a, b) == Sub(One, Mul(Two, Add(Sq(a), Sq(b))))
      p(a, b, c, e) == Mul(Two, Add(Mul(a, b), Mul(c, e)))
      m(a, b, c, e) == Mul(Two, Sub(Mul(a, b), Mul(c, e)))
  IN << <<d(y,z), m(x,y,z,w), p(x,z,y,w)>>, <<p(x,y,z,w), d(x,z), m(y,z,x,w)>>, <<m(x,z,y,w), p(y,z,x,w), d(x,y)>> >>

PoseTol == Dec(1, 10)
\* inverses amplify rounding: by the square of their size
InvTol(O) == LET m == Max2(One, VMax(<<VMax(Col3(O[1])), VMax(Col3(O[2])), VMax(Col3(O[3]))>>)) IN Mul(Dec(1, 9), Sq(m))
\* e.M, e.lr: rows of the pose; e.O, e.olr: of its inverse; e.pos, e.dir: position and
\* orientation; e.q: quaternion or << >>; e.pt -> e.wp, e.op: a converted point (w = 1)
\* and direction e.vt -> e.wv, e.ov (w = 0)
PoseBad(w, e) ==
  LET M == w[e.n].M  O == Inv(M) dir == MDir(M, <<Zero,Zero,One>>)
      unitrow(r) == VNear(Col3(r), Vzero, Dec(1,12)) /\ Near(r[4], One, Dec(1,12))
  IN IF ~AllFin(e.M) \/ ~AllFin(e.O) \/ ~AllFin(e.pos) \/ ~AllFin(e.dir) THEN {"pose"}
     ELSE If(MNear(Mat12(e.M), M, PoseTol), "pose")
     \cup If(unitrow(e.lr) /\ unitrow(e.olr), "last-row")
     \cup If(MNear(Mat12(e.O), O, InvTol(O)), "inverse")
     \cup If(VRNear(Col3(e.pos), <<M[1][4],M[2][4],M[3][4]>>, PoseTol) /\ Near(e.pos[4], One, Dec(1,9)), "position")
     \cup If(VNear(Col3(e.dir), VUnit(dir), Dec(1,7)) /\ Near(e.dir[4], Zero, Dec(1,9)), "orientation")
     \cup If(e.q = << >> \/ ~Orthonormal(M)
             \/ LET R == QRot(e.q) IN \A i \in 1..3 : VNear(R[i], <<M[i][1],M[i][2],M[i][3]>>, Dec(1,6)), "quaternion")
     \cup If(e.pt = << >> \/ VRNear(Col3(e.wp), MPt(M, e.pt), PoseTol), "to-world")
     \cup If(e.pt = << >> \/ VRNear(Col3(e.op), MPt(O, e.pt), InvTol(O)), "to-object")
     \cup If(e.pt = << >> \/ VRNear(Col3(e.wv), MDir(M, e.vt), PoseTol), "to-world-direction")
     \cup If(e.pt = << >> \/ VRNear(Col3(e.ov), MDir(O, e.vt), InvTol(O)), "to-object-direction")

\* ----------------------------------------------------------------- hits
\* ids: function from surface identity to [o: owner name, m: material name]
Lies(w, ids, z, sid) ==
  sid \in DOMAIN ids /\ \E x \in z.s : w[x].own = ids[sid].o /\ w[x].mat = ids[sid].m
\* p lies on form f of leaf x and clearly away from the other faces of the leaf
Regular(w, x, f, p) ==
  LET q == MPt(Inv(w[x].M), p) F == w[x].forms
      far(j) == LET g == VMax(FGrad(F[j], q)) v == FEval(F[j], q) IN
                Lt(Mul(Mul(Dec(1,4), Add(One, VMax(q))), Max2(g, Dec(1,6))), Abs(v))
  IN \A j \in 1..Len(F) : j = f \/ far(j)
NormalTol == Dec(1, 5)
\* expected normal of leaf x, form f at the point p
SignedNormal(w, x, f, p) ==
  LET g == LeafNormal(w, x, f, p) IN IF w[x].flip THEN VOpp(g) ELSE g
NormalOk(w, z, c, p, nrm) ==
  \/ ~Regular(w, c, z.f, p)
  \/ LET g == SignedNormal(w, c, z.f, p) IN
     /\ Len(nrm) = 4 /\ AllFin(nrm) /\ Near(nrm[4], Zero, NormalTol)
     /\ VNear(Col3(nrm), g, NormalTol) \/ (z.k = "pair" /\ VNear(Col3(nrm), VOpp(g), NormalTol))

Within(z, t) == Le(Sub(z.lo, Mul(HitTol, Rel(z.lo))), t) /\ Le(t, Add(z.hi, Mul(HitTol, Rel(z.hi))))

\* h: sequence of hits <<t, surface identity, normal or << >> >>, sorted
RayBad(w, ids, n, pr, o, d, h, box) ==
  LET zs == Zones(w, n, pr, o, d)
      hs == SelectSeq(h, LAMBDA x : Lt(Abs(x[1]), FarAway))
      In(i) == {j \in 1..Len(hs) : Within(zs[i], hs[j][1])}
      Z == {i \in 1..Len(zs) : zs[i].k # "none"}
      cnt == TLCEval([i \in Z |-> In(i)])
      ghost == {j \in 1..Len(hs) : \A i \in Z : j \notin cnt[i]}
      inbox(p) == box = << >> \/ \A c \in 1..3 :
                   Le(Sub(box[1][c], Mul(Dec(1,6), Rel(p[c]))), p[c]) /\ Le(p[c], Add(box[2][c], Mul(Dec(1,6), Rel(p[c]))))
      one(i) ==
        LET z == zs[i] k == Cardinality(cnt[i]) IN
        (CASE z.k = "cross" -> If(k # 0, "hit-missing") \cup If(k <= 1, "hit-repeated")
          [] z.k = "pair"  -> If(k # 0, "hit-missing") \cup If(k <= 2, "hit-repeated")
          [] z.k = "odd"   -> If(k % 2 = 1, "hit-parity")
          [] z.k = "even"  -> If(k % 2 = 0, "hit-parity")
          [] OTHER -> {})
        \cup If(\A j \in cnt[i] : Lies(w, ids, z, hs[j][2]), "hit-surface")
        \cup (IF z.k \in {"cross", "pair"}
              THEN LET p == At(o, d, z.lo) x == CHOOSE y \in z.s : TRUE IN
                   If(inbox(p), "bounding-volume")
                   \cup If(\A j \in cnt[i] : hs[j][3] = << >> \/ NormalOk(w, z, x, p, hs[j][3]), "normal")
              ELSE {})
  IN [b |-> If(ghost = {}, "hit-unexpected") \cup UNION {one(i) : i \in Z}
            \cup If(\A j \in 1..(Len(h)-1) : Le(h[j][1], h[j+1][1]), "hit-order"),
      n |-> Cardinality(Z)]

\* ---------------------------------------------- surface normals at given points
\* Normals reported for points on the boundary of the leaf n (any side).
NormalAtBad(w, n, pts, nrms) ==
  UNION {LET f == OnForm(w, n, pts[i]) IN
         IF f = -1 \/ ~Regular(w, n, f, pts[i]) THEN {}
         ELSE If(NormalOk(w, [k |-> "cross", f |-> f], n, pts[i], nrms[i]), "normal") : i \in 1..Len(pts)}
================================================================================
