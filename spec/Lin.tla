---------------------------------- MODULE Lin ----------------------------------
(* Vectors (3-tuples of Fx numbers) and affine maps (3 rows of 4 numbers).     *)
EXTENDS Fx, TLC

V(x, y, z) == <<x, y, z>>
Vzero == <<Zero, Zero, Zero>>
VAdd(a, b) == <<Add(a[1], b[1]), Add(a[2], b[2]), Add(a[3], b[3])>>
VSub(a, b) == <<Sub(a[1], b[1]), Sub(a[2], b[2]), Sub(a[3], b[3])>>
VScale(s, a) == <<Mul(s, a[1]), Mul(s, a[2]), Mul(s, a[3])>>
VOpp(a) == <<Opp(a[1]), Opp(a[2]), Opp(a[3])>>
VDot(a, b) == Dot(a, b)
VNorm(a) == Sqrt(Dot(a, a))
VUnit(a) == LET n == VNorm(a) IN <<Div(a[1], n), Div(a[2], n), Div(a[3], n)>>
\* the largest component of the difference
VDist(a, b) == LET d == VSub(a, b) IN Max2(Abs(d[1]), Max2(Abs(d[2]), Abs(d[3])))
VMax(a) == Max2(Abs(a[1]), Max2(Abs(a[2]), Abs(a[3])))
VNear(a, b, eps) == \A i \in 1..3 : Near(a[i], b[i], eps)
VRNear(a, b, eps) == Le(VDist(a, b), Mul(eps, Max2(One, VMax(b))))
\* the point o + t d
At(o, d, t) == VAdd(o, VScale(t, d))

Ident == << <<One,Zero,Zero,Zero>>, <<Zero,One,Zero,Zero>>, <<Zero,Zero,One,Zero>> >>
\* image of a point / of a direction
LOCAL Row(r, d) == Dot(<<r[1],r[2],r[3]>>, d)
MPt(M, p) == <<Add(Row(M[1],p), M[1][4]), Add(Row(M[2],p), M[2][4]), Add(Row(M[3],p), M[3][4])>>
MDir(M, d) == <<Row(M[1],d), Row(M[2],d), Row(M[3],d)>>
\* transpose of the linear part applied to a covector
LOCAL Col(M, i, d) == Dot(<<M[1][i],M[2][i],M[3][i]>>, d)
MTDir(M, d) == <<Col(M,1,d), Col(M,2,d), Col(M,3,d)>>
\* A after B
MMul(A, B) ==
  LET e(i, j) == Row(A[i], <<B[1][j],B[2][j],B[3][j]>>)
      r(i) == <<e(i,1), e(i,2), e(i,3), Add(e(i,4), A[i][4])>>
  IN <<r(1), r(2), r(3)>>
LOCAL Cof(M, r, c) ==   \* cofactor of the linear part
  LET r1 == IF r = 1 THEN 2 ELSE 1  r2 == IF r = 3 THEN 2 ELSE 3
      c1 == IF c = 1 THEN 2 ELSE 1  c2 == IF c = 3 THEN 2 ELSE 3
      m == Sub(Mul(M[r1][c1], M[r2][c2]), Mul(M[r1][c2], M[r2][c1]))
  IN IF (r + c) % 2 = 0 THEN m ELSE Opp(m)
Det(M) == Add(Mul(M[1][1], Cof(M,1,1)), Add(Mul(M[1][2], Cof(M,1,2)), Mul(M[1][3], Cof(M,1,3))))
Inv(M) ==
  LET d == Det(M)
      t == <<M[1][4], M[2][4], M[3][4]>>
      row(i) == LET l == <<Div(Cof(M,1,i),d), Div(Cof(M,2,i),d), Div(Cof(M,3,i),d)>>
                IN <<l[1], l[2], l[3], Opp(Dot(l, t))>>
  IN <<row(1), row(2), row(3)>>
MNear(A, B, eps) == \A i \in 1..3 : \A j \in 1..4 : RNear(A[i][j], B[i][j], eps)

\* ------------------------------------------------- elementary transformations
Translate(v) == << <<One,Zero,Zero,v[1]>>, <<Zero,One,Zero,v[2]>>, <<Zero,Zero,One,v[3]>> >>
ScaleBy(v) == << <<v[1],Zero,Zero,Zero>>, <<Zero,v[2],Zero,Zero>>, <<Zero,Zero,v[3],Zero>> >>
\* right handed rotation by the angle with the given sine and cosine
RotSC(ax, s, c) ==
  CASE ax = 1 -> << <<One,Zero,Zero,Zero>>, <<Zero,c,Opp(s),Zero>>, <<Zero,s,c,Zero>> >>
    [] ax = 2 -> << <<c,Zero,s,Zero>>, <<Zero,One,Zero,Zero>>, <<Opp(s),Zero,c,Zero>> >>
    [] ax = 3 -> << <<c,Opp(s),Zero,Zero>>, <<s,c,Zero,Zero>>, <<Zero,Zero,One,Zero>> >>
Rotate(ax, rad) == RotSC(ax, Sin(rad), Cos(rad))
RotateDeg(ax, deg) == Rotate(ax, Deg(deg))
================================================================================
