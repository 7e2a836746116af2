--------------------------------- MODULE World ---------------------------------
(* The scene: world objects, their poses and how they contain each other.       *)
(*                                                                              *)
(* A world is a function from object names to records                           *)
(*   kind  "leaf" | "csg" | "group" | "other" (sources, cameras, plain objects) *)
(*   M     pose: the affine map from object to world coordinates                *)
(*   forms, sheet     leaf geometry (module Geom), sheet = << >> for solids     *)
(*   op, l, r         composite: operation and operands                         *)
(*   items            group: member names                                       *)
(*   flip  leaf: its normal points against the outward side of the leaf itself  *)
(*   inv   the user has inverted the normals of the object an odd number of     *)
(*         times since it was created or reset                                  *)
(*   mat   leaf: material name                                                  *)
(*   own   the name under which hits of the leaf are reported: its own, or that  *)
(*         of the factory-made part to which it belongs                          *)
(*   sids  the surface identities of a leaf or part (integers)                   *)
(*   src   parameters of a source or camera, << >> otherwise                     *)
(* All operators are functions of the world; the actions of the specifications  *)
(* that use this module are of the form  world' = Op(world, ...).               *)
EXTENDS Geom, FiniteSets

Blank == [kind |-> "other", M |-> Ident, forms |-> << >>, sheet |-> << >>,
          op |-> "", l |-> "", r |-> "", items |-> << >>, flip |-> FALSE, inv |-> FALSE,
          mat |-> "", own |-> "", sids |-> {}, src |-> << >>]

EmptyWorld == << >>      \* the function with empty domain
Has(w, n) == n \in DOMAIN w
Put(w, n, rec) == TLCEval([x \in (DOMAIN w) \cup {n} |-> IF x = n THEN rec ELSE w[x]])

Leaf(forms, sheet, mat) == [Blank EXCEPT !.kind = "leaf", !.forms = forms, !.sheet = sheet, !.mat = mat]
Prim(kind, p, mat) == Leaf(PrimForms(kind, p), PrimSheet(kind), mat)

\* ------------------------------------------------------------ containment
Parts(w, n) == CASE w[n].kind = "csg"   -> <<w[n].l, w[n].r>>
                 [] w[n].kind = "group" -> w[n].items
                 [] OTHER -> << >>
\* all objects that a transformation of n reaches (n itself included), in order
RECURSIVE Reach(_, _)
Reach(w, n) == <<n>> \o FlattenSeq([i \in 1..Len(Parts(w, n)) |-> Reach(w, Parts(w, n)[i])])
RECURSIVE LeavesOf(_, _)
LeavesOf(w, n) == CASE w[n].kind = "leaf" -> <<n>>
                    [] w[n].kind = "csg" -> LeavesOf(w, w[n].l) \o LeavesOf(w, w[n].r)
                    [] OTHER -> << >>

\* ---------------------------------------------------------------- actions
\* apply the world-frame map T to n and to everything it contains, each once
Transform(w, n, T) ==
  LET R == ToSet(Reach(w, n)) IN
  TLCEval([x \in DOMAIN w |-> IF x \in R THEN [w[x] EXCEPT !.M = MMul(T, w[x].M)] ELSE w[x]])

FlipLeaves(w, S) == TLCEval([x \in DOMAIN w |-> IF x \in S THEN [w[x] EXCEPT !.flip = ~w[x].flip] ELSE w[x]])
\* combine two objects; the subtracted solid of a difference is turned inside out
Combine(w, n, op, a, b) ==
  LET w1 == Put(w, n, [Blank EXCEPT !.kind = "csg", !.op = op, !.l = a, !.r = b])
  IN IF op = "difference" THEN FlipLeaves(w1, ToSet(LeavesOf(w, b))) ELSE w1
Invert(w, n) == LET w1 == FlipLeaves(w, ToSet(LeavesOf(w, n))) IN Put(w1, n, [w1[n] EXCEPT !.inv = ~w1[n].inv])
\* leaves below n that lie on an odd number of subtracted branches
RECURSIVE Subtracted(_, _)
Subtracted(w, n) ==
  IF w[n].kind # "csg" THEN {}
  ELSE LET A == Subtracted(w, w[n].l) B == Subtracted(w, w[n].r) IN
       IF w[n].op = "difference"
       THEN A \cup (ToSet(LeavesOf(w, w[n].r)) \ B) ELSE A \cup B
ResetNormals(w, n) ==
  LET L == ToSet(LeavesOf(w, n)) S == Subtracted(w, n) R == ToSet(Reach(w, n)) IN
  TLCEval([x \in DOMAIN w |-> IF x \in L THEN [w[x] EXCEPT !.flip = (x \in S), !.inv = FALSE]
                      ELSE IF x \in R THEN [w[x] EXCEPT !.inv = FALSE] ELSE w[x]])
NewGroup(w, n, items) == Put(w, n, [Blank EXCEPT !.kind = "group", !.items = items])
Append1(w, n, m) == Put(w, n, [w[n] EXCEPT !.items = Append(w[n].items, m)])
Remove1(w, n, m) == Put(w, n, [w[n] EXCEPT !.items = SelectSeq(w[n].items, LAMBDA x : x # m)])
RECURSIVE SidsOf(_, _)
SidsOf(w, n) == IF w[n].sids # {} THEN w[n].sids
                ELSE IF w[n].kind = "csg" THEN SidsOf(w, w[n].l) \cup SidsOf(w, w[n].r) ELSE {}
SetMat(w, n, m) == Put(w, n, [w[n] EXCEPT !.mat = m])

\* The map of one transformation call; << >> if the call has to be rejected.
CallMap(e) ==
  CASE e.op = "move"  -> Translate(e.v)
    [] e.op = "scale" -> IF \A i \in 1..3 : Lt(Zero, e.v[i]) THEN ScaleBy(e.v) ELSE << >>
    [] e.op = "rot"   -> CASE e.unit = "deg" -> RotateDeg(e.ax, e.ang)
                           [] e.unit = "rad" -> Rotate(e.ax, e.ang)
                           [] OTHER -> << >>
    [] e.op = "tf"    -> e.m

\* the world after restoring the pinned poses sv (a sequence of <<name, pose>>):
\* pinned objects have their recorded pose; a member that is not pinned itself
\* follows the innermost pinned container that reaches it
RECURSIVE RestoreAll(_, _, _)
RestoreAll(w, sv, k) ==      \* containers first: longest reach first
  IF k > Len(sv) THEN w
  ELSE RestoreAll(Transform(w, sv[k][1], MMul(sv[k][2], Inv(w[sv[k][1]].M))), sv, k + 1)
Restore(w, sv) ==
  RestoreAll(w, SortSeq(sv, LAMBDA a, b : Len(Reach(w, a[1])) > Len(Reach(w, b[1]))), 1)

\* ------------------------------------------------- solids along a world ray
RECURSIVE Holds(_, _, _)
\* is a point inside n, S being the leaves that contain it
Holds(w, n, S) ==
  IF w[n].kind = "leaf" THEN n \in S
  ELSE CASE w[n].op = "union"      -> Holds(w, w[n].l, S) \/ Holds(w, w[n].r, S)
         [] w[n].op = "intersect"  -> Holds(w, w[n].l, S) /\ Holds(w, w[n].r, S)
         [] w[n].op = "difference" -> Holds(w, w[n].l, S) /\ ~Holds(w, w[n].r, S)

\* what is needed of each leaf of n to look at many rays: name and inverse pose
Prep(w, n) == LET L == LeavesOf(w, n) IN
  TLCEval([i \in 1..Len(L) |-> [n |-> L[i], inv |-> Inv(w[L[i]].M), f |-> w[L[i]].forms,
                                s |-> w[L[i]].sheet]])

HitTol == Dec(1, 6)      \* reported distances may be off by this times (1+|t|)
MergeTol == Dec(5, 6)    \* crossings closer than this are not told apart
SlackTol == Dec(1, 3)
Grazing == Dec(1, 6)      \* slopes against a sheet this small are not decided

\* The crossings of the ray o + t d with the solid n, as zones
\*   [lo, hi, s, k, en, f]: parameter range, surfaces involved, what is expected:
\*   "cross"  exactly one hit, of the surface in s; en: the ray enters the solid
\*   "pair"   a sheet: one or two hits
\*   "odd" / "even"  several surfaces meet here: only the parity is known
\*   "any"    several surfaces, one of them a sheet
\*   "none"   no hit
\* pr is Prep(w, n).
Zones(w, n, pr, o, d) ==
  LET k == Len(pr)
      \* every leaf in its own coordinates, from the point of the ray closest to its origin, z
      loc == TLCEval([i \in 1..k |->
               LET lo == MPt(pr[i].inv, o) ld == MDir(pr[i].inv, d)
                   z == Opp(Div(Dot(lo, ld), Dot(ld, ld)))  lz == At(lo, ld, z) IN
               [z |-> z, o |-> lz, d |-> ld,
                a |-> TLCEval([j \in 1..Len(pr[i].f) |-> Along(pr[i].f[j], lz, ld)]),
                b |-> TLCEval([j \in 1..Len(pr[i].s) |-> Along(pr[i].s[j], lz, ld)]),
                \* the ray runs within the sheet or almost so
                g |-> pr[i].s # << >> /\ Le(Abs(Dot(pr[i].s[1].l, ld)), Mul(Grazing, VMax(ld)))]])
      ix == TLCEval([x \in {pr[i].n : i \in 1..k} |-> CHOOSE i \in 1..k : pr[i].n = x])
      FormAt(i, j, t) == PEval(loc[i].a[j], Sub(t, loc[i].z))
      RootsOf(i, a) == LET r == Roots(a) IN TLCEval([m \in 1..Len(r) |-> Add(r[m], loc[i].z)])
      InSolid(i, t) == \A j \in 1..Len(loc[i].a) : Le(FormAt(i, j, t), Zero)
      NearSolid(i, t, x) == \A j \in 1..Len(loc[i].a) : j = x \/ Le(FormAt(i, j, t), SlackTol)
      Inside(t) == TLCEval({pr[i].n : i \in {j \in 1..k : pr[j].s = << >> /\ InSolid(j, t)}})
      \* does the ray meet the sheet at its edge
      OnEdge(i, t) == \E j \in 1..Len(loc[i].a) :
                         \/ Le(Abs(FormAt(i, j, t)), Dec(1, 6))
                         \/ LET q == RootsOf(i, loc[i].a[j]) IN
                            \E m \in 1..Len(q) : Near(q[m], t, Mul(MergeTol, Rel(t)))
      \* does the ray, where it meets form x of a solid, run along another of its faces,
      \* so close that rounding decides whether it meets the solid at all
      Along1(i, x, t) == LET lt == Sub(t, loc[i].z) IN
         \E j \in 1..Len(loc[i].a) :
            /\ j # x
            /\ Le(Abs(FormAt(i, j, t)), Dec(1, 3))
            /\ LET g == VMax(FGrad(pr[i].f[j], At(loc[i].o, loc[i].d, lt))) IN
               /\ Le(Abs(FormAt(i, j, t)), Mul(Dec(5, 8), Mul(g, Rel(t))))
               /\ Le(Abs(Add(Mul(Two, Mul(loc[i].a[j][1], lt)), loc[i].a[j][2])), Mul(Dec(1, 2), g))
      \* candidates [t, n, f, am]: am: not to be decided
      Cand(i) == IF pr[i].s = << >>
                 THEN FlattenSeq(TLCEval([j \in 1..Len(loc[i].a) |->
                        LET r == RootsOf(i, loc[i].a[j]) IN
                        SelectSeq(TLCEval([m \in 1..Len(r) |-> [t |-> r[m], n |-> pr[i].n, f |-> j,
                                                   am |-> Along1(i, j, r[m])]]),
                                  LAMBDA c : Lt(Abs(c.t), FarAway) /\ NearSolid(i, c.t, j))]))
                 ELSE LET r == RootsOf(i, loc[i].b[1]) IN
                      IF r # << >> /\ Lt(Abs(r[1]), FarAway) /\ NearSolid(i, r[1], 0)
                      THEN << [t |-> r[1], n |-> pr[i].n, f |-> 0, am |-> loc[i].g \/ OnEdge(i, r[1])] >>
                      ELSE << >>
      cands == SortSeq(FlattenSeq(TLCEval([i \in 1..k |-> Cand(i)])), LAMBDA x, y : Lt(x.t, y.t))
      Cl(acc, c) == LET z == acc[Len(acc)] IN
         IF acc # << >> /\ Le(Sub(c.t, z.hi), Mul(MergeTol, Rel(c.t)))
         THEN [acc EXCEPT ![Len(acc)] = [lo |-> z.lo, hi |-> c.t, c |-> z.c \o <<c>>]]
         ELSE Append(acc, [lo |-> c.t, hi |-> c.t, c |-> <<c>>])
      cl == FoldLeft(Cl, << >>, cands)
      m == Len(cl)
      \* the stretches on which it is not known whether the ray is inside such a solid
      murky == {c \in ToSet(cands) : c.am /\ c.f # 0}
      Murky(z) == \E c \in murky : /\ \E e \in ToSet(cands) : e.n = c.n /\ Le(e.t, z.hi)
                                  /\ \E e \in ToSet(cands) : e.n = c.n /\ Le(z.lo, e.t)
      SampleAt(i) == IF i = 0 THEN Sub(cl[1].lo, One) ELSE IF i = m THEN Add(cl[m].hi, One)
                     ELSE Mul(Half, Add(cl[i].hi, cl[i+1].lo))
      \* truth between the clusters; entry i+1 is the stretch after cluster i
      ins == TLCEval([i \in 1..(m+1) |-> LET t == SampleAt(i-1) IN Holds(w, n, Inside(t))])
      Kind(i) ==
        LET z == cl[i] bef == ins[i] aft == ins[i+1]
            sheets == {x \in {z.c[j].n : j \in 1..Len(z.c)} : pr[ix[x]].s # << >>}
        IN IF (\E j \in 1..Len(z.c) : z.c[j].am) \/ Murky(z) THEN "any"
           ELSE IF Len(z.c) = 1
           THEN IF sheets = {} THEN (IF bef # aft THEN "cross" ELSE "none")
                ELSE IF InSolid(ix[z.c[1].n], z.lo)
                        /\ Holds(w, n, Inside(z.lo) \cup {z.c[1].n}) # bef
                     THEN "pair" ELSE "none"
           ELSE IF sheets # {} THEN "any" ELSE IF bef # aft THEN "odd" ELSE "even"
  IN IF m = 0 THEN << >>
     ELSE TLCEval([i \in 1..m |->
        [lo |-> cl[i].lo, hi |-> cl[i].hi, s |-> {cl[i].c[j].n : j \in 1..Len(cl[i].c)},
         k |-> Kind(i), en |-> ins[i+1], f |-> cl[i].c[1].f]])

\* the outward normal of leaf n (its own outside) of form f at the world point p
LeafNormal(w, n, f, p) ==
  LET inv == Inv(w[n].M) q == MPt(inv, p) IN
  VUnit(MTDir(inv, FGrad(IF f = 0 THEN w[n].sheet[1] ELSE w[n].forms[f], q)))
\* the form of leaf n on which the world point p lies, 0 for the sheet; -1 if that is not clear
OnForm(w, n, p) ==
  LET q == MPt(Inv(w[n].M), p)
      F == w[n].forms
      on(j) == LET g == FGrad(F[j], q) IN Le(Abs(FEval(F[j], q)), Mul(Dec(1,7), Max2(One, VMax(g))))
      S == {j \in 1..Len(F) : on(j)}
  IN IF w[n].sheet # << >> THEN (IF Near(FEval(w[n].sheet[1], q), Zero, Dec(1, 6)) THEN 0 ELSE -1)
     ELSE IF Cardinality(S) = 1 THEN CHOOSE j \in S : TRUE ELSE -1
================================================================================
