--------------------------------- MODULE Tracing -------------------------------
(* Ray tracing: the life of every ray of a trace.                                *)
(*                                                                              *)
(* A ray is emitted, then repeats: travel to the nearest crossing ahead (which   *)
(* makes a segment), interact with the material found there, and be displaced by *)
(* a tiny offset; it ends when nothing lies ahead, it is absorbed, too weak, or  *)
(* has made as many segments as allowed.  Segments are compared one by one; each *)
(* comparison starts from the observed end of the segment before, so that        *)
(* rounding does not accumulate.                                                 *)
EXTENDS Sources

Offset == Dec(1, 6)      \* unless it is changed
Strict == Dec(1, 7)      \* closer to the start than this: not decided
EndTol == Dec(2, 6)

\* rows are logged as <<gen, pw, wl, idx, id, surface, x0, x1, tilt>>: gen, id, surface are
\* integers (-1 if not a whole number), the others numbers and vectors
RGen(r) == r[1]  RPw(r) == r[2]  RWl(r) == r[3]  RIdx(r) == r[4]  RId(r) == r[5]
RSurf(r) == r[6] RFrom(r) == r[7] RTo(r) == r[8] RTilt(r) == r[9]
RowFin(r) == Fin(r[2]) /\ Fin(r[3]) /\ Fin(r[4]) /\ AllFin(r[7]) /\ AllFin(r[8]) /\ AllFin(r[9])

\* a component that is listed more than once is there once
Distinct(comps) == FoldLeft(LAMBDA acc, c : IF \E i \in 1..Len(acc) : acc[i] = c THEN acc ELSE Append(acc, c), << >>, comps)
PrepAll(w, comps) ==
  LET cs == Distinct(comps) IN TLCEval([c \in 1..Len(cs) |-> [n |-> cs[c], p |-> Prep(w, cs[c])]])
\* What lies ahead of o in direction d: [k |-> "none" | "hit" | "amb", z |-> zone, one |-> the
\* zone is that of a single face and clear of all other components]
Ahead(w, pa, o, d) ==
  LET zs(c) == SelectSeq(Zones(w, pa[c].n, pa[c].p, o, d), LAMBDA z : z.k # "none" /\ Le(Opp(Strict), z.hi))
      all == SortSeq(FlattenSeq(TLCEval([c \in 1..Len(pa) |-> zs(c)])), LAMBDA x, y : Lt(x.lo, y.lo))
  IN IF all = << >> THEN [k |-> "none"]
     ELSE LET z == all[1] IN
          IF Le(z.lo, Strict) \/ z.k \in {"even", "any"} THEN [k |-> "amb"]
          ELSE [k |-> "hit", z |-> z,
                one |-> z.k \in {"cross", "pair"} /\
                        (Len(all) = 1 \/ Lt(Mul(MergeTol, Rel(z.hi)), Sub(all[2].lo, z.hi)))]

\* The state of a ray between segments:
\* [o, d, pw, idx: position, direction, intensity, index; end: "" or the reason for which it
\*  has ended; amb: nothing more can be decided about it]
\* ia: what the materials were observed to do, a sequence of <<id, gen, d, pw, idx, material,
\* surface>>, or << >>
Seen(ia, id, gen) == SelectSeq(ia, LAMBDA x : x[1] = id /\ x[2] = gen)

\* after the segment row (travelling in medium s.idx etc.), hitting zone z
After(w, mats, row, z, one, ia) ==
  LET amb == [o |-> RTo(row), d |-> RTilt(row), pw |-> RPw(row), idx |-> RIdx(row), end |-> "", amb |-> TRUE]
      go(d, pw, idx) == [o |-> RTo(row), d |-> d, pw |-> pw, idx |-> idx, end |-> "", amb |-> FALSE]
      seen == Seen(ia, RId(row), RGen(row))
      x == CHOOSE y \in z.s : TRUE
  IN IF Len(seen) = 1 THEN
        (IF VNear(seen[1][3], Vzero, Dec(1,8)) THEN [amb EXCEPT !.end = "absorbed", !.amb = FALSE]
         ELSE go(VUnit(seen[1][3]), seen[1][4], seen[1][5]))
     ELSE IF ~one \/ ~Regular(w, x, z.f, RTo(row)) THEN amb
     ELSE LET m == mats[w[x].mat]
              n == SignedNormal(w, x, z.f, RTo(row))
              r == Response(m, RTilt(row), n, RWl(row), RIdx(row), RPw(row))
          IN IF r.k = "amb" \/ (z.k = "pair" /\ IsGlass(m)) THEN amb
             ELSE IF r.k = "dead" THEN [amb EXCEPT !.end = "absorbed", !.amb = FALSE]
             ELSE go(r.d, r.p, r.i)

\* the material that acted is the one that the surface has now
ActorBad(w, ids, ia, row, z, one) ==
  LET seen == Seen(ia, RId(row), RGen(row)) x == CHOOSE y \in z.s : TRUE IN
  IF Len(seen) > 1 THEN {"interaction-twice"}
  ELSE IF Len(seen) = 0 \/ ~one THEN {}
  ELSE If(seen[1][6] = w[x].mat /\ seen[1][7] \in DOMAIN ids /\ ids[seen[1][7]].o = w[x].own, "interaction-material")

\* cfg: [lim, thr, off, eps] limit, threshold, offset and how exactly intensities are known; pa: prepared
\* components
\* has the ray ended before its g-th segment (counted from 0)?
Ended(cfg, s, g) == IF s.end # "" THEN s.end
                    ELSE IF g >= cfg.lim THEN "limit"
                    ELSE IF Lt(s.pw, Sub(cfg.thr, cfg.eps)) THEN "weak" ELSE ""
Weakish(cfg, s) == Lt(Abs(Sub(s.pw, cfg.thr)), cfg.eps)

SegBad(cfg, pa, w, ids, mats, ia, acc, row) ==
  LET s == acc.s g == acc.g
      meta == If(RGen(row) = g, "chain-generation")
              \cup If(RowFin(row), "segment-finite")
      wl == If(RowFin(row) => Near(RWl(row), acc.wl, Dec(1,9)), "chain-wavelength")
  IN IF ~RowFin(row) THEN [acc EXCEPT !.b = @ \cup meta, !.s.amb = TRUE, !.g = g + 1]
     ELSE
     LET o == RFrom(row) d == RTilt(row)
         len == VDist(RTo(row), o)
         shape == If(Near(VNorm(d), One, Dec(1,8)), "tilt-unit")
                  \cup If(Lt(Dec(1,5), len) => VNear(VUnit(VSub(RTo(row), o)), d, Dec(1,5)), "tilt-direction")
         end == IF s.amb THEN "" ELSE Ended(cfg, s, g)
         lim == IF g >= cfg.lim THEN {"kept-limit"} ELSE {}
         from == IF s.amb THEN {}
                 ELSE If(LET e == VSub(o, s.o) a == Dot(e, s.d) IN
                           \/ g = 0 /\ VRNear(o, s.o, Dec(1,9))
                           \/ g > 0 /\ Le(Opp(Dec(1,9)), a) /\ Le(a, Mul(Dec(11,1), cfg.off))
                              /\ VNear(e, VScale(a, s.d), Mul(Dec(1,9), Add(One, VMax(o)))), "chain-start")
                      \cup If(VNear(d, s.d, Dec(1,6)), IF ia = << >> THEN "law-direction" ELSE "chain-direction")
                      \cup If(RNear(RPw(row), s.pw, Dec(1,9)), IF ia = << >> THEN "law-intensity" ELSE "chain-intensity")
                      \cup If(RNear(RIdx(row), s.idx, Dec(1,8)), IF ia = << >> THEN "law-index" ELSE "chain-index")
         dead == IF s.amb \/ end = "" \/ (end = "weak" /\ g = 0) THEN {} ELSE {"kept-" \o end}
         stop(b) == [acc EXCEPT !.b = @ \cup meta \cup wl \cup shape \cup lim \cup b, !.s.amb = TRUE, !.g = g + 1]
     IN IF s.amb /\ ~acc.live THEN stop({})
        ELSE IF dead # {} THEN stop(dead)
        ELSE
        LET h == Ahead(w, pa, o, d) IN
        IF h.k = "amb" THEN stop(from)
        ELSE IF h.k = "none" THEN stop(from \cup {"hit-phantom"})
        ELSE LET z == h.z
                 at == \E t \in {Dot(VSub(RTo(row), o), d)} :
                         Le(Sub(z.lo, Mul(EndTol, Rel(z.lo))), t) /\ Le(t, Add(z.hi, Mul(EndTol, Rel(z.hi))))
                 where == If(at, "hit-nearest")
                          \cup If(at /\ h.one => Lies(w, ids, z, RSurf(row)), "hit-attribution")
             IN IF where # {} THEN stop(from \cup where)
                ELSE [acc EXCEPT !.b = @ \cup meta \cup wl \cup shape \cup lim \cup from
                                             \cup ActorBad(w, ids, ia, row, z, h.one),
                                 !.s = After(w, mats, row, z, h.one, ia), !.g = g + 1,
                                 !.live = TRUE, !.n = @ + 1]

\* em: the emitted ray [o, d, wl, pw, idx]
RayTraceBad(cfg, pa, w, ids, mats, ia, em, rows) ==
  LET s0 == [o |-> em.o, d |-> em.d, pw |-> em.pw, idx |-> em.idx, end |-> "", amb |-> FALSE]
      fold == FoldLeft(LAMBDA acc, r : SegBad(cfg, pa, w, ids, mats, ia, acc, r),
                       [s |-> s0, g |-> 0, b |-> {}, n |-> 0, wl |-> em.wl, live |-> FALSE], rows)
      s == fold.s
      lost == IF s.amb \/ Ended(cfg, s, fold.g) # "" \/ Weakish(cfg, s) THEN {}
              ELSE LET o == IF fold.g = 0 THEN s.o ELSE At(s.o, s.d, cfg.off)
                   IN If(Ahead(w, pa, o, s.d).k # "hit", "lost")
      \* the first segment repeats what was emitted
      first == IF rows = << >> \/ ~RowFin(rows[1]) THEN {}
               ELSE LET r == rows[1] IN
                    If(VRNear(RFrom(r), em.o, Dec(1,9)), "first-position")
                    \cup If(VNear(RTilt(r), em.d, Dec(1,8)), "first-direction")
                    \cup If(Near(RWl(r), em.wl, Dec(1,9)), "first-wavelength")
                    \cup If(Near(RPw(r), em.pw, Dec(1,9)), "first-intensity")
                    \cup If(Near(RIdx(r), em.idx, Dec(1,9)), "first-index")
  IN [b |-> fold.b \cup lost \cup first, n |-> fold.n + 1]

\* the rows of every ray, in order
RowsOf(rows, n) == FoldLeft(LAMBDA acc, r : IF RId(r) \in 0..(n-1) THEN [acc EXCEPT ![RId(r) + 1] = Append(@, r)] ELSE acc,
                            TLCEval([i \in 1..n |-> << >>]), rows)
\* ems: one sequence of emitted rays per source
TraceBad(cfg, w, ids, mats, comps, ia, ems, rows) ==
  LET em == FlattenSeq(ems)
      pa == PrepAll(w, comps)
      bad == If(\A i \in 1..Len(rows) : RId(rows[i]) \in 0..(Len(em)-1), "ids")
      of == RowsOf(rows, Len(em))
      v == TLCEval([i \in 1..Len(em) |-> RayTraceBad(cfg, pa, w, ids, mats, ia, em[i], of[i])])
  IN [b |-> bad \cup UNION {v[i].b : i \in 1..Len(v)}, n |-> FoldLeft(LAMBDA a, x : a + x.n, 0, v)]

\* ----------------------------------------------- source attribution and comparison
Owners(ems) == TLCEval(FlattenSeq([k \in 1..Len(ems) |-> [j \in 1..Len(ems[k]) |-> k - 1]]))
\* index (from 0) of the source that emitted ray id
SourceOf(own, id) == IF id + 1 \in DOMAIN own THEN own[id + 1] ELSE -1
SourceIdsBad(ems, rows, sids) ==
  LET own == Owners(ems) IN
  If(Len(sids) = Len(rows) /\ \A i \in 1..Len(rows) : sids[i] = SourceOf(own, RId(rows[i])), "source-ids")

\* rounding differences grow with every interaction
CmpTol(g) == Dec(1, IF g < 4 THEN 9 - g ELSE 5)
ValTol == Dec(1, 10)
SameSeg(a, b) ==
  /\ RGen(a) = RGen(b) /\ RSurf(a) = RSurf(b) /\ RowFin(a) /\ RowFin(b)
  /\ RNear(RPw(a), RPw(b), ValTol) /\ RNear(RWl(a), RWl(b), ValTol) /\ RNear(RIdx(a), RIdx(b), ValTol)
  /\ LET tol == CmpTol(RGen(a)) IN
     VRNear(RFrom(a), RFrom(b), tol) /\ VRNear(RTo(a), RTo(b), tol) /\ VNear(RTilt(a), RTilt(b), tol)
SameChain(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : SameSeg(A[i], B[i])
\* Rounding decides about rays that start on a surface, run along one or meet a critical angle;
\* is that so where the segments A and B of a ray first differ?
Undecided(w, mats, comps, A, B) ==
  LET k == CHOOSE k \in 1..(Len(A) + Len(B)) :
             /\ k > Len(A) \/ k > Len(B) \/ ~SameSeg(A[k], B[k])
             /\ \A j \in 1..(k-1) : j <= Len(A) /\ j <= Len(B) /\ SameSeg(A[j], B[j])
      r == IF k <= Len(A) THEN A[k] ELSE B[k]
      pa == PrepAll(w, comps)
      amb(x) == RowFin(x) /\ Ahead(w, pa, RFrom(x), RTilt(x)).k = "amb"
      bent(x) == LET h == Ahead(w, pa, RFrom(x), RTilt(x)) IN
                 h.k = "amb" \/ (h.k = "hit" /\ After(w, mats, x, h.z, h.one, << >>).amb)
  IN amb(r) \/ (k > 1 /\ RowFin(A[k-1]) /\ bent(A[k-1]))
\* ray i of the partial trace is ray map[i] of the whole
PartBad(w, mats, comps, whole, part, map) ==
  If(\A i \in 1..Len(map) :
       LET A == SelectSeq(whole, LAMBDA r : RId(r) = map[i])
           B == SelectSeq(part, LAMBDA r : RId(r) = i - 1)
       IN SameChain(A, B) \/ Undecided(w, mats, comps, A, B), "independence")
================================================================================
