--------------------------------- MODULE Replay --------------------------------
(* Trace validation: every line of the log is one episode, a sequence of calls   *)
(* made on the real code with what they returned.  Each call is matched with the *)
(* action of the specification of that name; what was observed is compared with  *)
(* what the specification allows in the current state.  The verdict of every      *)
(* episode is printed by the action Done; episodes are independent of each other. *)
EXTENDS Blocks, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.LOG)

VARIABLES ep, l, st, bad, cnt
vars == <<ep, l, st, bad, cnt>>

Ev == Log[ep].ev
E == Ev[l]
\* w: the scene; ids: surface identities; pins: open pin contexts; mats: materials by name;
\* tr: tracers; rows, sys: recorded results by label, and of which components; lamps: what static lamps emitted; rs: ray sets
Start == [w |-> EmptyWorld, ids |-> << >>, pins |-> << >>, mats |-> Catalogue, tr |-> << >>,
          rows |-> << >>, sys |-> << >>, lamps |-> << >>, rs |-> << >>, asked |-> << >>, co |-> << >>, ry |-> << >>]

Init == /\ ep \in 1..Len(Log) /\ l = 1 /\ st = Start /\ bad = << >> /\ cnt = 0

\* the outcome of an event: new state, violated clauses, number of comparisons made
R(s, b, n) == TLCEval([s |-> s, b |-> b, n |-> n])
On(k, Res(_)) ==
  /\ l <= Len(Ev) /\ E.k = k
  /\ \E r \in {Res(E)} :
       /\ st' = r.s
       /\ bad' = bad \o SetToSeq({<<l, c>> : c \in r.b})
       /\ cnt' = cnt + r.n
       \* nothing more can be said after a call that should not have failed
       /\ l' = IF "x" \in DOMAIN E /\ ("exception " \o E.x) \in r.b THEN Len(Ev) + 1 ELSE l + 1
  /\ UNCHANGED ep

Ok(e) == If(e.x = "", "exception " \o e.x)
Bind(f, k, v) == TLCEval([x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]])
SetWorld(w) == [st EXCEPT !.w = w]
NewId(e) == If(e.id \notin DOMAIN st.ids, "id-reused")
WithId(w, e, m) == [st EXCEPT !.w = w, !.ids = Bind(st.ids, e.id, [o |-> e.n, m |-> m])]

\* --------------------------------------------------------------- scene actions
RNew(e) ==
  LET leaf == e.kind \in {"sphere", "cylinder", "paraboloid", "cuboid", "plane"}
      r == IF leaf THEN [Prim(e.kind, e.p, e.mat) EXCEPT !.own = e.n, !.sids = {e.id}]
           ELSE [Blank EXCEPT !.kind = e.kind]
  IN R(WithId(Put(st.w, e.n, r), e, e.mat), Ok(e) \cup NewId(e), 1)
RCsg(e) ==
  LET w == Combine(st.w, e.n, e.op, e.l, e.r) IN
  R(WithId(w, e, ""),
    Ok(e) \cup NewId(e)
          \cup If(ToSet(e.sids) = SidsOf(w, e.n) /\ Len(e.sids) = Cardinality(SidsOf(w, e.n)), "surface-ids"), 1)
RGroup(e) == R(WithId(NewGroup(st.w, e.n, e.items), e, ""), Ok(e) \cup NewId(e), 1)
RAppend(e) == R(SetWorld(Append1(st.w, e.n, e.m)), Ok(e), 0)
RRemove(e) == R(SetWorld(Remove1(st.w, e.n, e.m)), Ok(e), 0)
RTf(e) == LET m == CallMap(e) IN
  IF m = << >> THEN R(st, If(e.x # "", "not-rejected"), 1)
  ELSE R(SetWorld(Transform(st.w, e.n, m)), Ok(e), 0)
RInv(e) == R(SetWorld(Invert(st.w, e.n)), Ok(e), 0)
RRst(e) == R(SetWorld(ResetNormals(st.w, e.n)), Ok(e), 0)
RPin(e) == R([st EXCEPT !.pins = Append(@, TLCEval([i \in 1..Len(e.ns) |-> <<e.ns[i], st.w[e.ns[i]].M>>]))], Ok(e), 0)
RUnpin(e) == R([st EXCEPT !.w = Restore(st.w, st.pins[Len(st.pins)]), !.pins = Front(@)],
               If(e.got = e.exc, "exception-lost"), 1)

World == \/ On("new", RNew) \/ On("csg", RCsg) \/ On("group", RGroup)
         \/ On("append", RAppend) \/ On("remove", RRemove) \/ On("tf", RTf)
         \/ On("inv", RInv) \/ On("rst", RRst) \/ On("pin", RPin) \/ On("unpin", RUnpin)

\* ---------------------------------------------------------------- observations
RPose(e) == R(st, IF e.x # "" THEN Ok(e) ELSE PoseBad(st.w, e), 10)
RHits(e) ==
  IF e.x # "" THEN R(st, Ok(e), 1)
  ELSE LET w == st.w
           pr == Prep(w, e.n)
           v == TLCEval([i \in 1..Len(e.rays) |->
                  LET r == e.rays[i] IN RayBad(w, st.ids, e.n, pr, r[1], r[2], r[3], e.box)])
       IN R(st, UNION {v[i].b : i \in 1..Len(v)}, FoldLeft(LAMBDA a, x : a + x.n, 0, v))
RNrm(e) == R(st, IF e.x # "" THEN Ok(e) ELSE NormalAtBad(st.w, e.n, e.pts, e.nrm), Len(e.pts))
RIdent(e) == R(st, If(e.id \in DOMAIN st.ids /\ st.ids[e.id].o = e.n, "identity"), 1)
RFact(e) == R(st, If(e.ok, e.c), 1)

\* a question: as long as nothing is changed, the answer is the same
SameNum(a, b) == a = b \/ (Fin(a) /\ Fin(b) /\ RNear(a, b, Dec(1, 9)))
SameAnswer(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameNum(a[i], b[i])
RAsk(e) ==
  LET snap == << st.w, st.mats, st.tr >>
      again == e.q \in DOMAIN st.asked /\ st.asked[e.q].s = snap
      v == [s |-> snap, v |-> e.v, err |-> e.err]
  IN R([st EXCEPT !.asked = IF again THEN @ ELSE Bind(@, e.q, v)],
       If(e.same, "argument-changed")
       \cup (IF again THEN If(e.err = st.asked[e.q].err /\ SameAnswer(st.asked[e.q].v, e.v), "answer-changed") ELSE {}),
       IF again THEN Len(e.v) + 1 ELSE 1)

Observe == On("ask", RAsk) \/ On("pose", RPose) \/ On("hits", RHits) \/ On("nrm", RNrm) \/ On("ident", RIdent)
           \/ On("fact", RFact)

\* --------------------------------------------------------- parts and materials
RMat(e) == R([st EXCEPT !.mats = Bind(st.mats, e.n, e.m)], Ok(e), 0)
RSetMat(e) ==
  LET w == SetMat(st.w, e.n, e.m) IN
  R([st EXCEPT !.w = w, !.ids = TLCEval([i \in DOMAIN st.ids |->
       IF st.ids[i].o = e.n THEN [o |-> e.n, m |-> e.m] ELSE st.ids[i]])], Ok(e), 0)
RPart(e) ==
  IF e.x # "" THEN R(st, Ok(e), 1)
  ELSE LET S == {e.sids[i][1] : i \in 1..Len(e.sids)}
           new == TLCEval([i \in S |-> [o |-> e.n,
                     m |-> LET k == CHOOSE k \in 1..Len(e.sids) : e.sids[k][1] = i IN e.sids[k][2]]])
       IN R([st EXCEPT !.w = AddPart(st.w, e, S), !.ids = Bind(new @@ st.ids, e.id,
                    IF e.id \in S THEN new[e.id] ELSE [o |-> e.n, m |-> ""])],
            If(e.id \notin DOMAIN st.ids /\ S \cap DOMAIN st.ids = {} /\ Cardinality(S) = Len(e.sids), "id-reused")
            \cup PartMatsBad(e), 1)
RMTrace(e) == R(st, IF e.x # "" THEN Ok(e)
                    ELSE If(Len(e.a) = Len(e.b), "response-count")
                         \cup (IF Len(e.a) # Len(e.b) THEN {}
                               ELSE UNION {MTraceBad(st.w, st.mats, e.n, e.a[i], e.b[i]) : i \in 1..Len(e.a)}),
                Len(e.b))
RReflect(e) == R(st, IF e.x # "" THEN Ok(e)
                     ELSE IF Len(e.out) # Len(e.d) THEN {"reflect-law"}
                     ELSE UNION {ReflectBad(e.d[i], e.n[i], e.out[i]) : i \in 1..Len(e.d)}, Len(e.d))
RRefract(e) == R(st, IF e.x # "" THEN Ok(e)
                     ELSE IF Len(e.out) # Len(e.d) \/ Len(e.nout) # Len(e.d) THEN {"snell-law"}
                     ELSE UNION {RefractBad(e.d[i], e.n[i], e.n1[i], e.n2[i], e.ng, e.out[i], e.nout[i])
                                 : i \in 1..Len(e.d)}, Len(e.d))
RIndex(e) == LET m == st.mats[e.n] IN
  R(st, IF e.x # "" THEN Ok(e)
        ELSE If(e.shape, "index-shape")
             \cup If(Len(e.out) = Len(e.wl) /\ \A i \in 1..Len(e.out) :
                       Fin(e.out[i]) /\ Near(e.out[i], IndexAt(m, e.wl[i]), Dec(1, 9)), "index-value"), Len(e.wl))
RAbbe(e) == LET m == st.mats[e.n] a == Abbe(m) IN
  R(st, IF e.x # "" THEN Ok(e) ELSE If(Fin(e.out) /\ RNear(e.out, a, Dec(1, 6)), "abbe"), 1)

\* --------------------------------------------------------------------- sources
RSrc(e) == R(WithId(Put(st.w, e.n, [Blank EXCEPT !.kind = "other", !.src = e.src]), e, ""), Ok(e) \cup NewId(e), 1)
RSetWl(e) == R(SetWorld(Put(st.w, e.n, [st.w[e.n] EXCEPT !.src.wl = e.wl])), Ok(e) \cup If(e.got = e.wl, "wavelength-get"), 1)
REmit(e) == R(st, IF e.x # "" THEN Ok(e) ELSE EmitBad(st.w, e.n, e.cnt, e.rays), Len(e.rays) + 1)
\* e.mode: "fresh": new rays on each call; "same": the rays of the first call with the same count
RLamp(e) ==
  IF e.x # "" THEN R(st, Ok(e), 1)
  ELSE LET k == <<e.n, e.cnt>>
           seen == k \in DOMAIN st.lamps
           lb == LampBad(st.w, e.n, e.cnt, e.rays)
       IN IF "emit-finite" \in lb THEN R(st, lb, 1)
          ELSE LET loc == Localise(st.w, e.n, e.rays)
                   same == seen /\ Len(loc) = Len(st.lamps[k])
                           /\ SameLocalSeq(st.lamps[k], loc)
                   others == {x \in DOMAIN st.lamps : x # k /\ x[2] = k[2]}
                   rep == IF ~seen \/ e.cnt = 0 THEN {}
                          ELSE IF e.mode = "same" THEN If(same, "lamp-static") ELSE If(~same, "lamp-fresh")
                   shared == IF seen \/ e.cnt < 2 THEN {}
                             ELSE If(\A x \in others : ~SameLocalSeq(st.lamps[x], loc), "lamp-shared")
               IN R([st EXCEPT !.lamps = IF seen /\ e.mode = "same" THEN @ ELSE Bind(@, k, loc)],
                    lb \cup rep \cup shared \cup (IF e.spread THEN Spread(st.w, e.n, e.rays) ELSE {})
                       \cup (IF e.spread /\ Len(e.rays) >= 1000 THEN EvenBad(st.w, e.n, e.rays) ELSE {}),
                    Len(e.rays) + 1)

\* --------------------------------------------------------------------- tracers
TrOf(t) == st.tr[t]
SetTr(t, r) == [st EXCEPT !.tr = Bind(st.tr, t, r)]
RTracer(e) == R(SetTr(e.t, [srcs |-> e.srcs, comps |-> e.comps, nr |-> e.nr, lim |-> e.lim, thr |-> e.thr, off |-> Offset,
                            rows |-> << >>, ems |-> << >>, snap |-> << >>, unk |-> FALSE]), Ok(e), 0)
RSet(e) == R(SetTr(e.t, CASE e.f = "nr"  -> [TrOf(e.t) EXCEPT !.nr = e.v]
                          [] e.f = "lim" -> [TrOf(e.t) EXCEPT !.lim = e.v]
                          [] e.f = "thr" -> [TrOf(e.t) EXCEPT !.thr = e.v]
                          [] e.f = "off" -> [TrOf(e.t) EXCEPT !.off = e.v]), Ok(e), 0)
RGet(e) == R(st, Ok(e) \cup If(e.v = (IF e.f = "nr" THEN TrOf(e.t).nr ELSE TrOf(e.t).lim), "getter"), 1)
RLoad(e) == R(SetTr(e.t, [TrOf(e.t) EXCEPT !.comps = e.comps]), Ok(e), 0)
RSystem(e) == R(st, Ok(e) \cup If(e.v = TrOf(e.t).comps, "getter"), 1)
RReset(e) == R(SetTr(e.t, [TrOf(e.t) EXCEPT !.rows = << >>, !.ems = << >>, !.unk = FALSE]), Ok(e), 0)
\* what a source emits: predicted from its pattern, or logged for other sources
Emission(s, num, logged) ==
  IF st.w[s].src # << >> /\ st.w[s].src.k \in Patterned /\ ~PatternOpen(st.w[s].src, num)
  THEN TLCEval([i \in 1..num |-> LET p == LocalRay(st.w[s].src, i, num) M == st.w[s].M IN
         [o |-> MPt(M, p[1]), d |-> VUnit(MDir(M, p[2])), wl |-> st.w[s].src.wl, pw |-> Int2Fx(100), idx |-> One]])
  ELSE logged
RTrace(e) ==
  LET t == TrOf(e.t)
      ems == TLCEval([i \in 1..Len(t.srcs) |-> Emission(t.srcs[i], t.nr, e.em[i])])
      snap == << st.w, st.mats, t.srcs, t.comps, t.nr, t.lim, t.thr, t.off, ems >>
      rep == IF t.snap = snap THEN If(Len(t.rows) = Len(e.rows)
                   /\ \A i \in 0..(FoldLeft(LAMBDA a, s : a + Len(s), 0, ems) - 1) :
                        SameChain(SelectSeq(t.rows, LAMBDA r : RId(r) = i), SelectSeq(e.rows, LAMBDA r : RId(r) = i)), "repeatable")
             ELSE {}
      v == TraceBad([lim |-> t.lim, thr |-> t.thr, off |-> t.off, eps |-> IF e.ia = << >> THEN Dec(1, 9) ELSE Zero], st.w, st.ids, st.mats, t.comps, e.ia, ems, e.rows)
  IN IF e.x # "" THEN R(st, Ok(e), 1)
     ELSE R([SetTr(e.t, [t EXCEPT !.rows = e.rows, !.ems = ems, !.snap = snap, !.unk = FALSE]) EXCEPT !.rows = Bind(@, e.lab, e.rows),
                                                                                   !.sys = Bind(@, e.lab, t.comps)],
            v.b \cup (IF t.rows = << >> THEN {} ELSE rep), v.n)
\* a trace that was broken off by an exception of a material or a source: nothing is known about its rows
RFail(e) == R(SetTr(e.t, [TrOf(e.t) EXCEPT !.rows = << >>, !.ems = << >>, !.snap = << >>, !.unk = TRUE]),
              If(e.got = "Broken", "exception-lost"), 1)
RResults(e) == R(st, Ok(e) \cup If(TrOf(e.t).unk \/ e.rows = TrOf(e.t).rows, "results"), 1)
RHeld(e) == R(st, Ok(e) \cup If(e.rows = st.rows[e.lab], "held-results"), 1)
RSids(e) == R(st, IF e.x # "" THEN Ok(e) ELSE IF TrOf(e.t).unk THEN {} ELSE SourceIdsBad(TrOf(e.t).ems, TrOf(e.t).rows, e.v), Len(e.v))
RCmp(e) == R(st, PartBad(st.w, st.mats, st.sys[e.a], st.rows[e.a], st.rows[e.b], e.map), Len(e.map))

RShow(e) == R(st, IF e.x # "" THEN Ok(e)
                  ELSE ShowBad(e.view, e.mode, TrOf(e.t).rows, TrOf(e.t).ems, e.arrows, e.cols), Len(e.arrows) + 1)

\* --------------------------------------------------------------------- cameras
RCam(e) == R(st, IF e.x # "" THEN Ok(e) ELSE CamBad(st.w, e.n, e), Len(e.rays))
RShaded(e) == R(st, IF e.x # "" THEN Ok(e)
                    ELSE ShadedBad(st.w, st.mats, e.n, e.comps, e.lights, e.img) \cup If(e.same, "image-results"),
                Len(e.img))
REdges(e) == R(st, IF e.x # "" THEN Ok(e) ELSE EdgesBad(st.w, e.n, e.comps, e.img) \cup If(e.same, "image-results"),
               Len(e.img))
RDraw(e) == R(st, IF e.x # "" THEN Ok(e)
                  ELSE IF e.img = << >> THEN If(e.bounds = << >> /\ Unseen(st.w, e.view, e.comps), "drawing-missing")
                  ELSE ExtentBad(st.w, e.view, e.comps, e.ext, e.bounds, e.img) \cup
                       (IF e.shaded THEN DrawBad(st.w, st.mats, e.view, e.comps, e.ext, e.img)
                        ELSE DrawEdgesBad(st.w, e.view, e.comps, e.ext, e.img)), Len(e.img))

\* --------------------------------------------------------------------- utilities
RRgb(e) == R(st, IF e.x # "" THEN Ok(e) ELSE RgbBad(e.wl, e.out, e.p, e.q), Len(e.wl))
RLensmaker(e) == R(st, IF e.x # "" THEN Ok(e) ELSE LensmakerBad(e.r1, e.r2, e.n, e.t, e.f), 1)
RFocus(e) == R(st, IF e.x # "" THEN Ok(e) ELSE FocusBad(e.r1, e.r2, e.n, e.t, e.f, e.row), 1)
RMerge(e) == R(st, IF e.x # "" THEN Ok(e)
                   ELSE IF Len(e.out) # Len(e.a) THEN {"merge-length"}
                   ELSE UNION {MergeBad(e.op, e.a[i], e.b[i], e.out[i]) \cup SheetBad(e.op, e.a[i], e.b[i], e.out[i])
                               : i \in 1..Len(e.a)}, Len(e.out))

\* --------------------------------------------------------------------- ray sets
SetRs(n, s) == [st EXCEPT !.rs = Bind(st.rs, n, s)]
RRsNew(e) == R(SetRs(e.n, e.v),
               Ok(e) \cup If(Len(e.v) = e.len /\ \A i \in 1..Len(e.v) : LET f == FreshSet(e.len)[i] IN
                       \A x \in 1..13 : Fin(e.v[i][x]) /\ Near(e.v[i][x], f[x], Dec(1, 12)), "rayset-defaults"), 1)
\* a view shares the columns e.cols of its base; writing through one is seen by all
RRsWrite(e) == R(SetRs(e.n, WriteField(st.rs[e.n], e.f, e.cols, e.vals)), Ok(e), 0)
RRsCopy(e) == R(SetRs(e.n, TLCEval([i \in 1..Len(e.cols) |-> st.rs[e.from][e.cols[i]]])), Ok(e), 0)
RRsJoin(e) == R(SetRs(e.n, FlattenSeq([i \in 1..Len(e.from) |-> st.rs[e.from[i]]])), Ok(e), 0)
RRsLook(e) == R(st, Ok(e) \cup If(e.v = st.rs[e.n], "rayset-content"), Len(e.v))
\* what a field of the columns e.cols reads as
RRsRead(e) == R(st, Ok(e) \cup If(Len(e.v) = Len(e.cols) /\ \A i \in 1..Len(e.cols) :
                     LET F == Fields[e.f] IN \A x \in F : e.v[i][x - FieldOffset(e.f) + 1] = st.rs[e.n][e.cols[i]][x],
                     "rayset-field"), Len(e.v))

\* --------------------------------------------------------------- building blocks
RCoNew(e) == R([st EXCEPT !.co = Bind(@, e.n, OwnValue(NewValue(e.kind, e.args)))], Ok(e), 0)
RCoRay(e) ==
  R([st EXCEPT !.ry = Bind(@, e.r, << IF e.o = "" THEN DefaultRay[1] ELSE CoValue(st.co, st.ry, e.o),
                                      IF e.d = "" THEN DefaultRay[2] ELSE CoValue(st.co, st.ry, e.d) >>)], Ok(e), 0)
RCoView(e) == R([st EXCEPT !.co = Bind(@, e.n, [r |-> e.r, p |-> e.p, v |-> << >>])], Ok(e), 0)
\* sets one number of an object, or of the ray it is a view of
Store(s, n, v) == IF s.co[n].r = "" THEN [s EXCEPT !.co[n].v = v] ELSE [s EXCEPT !.ry[s.co[n].r][s.co[n].p] = v]
RCoPut(e) == R(Store(st, e.n, [CoValue(st.co, st.ry, e.n) EXCEPT ![e.i] = e.v]), Ok(e) \cup If(e.got = e.v, "block-field"), 1)
RCoAim(e) == R([st EXCEPT !.ry[e.r][e.p] = CoValue(st.co, st.ry, e.n)], Ok(e), 0)
RCoUnit(e) == IF e.x # "" THEN R(st, Ok(e), 1)
              ELSE R(Store(st, e.n, e.v), UnitBad(CoValue(st.co, st.ry, e.n), e.v) \cup If(e.me, "unit-self"), 4)
\* everything as it is read: all names, field by field, and all rays
RCoLook(e) == R(st, Ok(e) \cup If(/\ \A i \in 1..Len(e.co) : e.co[i][2] = CoValue(st.co, st.ry, e.co[i][1]) /\ e.co[i][3] = e.co[i][2]
                                  /\ \A i \in 1..Len(e.ry) : e.ry[i][2] = st.ry[e.ry[i][1]], "block-value"),
                4 * Len(e.co) + 8 * Len(e.ry))
RInDisk(e) == R(st, IF e.x # "" THEN Ok(e) ELSE IF Len(e.in) # Len(e.pts) THEN {"disk"}
                    ELSE UNION {InDiskBad(e.r, e.pts[i], e.in[i]) : i \in 1..Len(e.pts)}, Len(e.pts))
RInRect(e) == R(st, IF e.x # "" THEN Ok(e) ELSE IF Len(e.in) # Len(e.pts) THEN {"rectangle"}
                    ELSE UNION {InRectBad(e.a, e.b, e.pts[i], e.in[i]) : i \in 1..Len(e.pts)}, Len(e.pts))
RBox(e) == R(st, IF e.x # "" THEN Ok(e) ELSE BoxBad(e.pts, e.spans, e.corners), 11)
RRoots(e) == R(st, IF e.x # "" THEN Ok(e) ELSE IF Len(e.out) # Len(e.a) \/ Len(e.small) # Len(e.a) THEN {"roots"}
                   ELSE UNION {RootsBad(e.a[i], e.b[i], e.c[i], e.out[i][1], e.out[i][2])
                               \cup SmallestBad(e.a[i], e.b[i], e.c[i], e.small[i]) : i \in 1..Len(e.a)}, 2 * Len(e.a))
RDots(e) == R(st, IF e.x # "" THEN Ok(e) ELSE DotsBad(e.u, e.v, e.axis, e.out), Len(e.out))
\* a bundle of rays: n default rays without direction, or given ones side by side
RBundle(e) == R(st, Ok(e) \cup If(e.got = e.want, "bundle"), 1)

Building == \/ On("conew", RCoNew) \/ On("coray", RCoRay) \/ On("coview", RCoView) \/ On("coput", RCoPut)
            \/ On("coaim", RCoAim) \/ On("counit", RCoUnit) \/ On("colook", RCoLook) \/ On("indisk", RInDisk)
            \/ On("inrect", RInRect) \/ On("box", RBox) \/ On("roots", RRoots) \/ On("dots", RDots) \/ On("bundle", RBundle)

Optical == \/ On("mat", RMat) \/ On("setmat", RSetMat) \/ On("part", RPart) \/ On("mtrace", RMTrace)
           \/ On("reflect", RReflect) \/ On("refract", RRefract) \/ On("index", RIndex) \/ On("abbe", RAbbe)
           \/ On("src", RSrc) \/ On("setwl", RSetWl) \/ On("emit", REmit) \/ On("lamp", RLamp)
Tracers == \/ On("tracer", RTracer) \/ On("set", RSet) \/ On("get", RGet) \/ On("load", RLoad)
           \/ On("system", RSystem) \/ On("reset", RReset) \/ On("trace", RTrace) \/ On("fail", RFail) \/ On("results", RResults)
           \/ On("held", RHeld) \/ On("sids", RSids) \/ On("cmp", RCmp)
           \/ On("show", RShow)
Images == On("cam", RCam) \/ On("shaded", RShaded) \/ On("edges", REdges) \/ On("draw", RDraw)
Formulas == \/ On("rgb", RRgb) \/ On("lensmaker", RLensmaker) \/ On("focus", RFocus) \/ On("merge", RMerge)
            \/ On("rsnew", RRsNew) \/ On("rswrite", RRsWrite) \/ On("rscopy", RRsCopy) \/ On("rsjoin", RRsJoin)
            \/ On("rslook", RRsLook) \/ On("rsread", RRsRead)

Done ==
  /\ l = Len(Ev) + 1
  /\ PrintT("VERDICT " \o ToJson([ep |-> ep, bad |-> bad, cnt |-> cnt]))
  /\ l' = l + 1 /\ UNCHANGED <<ep, st, bad, cnt>>

Next == Building \/ World \/ Observe \/ Optical \/ Tracers \/ Images \/ Formulas \/ Done
Spec == Init /\ [][Next]_vars
================================================================================
