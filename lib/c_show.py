"""Scenarios for what is shown of a trace (C25)."""
import numpy as np

import gen
import vp
from c_trace import Bench, Session

MODES = ("", "", "wavelength", "source", "source")


def solid(b):
    """a component that can be drawn: leaves and combinations of two of them"""
    e, g = b.e, b.g
    if g.chance(0.75):
        n, aims = b.leaf(g.one(gen.SOLIDS))
    else:
        (l, a), (r, c) = b.leaf(g.one(gen.SOLIDS)), b.leaf(g.one(gen.SOLIDS))
        for x in (l, r):
            g.near(e, x, 0.7)
        n, aims = b.name("c"), a + c
        e.csg(n, g.one(("union", "intersect", "difference")), l, r)
    g.near(e, n, 0.5)
    e.move(n, (g.u(-4, 4), g.u(-2, 2), g.u(-2, 2)))
    b.comps.append(n)
    b.aims += aims
    return n


def window(e, comps, view, g):
    """bounds that the drawing can be judged with, if any"""
    pts = np.hstack([np.asarray(e.o[c].bounding_volume.bounding_points)[:3] for c in comps])
    pts = pts[:, np.isfinite(pts).all(axis=0)]
    if not pts.size or g.chance(0.3):
        bounds = ((-5.0 - g.u(0, 2), -3.0, -3.0 - g.u(0, 2)), (5.0 + g.u(0, 2), 3.0, 3.0 + g.u(0, 2)))
        return bounds
    return None


def show(e, g, t, comps, mode=None, judged=None):
    view = g.one(("xy", "xz"))
    bounds = window(e, comps, view, g)
    k = {"resolution": int(g.one((24, 33)))}
    judged = g.chance(0.4) if judged is None else judged
    if not judged and g.chance(0.3):
        k["shaded"] = True
    e.show(t, view, g.one(MODES) if mode is None else mode, axis=g.chance(0.6), width=g.one((0.01, 0.05, 0.3)),
           bounds=bounds, judged=judged, **k)


class Shows(Session):
    def fill(self):
        for _ in range(4):
            solid(self.b)

    def op(self, a, t):
        if a == "show":
            show(self.e, self.g, t, self.conf[t]["comps"])
            if self.g.chance(0.4):
                self.e.results(t)


def c25(ctx):
    ctx.model("Session", "MC_Session.cfg" if not ctx.scale(0, 1) else "MC_Session_deep.cfg", timeout=3000)
    ctx.faulty("Session", "MC_Session_stale.cfg", "Drawn")
    out = ctx.model("Session", "Sim_Show.cfg", simulate=ctx.scale(60, 800), depth=20)
    for i, ops in enumerate(vp.printed(out, "SCRIPT")):
        with ctx.episode("session", i) as (e, g):
            s = Shows(e, g)
            s.run(ops)
            for t in ("t1", "t2"):
                e.trace(t, s.label("r"), observe=True)
                show(e, g, t, s.conf[t]["comps"])
    for i in range(ctx.scale(50, 500)):
        with ctx.episode("sources", i) as (e, g):
            b = Bench(e, g)
            for _ in range(int(g.r.integers(1, 4))):
                solid(b)
            srcs = []
            for j in range(int(g.r.integers(1, 6))):
                n = "s%d" % j
                k = g.one(("fixed", "line", "circle", "cone", "wedge", "static"))
                if k == "fixed":
                    m = int(g.r.integers(0, 5))
                    e.fixed(n, b.rays(m), g.one((None, np.zeros(m), g.r.permutation(m))))
                elif k == "static":
                    e.source(n + "x", k, g.u(0, 2), g.u(0, 2), g.u(1, 80), wl=g.u(0.4, 0.7))
                    g.rigid(e, n + "x", 2, 2)
                    e.recorded(n, n + "x")
                else:
                    e.source(n, k, g.u(0.2, 2) if k in ("line", "circle") else g.u(5, 60), wl=g.u(0.4, 0.7))
                    g.rigid(e, n, 2, 2)
                srcs.append(n)
            how = g.one((None, None, "tuple"))
            e.tracer("t", srcs, b.comps, nr=int(g.one((2, 3, 6))), lim=g.one((0, 1, 3, 6)), group=how)
            if g.chance(0.3):
                show(e, g, "t", b.comps)
            l = "r1"
            e.trace("t", l, observe=True)
            for m in g.r.permutation(("", "wavelength", "source")):
                show(e, g, "t", b.comps, str(m))
            # what is set or moved now concerns the next trace
            for n in list(b.comps) + [x for x in srcs if x in e.o]:
                if g.chance(0.3) and hasattr(e.o[n], "move_x"):
                    g.rigid(e, n, 1, 0.5)
            if g.chance(0.5):
                e.set("t", "nr", int(g.one((2, 5, 9))))
            show(e, g, "t", b.comps, "source")
            e.sids("t")
            e.results("t")
            e.held(l)
    for i in range(ctx.scale(8, 80)):         # many sources, many rays
        with ctx.episode("many", i) as (e, g):
            b = Bench(e, g)
            for _ in range(2):
                solid(b)
            srcs = []
            for j in range(int(g.one((1, 12, 30, 60)))):
                n = "s%d" % j
                e.source(n, g.one(("line", "circle", "cone", "wedge")), g.u(0.2, 2), wl=g.u(0.4, 0.7))
                e.move(n, g.vec(1))
                srcs.append(n)
            e.prim("room", "sphere", (30.0,), e.mats["a"])
            e.tracer("t", srcs, b.comps + ["room"], nr=2 if len(srcs) > 1 else int(g.one((60, 300))), lim=2)
            e.trace("t", "r1")
            for m in ("source", "wavelength"):
                show(e, g, "t", b.comps, m, judged=False)
