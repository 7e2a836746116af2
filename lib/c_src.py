"""Scenarios for sources, lamps, images, formulas, identities and ray sets (C20 to C24)."""
import numpy as np

import gen
import vp
from gen import unit


# ---------------------------------------------------------------- C20: sources
def pattern(g):
    k = g.one(("line", "circle", "cone", "wedge"))
    if k in ("line", "circle"):
        return k, g.one((1.0, g.u(0.1, 4), 0.0, g.u(0.1, 4)))
    return k, g.one((30.0, g.u(0.5, 89), g.u(0.5, 89), 0.0, 90.0, g.u(90, 179)) + ((360.0, 180.0) if k == "wedge" else ()))


def c20(ctx):
    for i in range(ctx.scale(120, 1500)):
        with ctx.episode("source", i) as (e, g):
            for j in range(3):
                n = "s%d" % j
                e.source(n, *pattern(g), wl=g.one((None, g.u(0.3, 1.5), 10.0 ** g.u(-3, 3))))
            names = ["s0", "s1", "s2"]
            if g.chance(0.4):
                e.group("grp", names)
            for _ in range(10):
                c = g.r.random()
                n = g.one(names)
                if c < 0.25:
                    g.step(e, n)
                elif c < 0.35 and "grp" in e.o:
                    g.step(e, "grp")
                elif c < 0.45:
                    e.setwl(n, g.one((g.u(0.3, 1.5), 10.0 ** g.u(-3, 3))))
                elif c < 0.5:
                    def body():
                        g.step(e, n)
                        e.emit(n, g.one((2, 5)))
                    e.pin([n], body)
                e.emit(n, int(g.one((1, 2, 3, 4, 7, 11, 24))), spoil=g.chance(0.5))
                if g.chance(0.3):
                    e.emit(n, int(g.one((2, 3, 5))), spoil=g.chance(0.5))
            for n in names:
                e.emit(n, 6)
    with ctx.episode("many") as (e, g):
        for j, k in enumerate(("line", "circle", "cone", "wedge")):
            e.source("m%d" % j, k, 20.0)
            e.emit("m%d" % j, 150)


# ---------------------------------------------------------------- C21: lamps
def c21(ctx):
    ctx.model("Lamps", ctx.scale("MC_Lamps.cfg", "MC_Lamps_deep.cfg"), timeout=3000)
    ctx.faulty("Lamps", "MC_Lamps_aliased.cfg", "Intact", "Places")
    ctx.faulty("Lamps", "MC_Lamps_shared.cfg", "Own")
    out = ctx.model("Lamps", "Sim_Lamps.cfg", simulate=ctx.scale(150, 2000), depth=30)
    for i, ops in enumerate(vp.printed(out, "SCRIPT")):
        with ctx.episode("script", i) as (e, g):
            same = g.chance(0.4)           # equal lamps
            size = (g.u(0.1, 3), g.u(0.1, 3), g.one((10.0, 90.0, g.u(1, 90))))
            for j in range(1, 5):
                s = size if same else (g.one((0.0, g.u(0.1, 3))), g.one((0.0, g.u(0.1, 3))), g.one((90.0, g.u(1, 90), g.u(0.5, 20))))
                e.source("l%d" % j, "static" if j < 4 else "lamp", *s, wl=g.u(0.4, 0.8))
            for op in ops:
                a = op["a"]
                n = "l%d" % op["l"] if "l" in op else None
                if a == "emit":
                    e.emit(n, op["c"], lamp="same" if op["l"] < 4 else "fresh")
                elif a == "spoil":
                    e.ruin(op["i"] - 1)
                elif a == "move":
                    g.rigid(e, n, 1, 3) if g.chance(0.7) else g.near(e, n, 3)
                elif a == "colour":
                    e.setwl(n, g.one((g.u(0.4, 0.8), 10.0 ** g.u(-3, 3))))
    for i in range(ctx.scale(40, 400)):
        with ctx.episode("extent", i) as (e, g):
            k = g.one(("lamp", "static"))
            e.source("l", k, g.one((g.u(0.1, 3), g.u(0.1, 3), 5.0)), g.u(0.1, 3), g.one((90.0, 45.0, g.u(2, 90))), wl=g.u(0.4, 0.8))
            e.emit("l", 150, lamp="same" if k == "static" else "fresh", spread=True)
            for _ in range(int(g.r.integers(1, 4))):
                g.step(e, "l")
            e.emit("l", 150, lamp="same" if k == "static" else "fresh", spread=True)
            e.emit("l", int(g.one((0, 1, 2))), lamp="same" if k == "static" else "fresh")
    for i in range(3 if not vp.THOROUGH else 20):
        with ctx.episode("many counts", i) as (e, g):       # rays for many counts, then for the first ones again
            e.source("l", "static", g.u(0.1, 3), g.u(0.1, 3), g.u(5, 90))
            e.source("k", "static", g.u(0.1, 3), g.u(0.1, 3), g.u(5, 90))
            first = [int(x) for x in g.r.permutation(12)[:3] + 2]
            for n in "lk":
                for c in first:
                    e.emit(n, c, lamp="same")
            e.quiet("l", (20, 150, 1100)[i % 3])
            for n in "lk":
                for c in first:
                    e.emit(n, c, lamp="same")
    for i in range(4 if not vp.THOROUGH else 40):
        with ctx.episode("evenly", i) as (e, g):
            k = g.one(("lamp", "static"))
            e.source("l", k, g.u(0.1, 5), g.u(0.1, 5), (90.0, 60.0, 30.0, g.u(2, 90))[i % 4], wl=g.u(0.4, 0.8))
            g.rigid(e, "l", int(g.r.integers(0, 3)), 3)
            e.emit("l", 1500 if not vp.THOROUGH else 4000, lamp="same" if k == "static" else "fresh", spread=True)


# ---------------------------------------------------------------- C22: images
def painted(e, g, n, flat=False):
    """a material for rendering"""
    col = lambda: tuple(float(x) for x in g.r.uniform(0, 1, 3)) + ((1.0,) if g.chance(0.7) else (g.u(0.2, 1),))
    b = col()
    w, c = (b, b) if flat else (col(), col())
    return e.material(n, "gooch", b, w, c, (g.one((0.3, g.u(0, 1))), g.one((0.3, g.u(0, 1)))))


def objects(e, g, count, flat=False, sheets=0.15, spread=1.6):
    names, aims = [], []
    for j in range(count):
        n = "c%d" % j
        if g.chance(0.3):
            m = [painted(e, g, "%sm%d" % (n, q), flat) for q in range(2)]
            ks = [g.one(gen.SOLIDS) for _ in range(2)]
            ps = [g.params(k) for k in ks]
            for s, k, p, mm in zip("lr", ks, ps, m):
                e.prim(n + s, k, p, mm)
                g.near(e, n + s, 0.7)
            e.csg(n, g.one(("union", "intersect", "difference")), n + "l", n + "r")
        elif g.chance(0.2):                  # many in a row
            last, q = None, int(g.r.integers(3, 6))
            for i in range(q):
                k = "%sk%d" % (n, i)
                e.prim(k, "sphere", (g.u(0.2, 0.5),), painted(e, g, k + "m", flat))
                e.move(k, (i - q / 2, g.u(-.2, .2), g.u(-.2, .2)))
                if last:
                    c = n if i == q - 1 else "%sj%d" % (n, i)
                    e.csg(c, "union", *g.one(((last, k), (k, last))))
                    k = c
                last = k
        else:
            k = "plane" if g.chance(sheets) else g.one(gen.SOLIDS)
            e.prim(n, k, g.params(k, big=k == "plane" and not flat), painted(e, g, n + "m", flat))
            g.near(e, n, 0.5)
        e.move(n, g.vec(spread))
        names.append(n)
    return names


def nothing(e, g, n):
    """a component (partly) made of nothing"""
    m = painted(e, g, n + "m", True)
    for s in "lr":
        k = g.one(gen.SOLIDS)
        e.prim(n + s, k, g.params(k), m)
    v = np.zeros(3)
    v[int(g.r.integers(3))] = g.one((-9.0, 9.0))
    e.move(n + "r", tuple(v))
    c = g.r.random()
    e.csg(n if c < 0.4 else n + "e", "intersect", n + "l", n + "r")
    if c >= 0.4:
        k = g.one(gen.SOLIDS)
        e.prim(n + "w", k, g.params(k), m)
        g.near(e, g.one((n + "w", n + "e")), 0.5)
        e.csg(n, "union" if c < 0.8 else "difference", *g.one(((n + "w", n + "e"), (n + "e", n + "w"))))
    if g.chance(0.6):
        g.near(e, n, 0.5)
    return n


def layers(e, g):
    """sheets and slabs close behind each other, in any order"""
    names, x = [], 0.0
    for j in range(int(g.r.integers(2, 6))):
        n = "c%d" % j
        m = painted(e, g, n + "m")
        if g.chance(0.6):
            w = 0.0
            e.prim(n, "plane", (g.u(1, 5), g.u(1, 5)), m)
            e.rot(n, 2, 90.0)
        else:
            w = 10.0 ** -g.u(0, 4)
            e.prim(n, "cuboid", (0.0, -g.u(.5, 2), -g.u(.5, 2), w, g.u(.5, 2), g.u(.5, 2)), m)
        e.move(n, (x, g.u(-1, 1), g.u(-1, 1)))
        x += w + 10.0 ** -g.u(1, 4.5)
        names.append(n)
    return [str(v) for v in g.r.permutation(names)]


def lights(g, k=None):
    k = k or int(g.one((1, 1, 2, 3)))
    return [tuple(float(x) for x in unit(g.dir()) * g.u(8, 30)) for _ in range(k)]


def c22(ctx):
    for i in range(ctx.scale(60, 600)):
        with ctx.episode("camera", i) as (e, g):
            for j in range(3):
                n = "k%d" % j
                nh = int(g.one((2, 3, 5, 8, 13)))
                asp = g.one((1.0, 2.0, 1.5, max(0.5, 2.0 / nh) + 1e-9, g.u(max(0.4, 2.0 / nh) + 1e-9, 3)))
                e.camera(n, nh, g.u(0.3, 8), asp)
                e.camrays(n)
                for _ in range(int(g.r.integers(1, 4))):
                    g.step(e, n)
                    e.camrays(n)
    for i in range(ctx.scale(110, 1100)):
        with ctx.episode("image", i) as (e, g):
            flat = i % 4 == 0
            comps = layers(e, g) if flat else objects(e, g, int(g.r.integers(1, 5)))
            nh = int(g.one((9, 12, 14)))
            e.camera("k", nh, g.u(2, 6), g.one((1.0, 0.6, 1.4)))
            for _ in range(2):
                # look at the scene from outside, or from within it
                if flat and g.chance(0.7):
                    e.move("k", (-g.one((8.0, 3.0, 0.3)), 0.0, 0.0))
                    e.rot("k", 3, g.one((0.0, 180.0, g.u(-40, 40))))
                    e.shaded("k", comps, lights(g))
                if g.chance(0.6):
                    e.move("k", (-g.one((8.0, 3.0, 0.0)), g.u(-.5, .5), g.u(-.5, .5)))
                e.rot("k", int(g.r.integers(1, 4)), g.angle())
                if g.chance(0.5):
                    e.rot("k", int(g.r.integers(1, 4)), g.angle())
                e.shaded("k", comps, lights(g))
                e.edges("k", comps)
                n = g.one(comps)
                g.mild(e, n)
                if g.chance(0.3):
                    e.inv(n)
                if g.chance(0.3):
                    painted(e, g, "new")
                    leaf = g.one([x for x in e.o if x.startswith(n) and hasattr(e.o[x], "material") and not hasattr(e.o[x], "l")
                                  and x in [n, n + "l", n + "r"] + [n + "k%d" % q for q in range(9)]
                                  and not (x == n and (n + "l" in e.o or n + "k0" in e.o))])
                    e.setmat(leaf, e.mats["new"])
                comps = [str(x) for x in g.r.permutation(comps)]
    for i in range(ctx.scale(20, 200)):         # scenes of any size, from any distance
        with ctx.episode("size", i) as (e, g):
            c = 10.0 ** g.one((g.u(-2, 0), 0.0, g.u(0, 2)))
            if i % 7 == 0:
                e.many(g.one((300, 33000, 70000)))
            comps = layers(e, g) if i % 4 == 0 else objects(e, g, int(g.r.integers(1, 5)))
            for n in comps:
                e.scale(n, (c, c, c), via=3)
            e.camera("k", int(g.one((9, 12))), c * g.u(2, 6), g.one((1.0, 0.6)))
            far = 10.0 ** g.u(-1, 3)
            e.move("k", (-max(far, 8 * c) if g.chance(0.7) else -far, 0.0, 0.0))
            e.rot("k", int(g.r.integers(1, 4)), g.angle())
            e.shaded("k", comps, [tuple(max(c, 1.0) * x for x in v) for v in lights(g)])
            e.edges("k", comps)
    for i in range(ctx.scale(12, 120)):         # larger images, as strips of two or three rows or columns
        with ctx.episode("strip", i) as (e, g):
            comps = objects(e, g, int(g.r.integers(1, 4)), spread=1.0)
            m, k = int(g.one((60, 100, 130, 299, 301, 640) if i % 6 == 0 else (60, 90, 130))), int(g.one((2, 3)))
            wd = g.u(3, 8)
            if g.chance(0.5):
                e.camera("k", m, wd, (k + 0.01) / m)
            else:
                e.camera("k", k, wd * k / m, (m + 0.01) / k)
            e.move("k", (-9.0, 0.0, 0.0))
            e.rot("k", int(g.r.integers(1, 4)), g.angle())
            e.edges("k", comps)
            if m < 200:
                e.shaded("k", comps, lights(g))
    for i in range(ctx.scale(70, 700)):
        with ctx.episode("drawing", i) as (e, g):
            comps = objects(e, g, int(g.r.integers(1, 4)), flat=True, sheets=g.one((0.0, 0.0, 0.5)))
            if g.chance(0.25):
                comps.insert(int(g.r.integers(len(comps) + 1)), nothing(e, g, "none"))
            elif g.chance(0.25):            # together with nothing
                k = int(g.r.integers(len(comps)))
                a, b = [str(x) for x in g.r.permutation([comps[k], nothing(e, g, "none")])]
                comps[k] = comps[k] + "u"
                e.csg(comps[k], "union", a, b)
            view = g.one(("xy", "xz"))
            pts = np.hstack([np.asarray(e.o[c].bounding_volume.bounding_points)[:3] for c in comps])
            pts = pts[:, np.isfinite(pts).all(axis=0)]      # nothing is seen of empty components
            if not pts.size:
                continue
            lo, hi = pts.min(axis=1), pts.max(axis=1)
            bounds = None
            if g.chance(0.5):
                w = hi - lo
                f = g.r.uniform(-.1, g.one((.5, 2.0)), (2, 3))
                bounds = (tuple(float(x) for x in lo - f[0] * w), tuple(float(x) for x in hi + f[1] * w))
                lo, hi = np.array(bounds[0]), np.array(bounds[1])
            a = (hi - lo)[[0, 1 if view == "xy" else 2]]
            e.draw(comps, view, shaded=g.chance(0.6), bounds=bounds, resolution=int(g.one((24, 33))))


    for i in range(ctx.scale(24, 240)):         # next to nothing, or nothing at all
        with ctx.episode("thin drawing", i) as (e, g):
            comps, kind = [], g.one(("none", "empty", "sheet", "sheet", "sliver", "sliver", "needle"))
            if kind == "empty":
                comps = [nothing(e, g, "none")]
            for j in range(0 if kind in ("none", "empty") else int(g.r.integers(1, 3))):
                n = "c%d" % j
                if kind == "sheet":
                    e.prim(n, "plane", (g.u(0.5, 3), g.u(0.5, 3)), painted(e, g, n + "m", True))
                    e.rot(n, int(g.r.integers(1, 4)), float(g.one((0, 90, 90, 180, 270))))
                else:
                    a = np.ones(3) * g.u(0.5, 2) if kind == "sliver" else np.full(3, 10.0 ** -g.u(1, 4))
                    a[int(g.r.integers(3))] = 10.0 ** -g.u(1, 4) if kind == "sliver" else g.u(0.5, 5)
                    e.prim(n, "cuboid", [float(v) for v in (*(-a / 2), *(a / 2))], painted(e, g, n + "m", True))
                if g.chance(0.4):
                    e.move(n, g.vec(2))
                comps.append(n)
            bounds = None
            if g.chance(0.15 if comps else 0.4):
                lo = g.r.uniform(-3, 0, 3)
                hi = lo + np.where(g.r.random(3) < 0.3, 0.0, g.r.uniform(0, 4, 3))
                bounds = (tuple(map(float, lo)), tuple(map(float, hi)))
            e.draw(comps, g.one(("xy", "xz")), shaded=g.chance(0.5), bounds=bounds, resolution=int(g.one((24, 33))))


# ---------------------------------------------------------------- C23: formulas
def power(r1, r2, n, t):
    c = [0 if np.isinf(x) else 1 / x for x in (r1, r2)]
    return (n - 1) * (c[0] - c[1] + (n - 1) * t * c[0] * c[1] / n)


def c23(ctx):
    with ctx.episode("grid") as (e, g):
        e.rgb(np.arange(0.3, 0.85, 0.005))
        e.rgb(np.array([0.38, 0.44, 0.49, 0.51, 0.58, 0.645, 0.75]))
        e.rgb(np.arange(0.3, 0.85, 0.02), 1, 1)
    for i in range(ctx.scale(60, 600)):
        with ctx.episode("colour", i) as (e, g):
            limits = np.array((0.38, 0.44, 0.49, 0.51, 0.58, 0.645, 0.75))
            w = np.concatenate((g.r.uniform(0.2, 1.2, 8), g.r.uniform(0.37, 0.76, 20), limits,
                                limits + g.r.uniform(-2e-3, 2e-3, 7), np.nextafter(limits, 0), np.nextafter(limits, 1)))
            w = g.r.permutation(w)
            p, q = g.one(((4, 5), (4, 5), (1, 1), (1, 2), (2, 1), (3, 4)))
            e.rgb(w, p, q)
            for x in w[:5]:
                e.rgb(float(x), p, q)
            e.rgb([float(x) for x in w[:3]], p, q)
            if g.chance(0.15):
                e.rgb(g.r.permutation(np.tile(w, 6)), p, q)
            if g.chance(0.2):
                import pandas as pd
                e.rgb(pd.Series(w[:6]), p, q)
    for i in range(ctx.scale(60, 600)):
        with ctx.episode("lens", i) as (e, g):
            for _ in range(25):
                r = [np.inf if g.chance(0.2) else g.one((1, -1)) * g.one((g.u(0.2, 50), 10.0, 10.0 ** g.u(-1, 3))) for _ in range(2)]
                n, t = g.one((1.5, g.u(1.1, 4))), g.one((0.0, 1.0, g.u(0.01, 5), 10.0 ** g.u(-3, 2.5)))
                if abs(power(*r, n, t)) > 1e-9:        # otherwise there is no focal length
                    e.lensmaker(*r, n, t)
            for _ in range(4):
                r = [g.one((1, -1)) * g.u(4, 30) if g.chance(0.8) else np.inf for _ in range(2)]
                n, t = g.u(1.3, 2.2), g.u(0.8, 1.6)
                if abs(power(*r, n, t)) > 0.008:
                    e.focus(*r, n, t, 2e-3)


# ---------------------------------------------------------------- C24: identities and ray sets
def c24(ctx):
    ctx.model("RaySets", ctx.scale("MC_RaySets.cfg", "MC_RaySets_deep.cfg"), timeout=3000, heap="16g")
    ctx.faulty("RaySets", "MC_RaySets_views.cfg", "Apart", "Reads")
    ctx.faulty("RaySets", "MC_RaySets_overlap.cfg", "Reads")
    out = ctx.model("RaySets", "Sim_RaySets.cfg", simulate=ctx.scale(200, 2500), depth=30)
    for i, ops in enumerate(vp.printed(out, "SCRIPT")):
        with ctx.episode("sets", i) as (e, g):
            nm = lambda x: "r%d" % x
            for op in ops:
                a = op["a"]
                if a == "new":
                    e.rsnew(nm(op["n"]), op["k"])
                elif a == "write":
                    f, lo, hi = op["f"], op["lo"] - 1, op["hi"]
                    w = {"rays": 8, "metadata": 5}.get(f, 1)
                    v = g.r.uniform(-100, 100, (hi - lo, w))
                    e.rswrite(nm(op["n"]), f, lo, hi, v, op["how"])
                    e.rsread(nm(op["n"]), f)
                elif a == "mask":
                    e.rsmask(nm(op["n"]), nm(op["m"]), op["sel"])
                elif a == "copy":
                    e.rscopy(nm(op["n"]), nm(op["m"]))
                elif a == "join":
                    e.rsjoin(nm(op["n"]), [nm(x) for x in op["m"]])
                if g.chance(0.6):
                    e.rslook()
                if g.chance(0.3) and e.rs():
                    e.rsread(g.one(list(e.rs())), g.one(("rays", "generation", "intensity", "wavelength", "index", "id", "metadata")))
            e.rslook()
    for i in range(ctx.scale(40, 300)):
        with ctx.episode("ids", i) as (e, g):
            import c_geom
            import c_trace
            import tinygfx.g3d as cg
            for rep in range(2):
                t = c_geom.Tree(e, g, int(g.r.integers(1, 5)), prefix="abc"[rep])
                e.group("g%d" % rep, [t.root])
                e.plain("w%d" % rep, "other", cg.WorldObject)
                e.source("s%d" % rep, g.one(("line", "circle", "cone", "wedge", "lamp", "static")), 1.0, 1.0, 10.0)
                e.camera("k%d" % rep, 3, 1.0, 1.0)
                b = c_trace.Bench(e, g)
                b.count = 100 * rep
                for _ in range(3):
                    b.part()
            for n in list(e.o):
                e.identity(n)
            e.hits(t.root, t.aimed(4), normals=False)
            g.step(e, t.root)
            if g.chance(0.5):
                e.pin([t.root], lambda: g.step(e, t.root))
            for leaf in t.leaves:
                e.setmat(leaf, e.mats["a"])
            e.fixed("f", [((0, 0, -5), (0, 0, 1), 0.5, 100.0)] * 3)
            e.tracer("t", ["f"], [t.root])
            e.trace("t", "r")
            for n in list(e.o):
                e.identity(n)
