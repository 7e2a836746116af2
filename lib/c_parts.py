"""Scenarios for materials and factory-made parts (C15 to C19)."""
import numpy as np

import gen
from gen import unit
from num import encv

BK7 = (1.039612120, 0.231792344, 1.010469450, 0.00600069867, 0.0200179144, 103.560653000)
CROWN = (1.0, 0.2, 0.9, 0.006, 0.02, 100.0)


def catalogue(e):
    """the predefined materials, under their names"""
    import ex
    e.mats.update(ex.matl.glass)
    e.mats["mirror"], e.mats["absorber"] = ex.matl.mirror, ex.matl.absorber


def glass(e, g, n):
    """a glass of the user, with moderate or strong refraction"""
    c = g.r.random()
    if c < 0.55:
        return e.material(n, "const", g.one((g.u(1.05, 2.6), 1.5, 1.33, 4.0)))
    if c < 0.8:
        return e.material(n, "sell", *BK7)
    return e.material(n, "sell", *[x * g.u(0.9, 1.1) for x in CROWN])


# ---------------------------------------------------------------- points of surfaces
def surface_points(g, kind, p, count):
    """points of the surface of a primitive in its own frame, with outward normals there"""
    out = []
    while len(out) < count:
        v = g.dir()
        if kind == "sphere":
            out.append((p[0] * v, v))
        elif kind == "plane":
            out.append((np.array([g.u(-.5, .5) * p[0], g.u(-.5, .5) * p[1], 0.0]), np.array([0, 0, 1.0])))
        elif kind == "cylinder":
            lo, hi = min(p[1:]), max(p[1:])
            r = unit([v[0], v[1], 0.0])
            if g.chance(0.6):
                out.append((p[0] * r + np.array([0, 0, g.u(lo, hi)]), r))
            else:
                s = g.one((lo, hi))
                out.append((g.u(0, p[0]) * r + np.array([0, 0, s]), np.array([0, 0, 1.0 if s == hi else -1.0])))
        elif kind == "cuboid":
            lo, hi = np.minimum(p[:3], p[3:]), np.maximum(p[:3], p[3:])
            q = g.r.uniform(lo, hi)
            c = int(g.r.integers(3))
            top = g.chance(0.5)
            q[c] = hi[c] if top else lo[c]
            n = np.zeros(3)
            n[c] = 1.0 if top else -1.0
            out.append((q, n))
        else:
            f, h = p
            r = unit([v[0], v[1], 0.0])
            a = np.sqrt(4 * f * h) * np.sqrt(g.r.random())
            if g.chance(0.7):
                out.append((a * r + np.array([0, 0, a * a / (4 * f)]), unit([a * r[0] / (2 * f), a * r[1] / (2 * f), -1.0])))
            else:
                out.append((a * r + np.array([0, 0, h]), np.array([0, 0, 1.0])))
    return out


def arrivals(e, g, n, kind, p, count, index):
    """rays that have arrived at the surface of the object n: (o, d, wl, idx, pw)"""
    M = np.array(e.o[n].get_world_transform())
    N = np.linalg.inv(M[:3, :3]).T
    rays = []
    for q, nl in surface_points(g, kind, p, count):
        o = M[:3, :3] @ q + M[:3, 3]
        nw = unit(N @ nl)
        t = g.dir()
        t = unit(t - (t @ nw) * nw)
        c = g.r.random()
        s = g.one((1.0, -1.0))
        if c < 0.12:
            d = s * nw                                     # straight through
        elif c < 0.3:
            a = np.deg2rad(g.one((89.0, 85.0, 88.0, g.u(80, 89.5))))
            d = unit(s * np.cos(a) * nw + np.sin(a) * t)   # nearly grazing
        else:
            a = g.u(0, 1.5)
            d = unit(s * np.cos(a) * nw + np.sin(a) * t)
        rays.append((tuple(o), tuple(d), g.one((0.4, 0.55, 0.633, g.u(0.35, 1.2))), g.one(index),
                     g.one((100.0, 1.0, g.u(0.01, 200)))))
    return rays


# ---------------------------------------------------------------- C15: optical laws
def c15(ctx):
    for i in range(ctx.scale(60, 700)):
        with ctx.episode("surface", i) as (e, g):
            catalogue(e)
            glasses = [("g", glass(e, g, "g")), (None, e.mats[g.one(("ideal", "BK7", "SF5", "SF2"))])]
            for j, k in enumerate(gen.KINDS):
                m = g.one((glasses[0][1], glasses[1][1], e.mats["mirror"]))
                if g.chance(0.1):
                    m = e.mats["absorber"]
                n, p = "s%d" % j, g.params(k)
                e.prim(n, k, p, m)
                for _ in range(int(g.r.integers(0, 4))):
                    g.step(e, n)
                try:
                    inside = float(m.index_at(0.55))
                except Exception:
                    inside = 1.5
                e.mtrace(n, m, arrivals(e, g, n, k, p, 14, (1.0, 1.0, inside, inside, g.u(1, 2))))
                if g.chance(0.3):
                    e.inv(n)
                    e.mtrace(n, m, arrivals(e, g, n, k, p, 6, (1.0, inside)))
                if g.chance(0.2):
                    e.mtrace(n, m, arrivals(e, g, n, k, p, 1, (1.0,)))
                if g.chance(0.1):
                    e.mtrace(n, m, [])
                if g.chance(0.2):
                    e.mtrace(n, m, arrivals(e, g, n, k, p, 10, (1.0, 1.0, inside, inside, g.u(1, 2))), among=g.among(10))
                if g.chance(0.3):
                    e.rst(n)
                    g.near(e, n)
                    e.mtrace(n, m, arrivals(e, g, n, k, p, 6, (1.0, inside)))
    for i in range(ctx.scale(40, 400)):
        with ctx.episode("function", i) as (e, g):
            k = int(g.r.integers(1, 12))
            D, N = [g.dir() for _ in range(k)], [g.dir() for _ in range(k)]
            for j in range(k):
                if g.chance(0.2):
                    D[j] = g.one((N[j], -N[j]))
                if g.chance(0.15):
                    D[j] = unit(np.cross(N[j], g.dir()))
            e.reflect(D, N)
            e.reflect(D, N[0])
            e.reflect(D[0], N[0])
            e.reflect([g.u(0.1, 4) * d for d in D], N)
            n1 = [g.one((1.0, 1.5, g.u(1, 3))) for _ in D]
            n2 = [g.one((1.0, 1.5, g.u(1, 3))) for _ in D]
            e.refract(D, N, n1, n2, g.one((1, 1, 1.33, g.u(1, 2))))
    for i in range(ctx.scale(90, 900)):
        with ctx.episode("bodies", i) as (e, g):
            comps = bodies(e, g)
            e.fixed("s", [aimed(e, g, comps) for _ in range(12)])
            e.tracer("t", ["s"], [c[0] for c in comps], lim=g.one((3, 6, 10)))
            e.trace("t", "r")


def bodies(e, g, kinds=None):
    """separate bodies along a line: glass and mirrors; list of (name, extent)"""
    catalogue(e)
    glass(e, g, "u")
    glass(e, g, "v")
    comps = []
    x = 0.0
    for j in range(int(g.r.integers(1, 5))):
        n = "b%d" % j
        m = e.mats[g.one(("u", "v", "BK7", "SF5", "SF2", "ideal"))]
        c = g.r.random() if kinds is None else 1.0
        if c < 0.5:
            k = g.one(gen.SOLIDS)
            p = g.params(k)
            e.prim(n, k, p, m if g.chance(0.85) else e.mats["mirror"])
            ext = gen.Gen.box(k, p)
        elif c < 0.6:
            k, p = "plane", (g.u(1, 4), g.u(1, 4))
            e.prim(n, k, p, e.mats["mirror"])
            e.rot(n, 2, 90.0)
            ext = gen.Gen.box(k, p)
        elif c < 0.75:
            ka, kb = g.one(gen.SOLIDS), g.one(gen.SOLIDS)
            pa, pb = g.params(ka), g.params(kb)
            e.prim(n + "l", ka, pa, m)
            e.prim(n + "r", kb, pb, m)
            g.near(e, n + "r", 0.8)
            e.csg(n, g.one(("union", "intersect", "difference")), n + "l", n + "r")
            ext = gen.Gen.box(ka, pa)
        elif c < 0.9:
            r = [g.one((-1, 1)) * g.u(3, 12) if g.chance(0.8) else np.inf for _ in range(2)]
            e.part(n, "thick", (*r, g.u(1.2, 1.8)), g.u(1, 2.5), mat=m)
            ext = (-0.8 * np.ones(3), 0.8 * np.ones(3))
        else:
            e.part(n, "prism", (g.u(1, 2.5), g.u(1, 2.5)), mat=m)
            ext = (-0.6 * np.ones(3), 0.6 * np.ones(3))
        if g.chance(0.8):
            e.rot(n, int(g.r.integers(1, 4)), g.u(-25, 25))
        x += 5.0
        e.move(n, (x, g.u(-0.4, 0.4), g.u(-0.4, 0.4)))
        comps.append((n, ext))
    order = [int(i) for i in g.r.permutation(len(comps))]
    return [comps[i] for i in order]


def aimed(e, g, comps, wl=None):
    n, ext = g.one(comps)
    o, d = g.rays(e, n, "", (), 1, special=0.2, extent=ext)[0]
    if g.chance(0.5):               # along the line of bodies
        M = np.array(e.o[n].get_world_transform())
        q = M[:3, 3] + g.r.uniform(-0.6, 0.6, 3)
        d = unit((g.one((1.0, 1.0, -1.0)), g.u(-.15, .15), g.u(-.15, .15)))
        o = tuple(float(x) for x in q - g.u(2, 12) * d)
        d = tuple(float(x) for x in d)
    return (o, d, wl if wl is not None else g.one((0.45, 0.6, g.u(0.38, 0.8))), g.one((100.0, 20.0, g.u(1, 50))))


# ---------------------------------------------------------------- C16: dispersion
def c16(ctx):
    for i in range(ctx.scale(60, 600)):
        with ctx.episode("index", i) as (e, g):
            catalogue(e)
            import ex
            coef = [x * g.u(0.9, 1.1) for x in g.one((BK7, CROWN))]
            if g.chance(0.4):               # terms in any order, some of them missing
                t = [(coef[j], coef[j + 3]) if g.chance(0.7) else (g.u(0.1, 1.5), g.one((0.0, g.u(0, 0.03), g.u(9, 200))))
                     for j in g.r.permutation(3)]
                coef = [float(x[k] * (k == 1 or g.chance(0.85))) for k in (0, 1) for x in t]
            glass(e, g, "u")
            e.material("w", "sell", *coef, named=i % 3 == 0)
            e.material("n", "const", g.one((1.0, 1.2, 3.5)))
            names = ["u", "w", "ideal", "BK7", "SF5", "SF2", "n"]
            for _ in range(12):
                n = g.one(names)
                shape = g.one(((), (1,), (5,), (2, 3), (3, 1, 2), (0,)))
                w = g.r.uniform(0.35, 2.0, shape) if shape != () else g.u(0.35, 2.0)
                if g.chance(0.15):
                    w = g.one((np.float64(0.5), np.array(0.6), np.linspace(0.4, 0.7, 4), np.full(3, 0.55),
                               1, 2, np.int64(1), np.arange(1, 4), np.array([[1, 2], [2, 1]])))
                if g.chance(0.2):               # nearly the same colours
                    w = g.u(0.35, 1.5) + 10.0 ** -g.u(2, 8) * np.arange(1, 6)
                e.index(n, w)
                if g.chance(0.2):               # many colours
                    k = int(g.one((33, 41, 65, 129, 300, 1025, g.r.integers(20, 3000))))
                    v = g.one((g.r.uniform(0.35, 2, k), np.sort(g.r.uniform(0.35, 2, k)), np.geomspace(0.35, 2, k), np.linspace(0.4, 0.7, k),
                               np.sort(g.r.uniform(0.4, 0.5, k) ** -1), g.r.choice((0.45, 0.55, 0.65), k)))
                    e.index(n, v, np.unique(np.append(g.r.integers(0, k, 12), (0, k - 1))))
                if isinstance(w, np.ndarray) and g.chance(0.4):      # the same array with other contents
                    if w.dtype.kind == "i":
                        w += 1
                    else:
                        w *= g.u(0.8, 1.2)
                        w += g.u(0.1, 0.2)
                    e.index(n, w)
                    e.index(g.one(names), w)
                if g.chance(0.3):               # one by one
                    for x in np.atleast_1d(w).ravel()[:3]:
                        e.index(n, float(x))
                if n not in ("n", "w") and (n != "u" or not isinstance(e.mats["u"], ex.matl.BasicRefractor)) and n != "ideal":
                    if g.chance(0.5):
                        e.abbe(n)
                if n == "w" and g.chance(0.6):
                    c = int(g.r.integers(6))
                    coef[c] = coef[c] * g.u(0.8, 1.15)
                    e.recolour("w", ("b1", "b2", "b3", "c1", "c2", "c3")[c], coef[c], {"k": "sell", "v": encv(coef)})
                    e.index("w", g.u(0.4, 1.0))
                if n == "w" and sum(b * (0.01 if c > 5 else c) for b, c in zip(coef[:3], coef[3:])) > 1e-3:
                    e.abbe("w")
    for i in range(ctx.scale(80, 800)):
        with ctx.episode("colours", i) as (e, g):
            comps = bodies(e, g)
            rays = []
            for _ in range(4):          # the same path in several colours
                o, d, _, pw = aimed(e, g, comps)
                rays += [(o, d, wl, pw) for wl in (0.4, 0.55, 0.7)]
            rays = [rays[int(j)] for j in g.r.permutation(len(rays))]
            e.fixed("s", rays)
            e.tracer("t", ["s"], [c[0] for c in comps], lim=g.one((3, 6)))
            e.trace("t", "r")
            if g.chance(0.5):
                k = int(g.r.integers(len(rays)))
                e.fixed("a", [rays[k]])
                e.tracer("u", ["a"], [c[0] for c in comps], lim=e.t["t"].get_generation_limit())
                e.trace("u", "alone")
                e.cmp("r", "alone", [k])


# ---------------------------------------------------------------- factory-made parts
def ap_one(g, lo=0.4, hi=3.0):
    c = g.r.random()
    if hi == 3 and g.chance(0.15):          # large ones
        lo, hi = 3.0, 25.0
    elif hi == 3 and g.chance(0.1):         # and small ones
        lo, hi = 0.02, 0.4
    if c < 0.4:
        return g.one((1.0, g.u(lo, hi)))
    a, b = g.u(lo, hi), g.u(lo, hi)
    if c < 0.7:
        return (a, b)
    return (-a, -b)


def half(ap):
    """a bound of the distance from the axis"""
    return ap / 2 if not isinstance(ap, tuple) else float(np.linalg.norm(ap)) / 2


def fair(e, n, count, g, ext, special=0.45):
    return g.rays(e, n, "", (), count, special=special, extent=ext)


def around(ap, x0, x1, off=(0.0, 0.0)):
    a = (ap, ap) if not isinstance(ap, tuple) else (abs(ap[0]), abs(ap[1]))
    lo = np.array([x0, off[0] - 0.6 * a[0], off[1] - 0.6 * a[1]])
    hi = np.array([x1, off[0] + 0.6 * a[0], off[1] + 0.6 * a[1]])
    return lo, hi


def along_axis(e, g, n, ext, count):
    """rays along the optical axis of the part, from either side"""
    M = np.array(e.o[n].get_world_transform())
    out = []
    # the optical axis is the x axis of the part as delivered; parts are turned afterwards, so the axis is
    # found from the position of the part
    lo, hi = ext
    for _ in range(count):
        q = g.r.uniform(lo, hi)
        d = np.array([g.one((1.0, -1.0)), 0.0, 0.0])
        if g.chance(0.3):
            d = unit(d + np.array([0, g.u(-.05, .05), g.u(-.05, .05)]))
        out.append((tuple(float(x) for x in q - 4 * d), tuple(float(x) for x in d)))
    return out


def look(e, g, n, ext, frm, moved, normals=True):
    """ext: extent in the delivered frame; frm: transformation of that frame since"""
    rays = along_axis(e, g, n, ext, 8)
    g2 = [(q, d) for q, d in _free(g, ext, 14)]
    R, t = frm
    move = lambda q: tuple(float(x) for x in R @ np.array(q) + t)
    turn = lambda d: tuple(float(x) for x in unit(R @ np.array(d)))
    e.hits(n, [(move(o), turn(d)) for o, d in rays + g2], normals=normals)


def _free(g, ext, count):
    lo, hi = ext
    out = []
    for _ in range(count):
        q = g.r.uniform(lo, hi)
        c = g.r.random()
        if c < 0.25:
            d = np.eye(3)[int(g.r.integers(3))] * g.one((1, -1))
        elif c < 0.45:
            v = g.r.normal(size=3)
            v[int(g.r.integers(3))] = 0
            d = unit(v)
        elif c < 0.55:
            d = unit(np.array([g.one((1, -1)), 10.0 ** -g.u(1, 16), 0.0]))
        else:
            d = g.dir()
        out.append((tuple(q - g.one((g.u(0, 4), g.u(2, 6), 0.0)) * d), tuple(d)))
    return out


def world(e, n, start):
    """the map of the delivered frame to the current one"""
    try:
        M = np.array(e.o[n].get_world_transform()) @ np.linalg.inv(start)
        if np.all(np.isfinite(M)):
            return M[:3, :3], M[:3, 3]
    except Exception:
        pass
    return np.eye(3), np.zeros(3)


def check(e, g, n, ext, normals=True):
    """look at the part as delivered, then posed"""
    start = np.array(e.o[n].get_world_transform())
    look(e, g, n, ext, (np.eye(3), np.zeros(3)), False, normals)
    for _ in range(g.one((0, 1, 2))):
        if g.chance(0.3):
            g.step(e, n)
        else:
            g.near(e, n, 2.0)
        look(e, g, n, ext, world(e, n, start), True, normals)


def lens_sag(r, h):
    return r - np.sqrt(r * r - h * h) if np.isfinite(r) else 0.0


def c17(ctx):
    for i in range(ctx.scale(150, 1800)):
        with ctx.episode("lens", i) as (e, g):
            catalogue(e)
            glass(e, g, "u")
            for j in range(2):
                n = "l%d" % j
                ap = ap_one(g)
                h = half(ap)
                f = g.one(("thick", "thick", "thick", "biconvex", "planoconvex"))
                t = g.one((0.2, 1.0, g.u(0.05, 2.0), h * g.u(0.2, 4)))
                big = lambda: np.inf if g.chance(0.18) else min(1e4, h * g.one((1.05, 1.5, g.u(1.02, 3), g.u(3, 40), 10.0 ** g.u(1.5, 3.5))))
                sign = lambda: g.one((1.0, -1.0))
                if f == "thick":
                    r1, r2 = sign() * big(), sign() * big()
                    p = (r1, r2, t)
                elif f == "biconvex":
                    p = (sign() * big(), sign() * big(), t)
                else:
                    p = (sign() * big(), t)
                s = [abs(x) for x in p[:-1]]
                m = e.mats[g.one(("u", "BK7", "SF5", "ideal", "mirror", "absorber"))] if g.chance(0.8) else None
                e.part(n, f, p, ap, mat=m)
                if n not in e.o:
                    continue
                depth = t / 2 + max([lens_sag(x, h) for x in s if np.isfinite(x)] or [0.0])
                ext = around(ap, -depth - 0.1, depth + 0.1)
                check(e, g, n, ext)


def c18(ctx):
    for i in range(ctx.scale(150, 1800)):
        with ctx.episode("mirror", i) as (e, g):
            catalogue(e)
            e.material("l", "lossy", 0.5)
            for j in range(2):
                n = "m%d" % j
                ap = ap_one(g)
                h = half(ap)
                off = g.one(((0, 0), (0, 0), (g.u(-2, 2), g.u(-2, 2)), (g.u(-1, 1), 0.0), (0.0, g.u(0, 3))))
                m = None if g.chance(0.6) else e.mats["l"]
                reach = h + float(np.hypot(*off))
                f = g.one(("plane", "spherical", "parabolic", "spherical", "parabolic"))
                t = g.one((0.1, 0.5, g.u(0.02, 1.5)))
                if f == "plane":
                    t = g.one((t, 0.0))
                    p, ext = (t,), around(ap, -t - 0.2, 0.2, off)
                elif f == "spherical":
                    r = np.inf if g.chance(0.15) else min(1e4, reach * g.one((1.05, 1.3, g.u(1.02, 4), 10.0 ** g.u(0.6, 3))))
                    p, ext = (r, t), around(ap, -t - 0.2, lens_sag(r, reach) + 0.2, off)
                else:
                    foc = g.one((0.5, 1.0, g.u(0.2, 5), 10.0 ** g.u(0.7, 2.5)))
                    p = (foc, t)
                    ext = around(ap, -foc - t - 0.2, (reach * 1.5) ** 2 / (4 * foc) - foc + 0.2, off)
                e.part(n, f, p, ap, off, mat=m)
                if n in e.o:
                    check(e, g, n, ext)
    for i in range(ctx.scale(30, 300)):      # reflecting and absorbing faces at work
        with ctx.episode("beam", i) as (e, g):
            catalogue(e)
            f = g.one(("spherical", "parabolic", "plane"))
            off = g.one(((0, 0), (g.u(-1, 1), g.u(-1, 1))))
            ap = ap_one(g, 0.5, 1.5)
            p = {"spherical": (g.u(4, 9), 0.3), "parabolic": (g.u(1, 4), 0.3), "plane": (g.one((0.0, 0.3)),)}[f]
            e.part("m", f, p, ap, off)
            if "m" not in e.o:
                continue
            start = np.array(e.o["m"].get_world_transform())
            for _ in range(2):
                ext = around(ap, -p[0] - 0.5 if f == "parabolic" else -0.5, 1.0, off)
                R, t = world(e, "m", start)
                rays = along_axis(e, g, "m", ext, 6) + _free(g, ext, 6)
                k = "s%d" % len(e.o)
                e.fixed(k, [(tuple(float(x) for x in R @ np.array(o) + t), tuple(float(x) for x in unit(R @ np.array(d))),
                             0.6, 100.0) for o, d in rays])
                e.tracer(k, [k], ["m"], lim=4, single=True)
                e.trace(k, k)
                g.rigid(e, "m", 2, 2)


def c19(ctx):
    for i in range(ctx.scale(90, 900)):
        with ctx.episode("stop", i) as (e, g):
            catalogue(e)
            for j in range(3):
                n = "p%d" % j
                f = g.one(("baffle", "aperture", "aperture", "prism"))
                ap = ap_one(g, 0.5, 3)
                if f == "prism":
                    s, w = g.one((g.u(0.3, 3), g.u(2, 30))), g.one((g.u(0.3, 3), g.u(2, 30)))
                    e.part(n, f, (s, w), mat=g.one((None, e.mats["SF5"], e.mats["ideal"])))
                    ext = (np.array([-s / 2, -w / 2, -s / 2]) * 1.2, np.array([s / 2, w / 2, s / 2]) * 1.2)
                elif f == "baffle":
                    e.part(n, f, (), ap)
                    ext = around(ap, -0.05, 0.05)
                else:
                    ap2 = opening(g, ap)
                    e.part(n, f, (), ap, ap2=ap2)
                    ext = around(ap, -0.05, 0.05)
                if n in e.o:
                    check(e, g, n, ext)
    for i in range(ctx.scale(90, 900)):      # what is blocked and what passes
        with ctx.episode("light", i) as (e, g):
            catalogue(e)
            comps, rays = [], []
            x = 0.0
            e.prim("wall", "plane", (60.0, 60.0), e.mats["absorber"])
            e.rot("wall", 2, 90.0)
            for j in range(int(g.r.integers(1, 4))):
                n = "p%d" % j
                ap = ap_one(g, 0.5, 3)
                if g.chance(0.4):
                    e.part(n, "baffle", (), ap)
                else:
                    e.part(n, "aperture", (), ap, ap2=opening(g, ap))
                if n not in e.o:
                    continue
                if g.chance(0.5):
                    e.rot(n, 1, g.angle())
                if g.chance(0.5):
                    e.rot(n, g.one((2, 3)), g.u(-30, 30))
                x += 2.0
                e.move(n, (x, g.u(-.3, .3), g.u(-.3, .3)))
                M = np.array(e.o[n].get_world_transform())
                a = (ap, ap) if not isinstance(ap, tuple) else (abs(ap[0]), abs(ap[1]))
                for _ in range(7):
                    q = M[:3, 3] + np.array([0, g.u(-.6, .6) * a[0], g.u(-.6, .6) * a[1]])
                    d = unit((g.one((1, 1, -1)), g.u(-.2, .2), g.u(-.2, .2)))
                    rays.append((tuple(q - g.u(0.5, 5) * d), tuple(d), 0.5, 100.0))
                comps.append(n)
            e.move("wall", (x + 8.0, 0, 0))
            e.fixed("s", rays)
            e.tracer("t", ["s"], g.one(([*comps, "wall"], ["wall", *comps])), lim=g.one((2, 5)))
            e.trace("t", "r")


def opening(g, ap):
    """an opening inside of the outline: of any kind"""
    a = (ap, ap) if not isinstance(ap, tuple) else (abs(ap[0]), abs(ap[1]))
    round_ = not isinstance(ap, tuple) or ap[0] < 0
    s = min(a) * (0.65 if round_ else 0.95)
    c = g.r.random()
    if c < 0.3:
        return g.u(0.3, 0.95) * s
    v = (g.u(0.3, 0.95) * a[0], g.u(0.3, 0.95) * a[1])
    if c < 0.6 and not round_:
        return v
    if c < 0.8:
        return (-v[0], -v[1])
    return (g.u(.3, .65) * a[0], g.u(.3, .65) * a[1])
