"""Scenarios for the building blocks: coordinates, colours, rays, shapes, roots, defaults (C27)."""
import numpy as np

import gen
import vp
from num import enc, encv

FIELDS = {"colour": "rgba"}


class Blocks:
    """Calls on coordinate objects and rays, recorded."""

    def __init__(self, e, g):
        import ex
        self.ex, self.e, self.g = ex, e, g
        self.co, self.ry, self.kind = {}, {}, {}

    def value(self):
        g = self.g
        return g.one((0.0, 1.0, -1.0, 2.5, g.u(-5, 5), g.u(-5, 5), g.u(-5, 5)))

    def new(self, n, kind):
        g, pr = self.g, self.ex.cg.primitives
        cls = {"point": self.ex.cg.Point, "vector": self.ex.cg.Vector, "homogeneous": pr.HomogeneousCoordinate,
               "colour": self.ex.color.RGBAColor}[kind]
        full = 4 if kind in ("homogeneous", "colour") else 3
        args = [self.value() for _ in range(full if g.chance(0.7) else int(g.r.integers(0, full + 1)))]
        names = ("r", "g", "b", "a") if kind == "colour" else ("x", "y", "z", "w")
        k = int(g.r.integers(0, len(args) + 1)) if g.chance(0.3) else len(args)
        obj, x = self.e.call(lambda: cls(*args[:k], **dict(zip(names[k:len(args)], args[k:]))))
        self.co[n], self.kind[n] = obj, kind
        self.e.log("conew", n=n, kind=kind, args=encv(args), x=x)

    def ray(self, r, o, d):
        cg = self.ex.cg
        kw = {}
        if o:
            kw["origin"] = self.co[o]
        if d:
            kw["direction"] = self.co[d]
        if o and self.g.chance(0.5):
            args, kw = (kw.pop("origin"), *([kw.pop("direction")] if d else [])), kw
        else:
            args = ()
        obj, x = self.e.call(lambda: cg.Ray(*args, **kw))
        self.ry[r] = obj
        self.e.log("coray", r=r, o=o, d=d, x=x)

    def part(self, r, p):
        return self.ry[r].origin if p == 1 else self.ry[r].direction

    def view(self, n, r, p):
        obj, x = self.e.call(self.part, r, p)
        self.co[n], self.kind[n] = obj, "homogeneous"
        self.e.log("coview", n=n, r=r, p=p, x=x)

    def name(self, n, i):
        return FIELDS.get(self.kind[n], "xyzw")[i - 1]

    def put(self, n, i):
        v, f = self.value(), self.name(n, i)

        def go():
            if self.g.chance(0.75):
                setattr(self.co[n], f, v)
            else:
                self.co[n][i - 1] = v
            return getattr(self.co[n], f)
        got, x = self.e.call(go)
        self.e.log("coput", n=n, i=i, v=enc(v), got=enc(got) if not x else [], x=x)

    def aim(self, r, p, n):
        def go():
            if p == 1:
                self.ry[r].origin = self.co[n]
            else:
                self.ry[r].direction = self.co[n]
        _, x = self.e.call(go)
        self.e.log("coaim", r=r, p=p, n=n, x=x)

    def unit(self, n):
        c = self.co[n]
        if self.kind[n] == "colour" or not np.linalg.norm(np.asarray(c)[:3]) > 1e-3:
            return
        res, x = self.e.call(lambda: c.normalize())
        self.e.log("counit", n=n, v=encv(np.asarray(self.co[n])), me=res is c, x=x)

    def look(self):
        def go():
            return ([[n, encv(np.asarray(c)), [enc(getattr(c, self.name(n, i))) for i in (1, 2, 3, 4)]] for n, c in self.co.items()],
                    [[r, [encv(np.asarray(y)[0]), encv(np.asarray(y)[1])]] for r, y in self.ry.items()])
        v, x = self.e.call(go)
        self.e.log("colook", co=v[0] if not x else [], ry=v[1] if not x else [], x=x)

    def run(self, ops):
        N, R = (lambda n: "n%d" % n if n else ""), (lambda r: "r%d" % r)
        for op in ops:
            a = op["a"]
            if a == "new":
                self.new(N(op["n"]), op["k"])
            elif a == "ray":
                self.ray(R(op["r"]), N(op["o"]), N(op["d"]))
            elif a == "view":
                self.view(N(op["n"]), R(op["r"]), op["p"])
            elif a == "put":
                self.put(N(op["n"]), op["i"])
            elif a == "aim":
                self.aim(R(op["r"]), op["p"], N(op["n"]))
            elif a == "unit":
                self.unit(N(op["n"]))
            self.look()


# ---------------------------------------------------------------- plane shapes, boxes, roots, products
def shapes(ctx):
    for i in range(ctx.scale(30, 600)):
        with ctx.episode("shapes", i) as (e, g):
            import ex
            P = ex.cg.primitives
            for _ in range(4):
                r = g.one((1.0, 5.0, g.u(0.1, 4)))
                pts = g.r.uniform(-1.6, 1.6, (2, 7)) * r
                if g.chance(0.5):
                    pts[:, 3:] = np.array([(3, 4), (-4, 3), (5, 0), (0, -1)]).T
                if g.chance(0.5):
                    a = g.r.uniform(0, 6.3, 7)
                    pts = r * np.vstack((np.cos(a), np.sin(a))) * g.r.choice((0.999, 1.001, 0.9, 1.1), 7)
                c = g.r.random()
                d, x = e.call(lambda: P.Disk.from_diameter(2 * r) if c < 0.4 else P.Disk(r) if c < 0.8 or r != 1 else P.Disk())
                for q in (pts, pts[:, :1], pts[:, 0]):
                    given = q.copy()
                    out, x = e.call(lambda: d.point_in_shape(q))
                    e.log("indisk", r=enc(r), pts=[encv(p) for p in np.atleast_2d(q.T)],
                          **{"in": [bool(b) for b in np.atleast_1d(out)] if not x else []}, x=x)
                    e.log("fact", c="argument-changed", ok=np.array_equal(q, given))
                w, h = g.one(((2.0, 2.0), (4.0, 1.0), (g.u(0.1, 4), g.u(0.1, 4))))
                pts = g.r.uniform(-0.8, 0.8, (2, 8)) * np.array(((w,), (h,)))
                if g.chance(0.4):
                    pts[:, :4] = np.array(((w / 2, 0), (-w / 2, h / 2), (0, h), (w, 0))).T
                d, x = e.call(lambda: P.Rectangle() if (w, h) == (2.0, 2.0) else g.one((P.Rectangle(w, h), P.Rectangle(y_length=h, x_length=w))))
                for q in (pts, pts[:, :2], pts[:, :1], pts[:, 0]):
                    given = q.copy()
                    out, x = e.call(lambda: d.point_in_shape(q))
                    e.log("inrect", a=enc(w), b=enc(h), pts=[encv(p) for p in np.atleast_2d(q.T)],
                          **{"in": [bool(b) for b in np.atleast_1d(out)] if not x else []}, x=x)
                    e.log("fact", c="argument-changed", ok=np.array_equal(q, given))
                k = int(g.r.integers(1, 9))
                pts = np.vstack((g.r.uniform(-4, 4, (3, k)), np.ones(k)))
                pts[int(g.r.integers(3))] = 1.0
                given = pts.copy()
                q = pts if g.chance(0.7) else pts[:3]
                box, x = e.call(lambda: ex.cg.bounding_box(q))
                sp, x = e.call(lambda: (np.asarray(box.axis_spans), np.asarray(box.bounding_points)))
                e.log("box", pts=[encv(p) for p in pts[:3].T], x=x,
                      spans=[encv(s) for s in sp[0]] if not x else [], corners=[encv(c) for c in sp[1].T] if not x else [])
                e.log("fact", c="argument-changed", ok=np.array_equal(pts, given))


def algebra(ctx):
    for i in range(ctx.scale(30, 600)):
        with ctx.episode("algebra", i) as (e, g):
            import ex
            cg = ex.cg
            for _ in range(3):
                k = int(g.r.integers(1, 12))
                a = g.r.choice((-1.0, 1.0), k) * g.r.uniform(0.05, 3, k)
                b, c = g.r.uniform(-6, 6, k), g.r.uniform(-6, 6, k)
                if g.chance(0.5):                       # from roots
                    u, v = g.r.uniform(-3, 3, k), g.r.uniform(-3, 3, k)
                    b, c = -a * (u + v), a * u * v
                if g.chance(0.5):                       # special cases among ordinary ones
                    m = g.r.random(k) < 0.4
                    a, b = np.where(m, 0, a), np.where(m & (g.r.random(k) < 0.5), 0, b)
                    c = np.where(g.r.random(k) < 0.2, 0, c)
                if g.chance(0.4):
                    a, b, c = np.round(a), np.round(b), np.round(c)
                    m = (g.r.random(k) < 0.3) & (a != 0)        # double roots without rounding
                    u = g.r.integers(-4, 5, k).astype(float)
                    b, c = np.where(m, -2 * a * u, b), np.where(m, a * u * u, c)
                args = [a, b, c]
                given = [z.copy() for z in args]
                out, x = e.call(lambda: cg.binomial_root(a, b, c, b ** 2 - 4 * a * c) if g.chance(0.3) else cg.binomial_root(a, b, c))
                sm, x2 = e.call(lambda: cg.smallest_positive_root(a, b, c))
                e.log("roots", a=encv(a), b=encv(b), c=encv(c), x=x or x2,
                      out=[encv(z) for z in out.T] if not x else [], small=encv(sm) if not x2 else [])
                e.log("fact", c="argument-changed", ok=all(np.array_equal(y, z) for y, z in zip(args, given)))
                m, n = int(g.r.integers(1, 6)), int(g.r.integers(1, 6))
                u, v = g.r.uniform(-4, 4, (m, n)), g.r.uniform(-4, 4, (m, n))
                ax = int(g.r.integers(0, 2))
                out, x = e.call(lambda: cg.element_wise_dot(u, v) if ax == 0 and g.chance(0.5) else cg.element_wise_dot(u, v, axis=ax))
                e.log("dots", u=[encv(z) for z in u], v=[encv(z) for z in v], axis=ax, out=encv(out) if not x else [], x=x)
                out, x = e.call(lambda: cg.element_wise_dot(u[0], v[0]))
                e.log("dots", u=[encv(u[0])], v=[encv(v[0])], axis=1, out=[enc(out)] if not x else [], x=x)
                k = int(g.r.integers(0, 5))
                out, x = e.call(cg.bundle_of_rays, k)
                one = [encv((0, 0, 0, 1)), encv((0, 0, 0, 0))]
                e.log("bundle", x=x, want=[one] * k, got=[[encv(out[0, :, j]), encv(out[1, :, j])] for j in range(out.shape[2])] if not x else [])
                rs = [cg.Ray(cg.Point(*g.r.uniform(-2, 2, 3)), cg.Vector(*g.dir())) for _ in range(1 + k)]
                out, x = e.call(cg.primitives.bundle_rays, rs)
                want = [[encv(z) for z in np.asarray(r)] for r in rs]
                if not x:
                    out[...] = out.copy() if g.chance(0.5) else out
                e.log("bundle", x=x, want=want, got=[[encv(out[0, :, j]), encv(out[1, :, j])] for j in range(out.shape[2])] if not x else [])
                if not x:
                    out[...] = 7                         # the bundle is made of copies
                    e.log("bundle", want=want, got=[[encv(z) for z in np.asarray(r)] for r in rs])


# ---------------------------------------------------------------- default arguments
def defaults(ctx):
    for i in range(ctx.scale(30, 500)):
        with ctx.episode("defaults", i) as (e, g):
            import c_parts
            import ex
            c_parts.catalogue(e)
            L, w = g.u(0.4, 3), [g.u(0.4, 3) for _ in range(3)]
            half = lambda s: [-z / 2 for z in s] + [z / 2 for z in s]
            r, lo, f, wd = g.u(0.4, 2), g.u(-2, 0.8), g.u(0.2, 2), g.u(0.5, 3)
            lc = g.r.uniform(-3, 0.5, 3)
            menu = [("cuboid", half((L, L, L)), lambda c: c.from_length(L)), ("cuboid", half(w), lambda c: c.from_sides(*w)),
                    ("cuboid", half((w[0], 1, 1)), lambda c: c.from_sides(w[0])), ("cuboid", half((1, 1, w[2])), lambda c: c.from_sides(z=w[2])),
                    ("cuboid", half((1, w[1], 1)), lambda c: c.from_sides(y=w[1])), ("cuboid", half((1, 1, 1)), lambda c: c.from_sides()),
                    ("cuboid", (-1, -1, -1, 1, 1, 1), lambda c: c()), ("cuboid", (*lc, 1, 1, 1), lambda c: c(tuple(lc))),
                    ("cylinder", (1, -1, 1), lambda c: c()), ("cylinder", (r, -1, 1), lambda c: c(r)),
                    ("cylinder", (r, lo, 1), lambda c: c(r, lo)), ("cylinder", (r, -1, 1.5), lambda c: c(radius=r, max_height=1.5)),
                    ("paraboloid", (1, 1), lambda c: c()), ("paraboloid", (f, 1), lambda c: c(f)), ("paraboloid", (1, f), lambda c: c(height=f)),
                    ("plane", (2, 2), lambda c: c()), ("plane", (wd, 2), lambda c: c(wd)), ("plane", (2, wd), lambda c: c(length=wd)),
                    ("sphere", (r,), lambda c: c(r))]
            for j in range(4):
                kind, p, make = g.one(menu)
                z = [g.one((0.0, g.u(0.2, 3), 2.0)) for _ in range(3)]
                box, x = e.call(lambda: g.one((lambda: ex.cg.Cuboid.from_sides(*z), lambda: ex.cg.Cuboid.from_sides(z=z[2], y=z[1], x=z[0]),
                                               lambda: ex.cg.Cuboid(half(z)[:3], half(z)[3:]),
                                               lambda: ex.cg.Cuboid(r_corner=half(z)[:3], l_corner=np.array(half(z)[3:]))))().bounding_volume)
                sp, x2 = e.call(lambda: (np.asarray(box.axis_spans), np.asarray(box.bounding_points)))
                e.log("box", pts=[encv(half(z)[:3]), encv(half(z)[3:])], x=x or x2,
                      spans=[encv(s) for s in sp[0]] if not x + x2 else [], corners=[encv(c) for c in sp[1].T] if not x + x2 else [])
                n = "d%d" % j
                e.prim(n, kind, tuple(float(z) for z in p), None, make=make)
                if g.chance(0.5):
                    g.near(e, n)
                e.hits(n, g.rays(e, n, kind, p, 10, special=0.3), True)
            n = "p"
            ap = {"ap": None} if g.chance(0.7) else {"ap": g.u(0.5, 1.5)}
            kind = g.one(("thick", "biconvex", "planoconvex", "plane", "spherical", "parabolic", "prism"))
            if kind == "thick":
                e.part(n, kind, (g.one((-1, 1)) * g.u(2, 5), g.one((-1, 1)) * g.u(2, 5), g.u(0.8, 1.2)), **ap)
            elif kind == "biconvex":
                e.part(n, kind, (g.u(2, 5), g.u(2, 5), g.u(0.8, 1.2)), **ap)
            elif kind == "planoconvex":
                e.part(n, kind, (g.u(2, 5), g.u(0.8, 1.2)), **ap)
            elif kind == "plane":
                e.part(n, kind, (g.u(0.2, 1),), **ap)
            elif kind in ("spherical", "parabolic"):
                e.part(n, kind, (g.u(2, 5), g.u(0.2, 1)), **ap)
            else:
                e.part(n, kind, (g.u(0.5, 2), g.u(0.5, 2)))
            e.hits(n, g.rays(e, n, "", (), 16, special=0.3), True)
            srcs = [
                    ("line", 1, 0, 0, (), {}), ("circle", 1, 0, 0, (), {}), ("line", r, 0, 0, (r,), {}), ("circle", r, 0, 0, (), {"diameter": r}),
                    ("lamp", r, L, 90, (r, L), {}), ("static", r, L, 90, (), {"length": L, "width": r}),
                    ("lamp", r, L, 40, (r,), {"length": L, "max_angle": 40})]
            for j in range(3):
                k, a, b, c, args, kw = g.one(srcs)
                s = "s%d" % j
                e.source(s, k, a, b, c, given=(args, kw))
                if k in ("lamp", "static"):
                    e.emit(s, 5, lamp="same" if k == "static" else "fresh")
                else:
                    e.emit(s, int(g.one((2, 3, 5))))


def c27(ctx):
    ctx.model("Coords", ctx.scale("MC_Coords.cfg", "MC_Coords_deep.cfg"), timeout=3000)
    for f in ("aliased", "shared", "detached"):
        ctx.faulty("Coords", "MC_Coords_%s.cfg" % f, "Holds")
    out = ctx.model("Coords", "Sim_Coords.cfg", simulate=ctx.scale(100, 2000), depth=26)
    for i, ops in enumerate(vp.printed(out, "SCRIPT")):
        with ctx.episode("script", i) as (e, g):
            Blocks(e, g).run(ops)
    shapes(ctx)
    algebra(ctx)
    defaults(ctx)
