"""Scenarios for the ray tracer (C01 to C06)."""
import numpy as np

import gen
import vp
from num import enc, encv

BK7 = (1.039612120, 0.231792344, 1.010469450, 0.00600069867, 0.0200179144, 103.560653000)


class Bench:
    """An optical bench: random components with observed materials, and rays aimed at them."""

    def __init__(self, e, g, tame=False):
        self.e, self.g, self.tame = e, g, tame
        self.comps, self.aims, self.matn = [], [], []
        self.count, self.size = 0, None
        self.materials()

    # ---------------------------------------------------------------- materials
    def materials(self):
        import ex
        e, g = self.e, self.g
        n, f, p = g.u(1.2, 2.0), g.one((0.5, 0.9, 0.2)), g.one((0.5, 0.8, 0.02, 1.0))
        for name, inner, rec in (
                ("m", ex.matl.mirror, {"k": "mirror", "v": []}),
                ("a", ex.matl.absorber, {"k": "absorb", "v": []}),
                ("g", ex.matl.BasicRefractor(n), {"k": "const", "v": encv([n])}),
                ("s", ex.matl.SellmeierRefractor(*BK7), {"k": "sell", "v": encv(BK7)}),
                ("l", ex.Lossy(f), {"k": "lossy", "v": encv([f])}),
                ("p", ex.Pass(p), {"k": "pass", "v": encv([p])}),
                ("z", ex.Pass(0.0), {"k": "pass", "v": encv([0.0])})):
            e.spy(name, inner, rec)
        self.choice = ("m", "m", "g", "g", "g", "s", "l", "p", g.one(("p", "p", "p", "z")), "a")

    def mat(self, solid=True):
        return self.e.mats[self.g.one(self.choice if solid else ("m", "m", "l", "p", self.choice[8], "a"))]

    def name(self, s):
        self.count += 1
        return "%s%d" % (s, self.count)

    # --------------------------------------------------------------- components
    def leaf(self, kind=None):
        e, g = self.e, self.g
        k = kind or g.one(gen.KINDS)
        n = self.name("p")
        p = g.params(k)
        e.prim(n, k, p, self.mat(k != "plane"))
        return n, [(n, gen.Gen.box(k, p))]

    def tree(self, depth):
        e, g = self.e, self.g
        if depth == 0 or (depth == 1 and g.chance(0.3)):
            n, aims = self.leaf(g.one(gen.SOLIDS) if g.chance(0.95) else "plane")
            g.near(e, n, 0.7)
            return n, aims
        (l, a), (r, b) = self.tree(depth - 1), self.tree(depth - 1)
        n = self.name("c")
        e.csg(n, g.one(("union", "intersect", "difference")), l, r)
        return n, a + b

    def row(self):
        """one component of many solids: a row of things, or one with a row of holes"""
        e, g = self.e, self.g
        k, mats = int(g.r.integers(3, 6)), [self.mat() for _ in range(2)]
        holes = g.chance(0.4)
        x, names, self.gaps = 0.0, [], []
        for j in range(k):
            n, w = self.name("p"), g.u(0.2, 0.5)
            self.gaps.append(x - 0.05)
            if g.chance(0.5):
                e.prim(n, "sphere", (w,), g.one(mats))
            else:
                e.prim(n, "cuboid", (-w, -.5, -.5, w, .5, .5), g.one(mats))
            e.move(n, (x + w, g.u(-.1, .1), g.u(-.1, .1)))
            x += 2 * w + (0.1 if g.chance(0.7) else -0.1)
            names.append(n)
        if holes:
            n = self.name("p")
            e.prim(n, "cuboid", (-.3, -.7, -.7, x + .3, .7, .7), g.one(mats))
            for m in names:
                c = self.name("c")
                e.csg(c, "difference", n, m)
                n = c
        else:
            while len(names) > 1:
                i = int(g.r.integers(len(names) - 1))
                c = self.name("c")
                e.csg(c, "union", *names[i:i + 2])
                names[i:i + 2] = [c]
            n = names[0]
        return n, [(n, (np.array((-.3, -.4, -.4)), np.array((x + .3, .4, .4))))]

    def part(self):
        e, g = self.e, self.g
        n = self.name("q")
        f = g.one(("thick", "thick", "biconvex", "planoconvex", "plane", "spherical", "parabolic", "baffle", "aperture", "prism"))
        m = self.e.mats[g.one(("g", "g", "s", "l"))]
        ap = g.one((1.0, g.u(0.5, 2), (g.u(0.5, 2), g.u(0.5, 2)), (-g.u(0.5, 2), -g.u(0.5, 2))))
        h = 2.0
        if f == "thick":
            r = [g.one((-1, 1)) * g.u(2.5, 12) if g.chance(0.85) else np.inf for _ in range(2)]
            e.part(n, f, (*r, g.u(1.2, 1.6)), ap, mat=m)
        elif f == "biconvex":
            e.part(n, f, (g.u(2.5, 9), g.u(2.5, 9), g.u(1.2, 1.6)), ap, mat=m)
        elif f == "planoconvex":
            e.part(n, f, (g.u(2.5, 9), g.u(1.2, 1.6)), ap, mat=m)
        elif f == "plane":
            e.part(n, f, (g.one((0.0, 0.2, 1.0)),), ap, mat=self.mat(False))
        elif f == "spherical":
            e.part(n, f, (g.u(3, 9), g.u(0.1, 0.6)), ap, mat=self.mat(False))
        elif f == "parabolic":
            e.part(n, f, (g.u(1, 5), g.u(0.1, 0.6)), ap, mat=self.mat(False))
        elif f == "baffle":
            e.part(n, f, (), ap)
        elif f == "aperture":
            w = g.u(0.2, 0.9)
            ap2 = w * ap if not isinstance(ap, tuple) else tuple(w * a for a in ap)
            e.part(n, f, (), ap, ap2=ap2)
        else:
            e.part(n, f, (g.u(0.6, 2), g.u(0.6, 2)), mat=m)
        return n, [(n, (-0.6 * np.ones(3), 0.6 * np.ones(3)))]

    def add(self, kind=None, pose=True):
        e, g = self.e, self.g
        if not pose:                          # along the axes
            k = g.one(gen.KINDS + ("cuboid",))
            n, p = self.name("p"), g.params(k)
            e.prim(n, k, p, self.mat(k != "plane"))
            if k == "plane" or g.chance(0.4):
                e.rot(n, int(g.r.integers(1, 3)), 90.0)
            e.move(n, (g.u(-5, 5), g.u(-2, 2), g.u(-2, 2)))
            self.comps.append(n)
            self.aims.append((n, gen.Gen.box(k, p)))
            return n
        k = kind or g.one(("leaf", "leaf", "leaf", "tree", "tree", "part", "part", "row"))
        n, aims = {"leaf": self.leaf, "tree": lambda: self.tree(g.one((1, 1, 2))), "part": self.part, "row": self.row}[k]()
        if g.chance(0.85):
            g.rigid(e, n, 2, 0.5)
        if g.chance(0.25):
            e.scale(n, tuple(float(x) for x in g.r.uniform(0.7, 1.5, 3)))
        e.move(n, (g.u(-5, 5), g.u(-2, 2), g.u(-2, 2)))
        self.comps.append(n)
        self.aims += aims
        return n

    # --------------------------------------------------------------------- rays
    def ray(self, strong=False):
        e, g = self.e, self.g
        n, ext = g.one(self.aims)
        o, d = g.rays(e, n, "", (), 1, special=0.25, extent=ext, size=self.size)[0]
        if g.chance(0.15):
            d = tuple(-x for x in d)
        pw = 100.0 if strong else g.one((100.0, 100.0, 1.0, g.u(0.2, 100), g.u(0.11, 2), g.one((1.0, 0.0))))
        return (o, d, g.u(0.4, 0.7), pw)

    def rays(self, n, strong=False):
        return [self.ray(strong) for _ in range(n)]


def bench(e, g, comps, rays, strong=False):
    b = Bench(e, g)
    for _ in range(comps):
        b.add()
    e.fixed("s", b.rays(rays, strong))
    return b


# ---------------------------------------------------------------- C01, C02: systems
def c01(ctx):
    for i in range(ctx.scale(110, 1200)):
        with ctx.episode("bench", i) as (e, g):
            b = bench(e, g, int(g.r.integers(1, 6)), 12)
            comps = list(b.comps)
            e.tracer("t", ["s"], comps, lim=g.one((1, 3, 6, 10)), single=len(comps) == 1 and g.chance(0.5))
            e.trace("t", "r1", observe=True)
            if g.chance(0.4):              # the order of the components does not matter
                e.load("t", [str(x) for x in g.r.permutation(comps)])
                e.trace("t", "r2", observe=True)
                e.cmp("r1", "r2", range(12))
    for i in range(ctx.scale(20, 200)):    # many parallel surfaces, behind each other and behind the source
        with ctx.episode("stack", i) as (e, g):
            b = Bench(e, g)
            xs = np.cumsum(g.r.uniform(0.05, 1.0, 8))
            comps = []
            for j, x in enumerate(g.r.permutation(xs)):
                n = "w%d" % j
                e.prim(n, "plane", (g.u(1, 6), g.u(1, 6)), b.mat(False) if g.chance(0.4) else e.mats["p"])
                e.rot(n, 2, 90.0)
                e.move(n, (float(x), g.u(-1, 1), g.u(-1, 1)))
                comps.append(n)
            mid = float(xs[3]) + 0.01
            rays = [((mid, g.u(-2, 2), g.u(-2, 2)), tuple(g.one((1, -1)) * v for v in (1.0, g.u(-.3, .3), g.u(-.3, .3))),
                     0.5, 100.0) for _ in range(12)]
            e.fixed("s", rays)
            e.tracer("t", ["s"], comps, lim=g.one((4, 12)))
            e.trace("t", "r1", observe=True)
    for i in range(ctx.scale(25, 250)):    # components of many solids, with rays that start among them
        with ctx.episode("row", i) as (e, g):
            b = Bench(e, g)
            n, ((_, (lo, hi)),) = b.row()
            comps = [n]
            gaps = b.gaps
            if g.chance(0.5):
                b.add()
                comps += b.comps
            rays = []
            for _ in range(14):
                c = g.one((0.02, 0.2, 1.0))
                d = np.array((g.one((1.0, -1.0)), g.u(-c, c), g.u(-c, c)))
                o = (g.one(gaps) if g.chance(0.3) else g.u(lo[0], hi[0]), g.u(-.3, .3), g.u(-.3, .3))
                rays.append((o, d, 0.5, 100.0))
            if g.chance(0.5):
                g.rigid(e, n, 2, 2)
            M = np.array(e.o[n].get_world_transform())
            rays = [(tuple(float(x) for x in (M @ np.append(o, 1.0))[:3]), tuple(float(x) for x in gen.unit(M[:3, :3] @ d)), w, pw)
                    for o, d, w, pw in rays]
            e.fixed("s", rays)
            e.tracer("t", ["s"], comps, lim=g.one((1, 3, 8)))
            e.trace("t", "r1", observe=True)
    for i in range(ctx.scale(25, 250)):    # large and small systems, and rays from far away
        with ctx.episode("size", i) as (e, g):
            b = Bench(e, g)
            c = b.size = 10.0 ** g.one((g.u(-2, 0), g.u(1, 2.5)))
            for _ in range(int(g.r.integers(1, 4))):
                n = b.add()
                e.scale(n, (c,) * 3, via=3)
                if g.chance(0.5):
                    e.move(n, g.vec(3 * c))
            e.fixed("s", b.rays(12))
            e.tracer("t", ["s"], b.comps, lim=g.one((1, 3, 6)))
            e.trace("t", "r1", observe=True)
    for i in range(ctx.scale(20, 200)):    # components that are listed twice, or are also part of another
        with ctx.episode("twice", i) as (e, g):
            b = Bench(e, g)
            kind = g.one(("list", "list", "part", "both"))
            if kind == "list":
                for _ in range(int(g.r.integers(1, 4))):
                    b.add()
                comps = b.comps + [g.one(b.comps) for _ in range(int(g.r.integers(1, 3)))]
            else:
                (l, a), (r, c) = b.leaf(g.one(gen.SOLIDS)), b.leaf(g.one(gen.SOLIDS))
                g.near(e, l, 0.7)
                g.near(e, r, 0.7)
                n = b.name("c")
                e.csg(n, g.one(("union", "intersect", "difference")), l, r)
                b.aims += a + c
                comps = [n, g.one((l, r))] if kind == "part" else [n, l, r, n]
            e.fixed("s", b.rays(12))
            e.tracer("t", ["s"], [str(x) for x in g.r.permutation(comps)], lim=g.one((1, 3, 6, 10)))
            e.trace("t", "r1", observe=True)
    for i in range(ctx.scale(12, 120)):    # many components, after many objects were made
        with ctx.episode("many", i) as (e, g):
            if i % 3 == 0:
                e.many(g.one((300, 33000, 70000)))
            b = Bench(e, g)
            n = int(g.one((17, 33, 40, g.r.integers(10, 70))))
            for j in range(n):
                k = b.name("k")
                if g.chance(0.7):
                    e.prim(k, "sphere", (g.u(0.2, 0.6),), b.mat())
                else:
                    e.prim(k, "plane", (g.u(0.4, 2), g.u(0.4, 2)), b.mat(False))
                    e.rot(k, int(g.r.integers(1, 3)), g.angle())
                e.move(k, g.vec(4))
                b.comps.append(k)
                b.aims.append((k, (-0.3 * np.ones(3), 0.3 * np.ones(3))))
            e.fixed("s", b.rays(12))
            e.tracer("t", ["s"], b.comps, lim=g.one((1, 3, 8)))
            e.trace("t", "r1", observe=True)
    for i in range(ctx.scale(50, 500)):    # surfaces very close to each other, and to the source
        with ctx.episode("gaps", i) as (e, g):
            b = Bench(e, g)
            comps, x = [], 0.0
            for j in range(int(g.r.integers(2, 7))):
                n = "w%d" % j
                k = g.one(("plane", "plane", "cuboid", "sphere"))
                if k == "plane":
                    e.prim(n, "plane", (3.0, 3.0), e.mats[g.one(("p", "p", "m", "l"))])
                    e.rot(n, 2, 90.0)
                elif k == "cuboid":
                    w = 10.0 ** -g.u(1, 4.6)
                    e.prim(n, "cuboid", (0.0, -1.5, -1.5, w, 1.5, 1.5), e.mats[g.one(("g", "g", "p", "s"))])
                else:
                    r = g.u(0.1, 2)
                    e.prim(n, "sphere", (r,), e.mats[g.one(("g", "p"))])
                    e.move(n, (r, 0.0, 0.0))
                    w = 2 * r
                e.move(n, (x, 0.0, 0.0))
                x += (0.0 if k == "plane" else w) + 10.0 ** -g.u(1.5, 5.2)
                comps.append(n)
            comps = [str(c) for c in g.r.permutation(comps)]
            rays = []
            for _ in range(10):
                s = g.one((-10.0 ** -g.u(0.5, 5.2), g.u(0, x)))
                t = g.one((0.0, 1e-3, 0.1))
                rays.append(((s, *(float(v) for v in g.r.uniform(-0.02, 0.02, 2))),
                             (g.one((1.0, 1.0, -1.0)), g.u(-t, t), g.u(-t, t)), 0.5, 100.0))
            e.fixed("s", rays)
            e.tracer("t", ["s"], comps, lim=g.one((3, 8, 16)))
            e.trace("t", "r1", observe=True)


def c02(ctx):
    for i in range(ctx.scale(100, 1000)):
        with ctx.episode("bench", i) as (e, g):
            b = bench(e, g, int(g.r.integers(2, 7)), 14)
            e.tracer("t", ["s"], b.comps, lim=g.one((2, 5, 10, 25)), thr=g.one((None, 0.0, 1.0)))
            if i % 3 == 0:
                e.set("t", "off", g.one((3e-7, 1e-5, 1e-4, 1e-3)))
            e.trace("t", "r1", observe=True)
            if i % 3 == 0:
                e.set("t", "off", g.one((1e-6, 1e-5, 1e-4, 1e-3)))
                e.trace("t", "r2", observe=True)
    lanes(ctx, 40, 400)
    caves(ctx, 15, 150)


def caves(ctx, quick, thorough):
    """rays inside of closed reflecting or refracting rooms: long chains"""
    for i in range(ctx.scale(quick, thorough)):
        with ctx.episode("cave", i) as (e, g):
            b = Bench(e, g)
            k = g.one(("sphere", "cuboid", "cylinder"))
            p = {"sphere": (2.0,), "cuboid": (-2, -1.5, -1, 2, 1.5, 1), "cylinder": (1.5, -2, 2)}[k]
            e.prim("room", k, tuple(float(x) for x in p), e.mats[g.one(("m", "m", "l"))])
            g.near(e, "room")
            comps = ["room"]
            if g.chance(0.6):
                e.prim("ball", "sphere", (0.5,), e.mats[g.one(("m", "g", "p"))])
                M = np.array(e.o["room"].get_world_transform())
                e.move("ball", tuple(float(x) for x in M[:3, 3]))
                comps.append("ball")
            rays = []
            for _ in range(5):
                q = g.dir() * g.u(0.55, 0.75)
                M = np.array(e.o["room"].get_world_transform())
                w = M[:3, :3] @ q
                o = M[:3, 3] + q * min(1.0, np.linalg.norm(w) / np.linalg.norm(q))
                rays.append((tuple(float(x) for x in o), tuple(float(x) for x in g.dir()), 0.6, 100.0))
            e.fixed("s", rays)
            e.tracer("t", ["s"], g.one((comps, comps[::-1])), lim=g.one((15, 40)))
            e.trace("t", "r1", observe=True)


# ---------------------------------------------------------------- C03: ends of rays
def lane_scene(e, g, fates, spread=0.7):
    """One lane per ray: stations along x do what the fate of the ray says.
    fates: a sequence of "go" | "absorb" | "weak" | "miss" | "turn" per ray; after its end nothing is met"""
    for name, inner, rec in LANE_MATS():
        e.spy(name, inner, rec)
    comps, rays = [], []
    for i, fate in enumerate(fates):
        y = spread * i
        for j, f in enumerate(fate):
            if f == "miss":
                break
            n = "f%d_%d" % (i, j)
            if g.chance(0.3):
                e.prim(n, "plane", (0.4, 0.4), e.mats[f])
                e.rot(n, 2, 90.0)
                if f != "loop":
                    e.rot(n, 3, g.u(-20, 20))
            else:
                e.prim(n, "plane", (0.4, 0.4), e.mats[f])
                e.rot(n, 2, g.one((90.0, -90.0)))
            e.move(n, (1.0 + j, y, 0.0))
            comps.append(n)
            if f == "loop":
                m = n + "b"
                e.prim(m, "plane", (0.4, 0.4), e.mats["loop"])
                e.rot(m, 2, 90.0)
                e.move(m, (0.5 + j, y, 0.0))
                comps.append(m)
                break
        rays.append(((0.6 if fate and fate[0] == "loop" else 0.0, y, 0.0), (1, 0, 0), 0.5, 100.0))
    return comps, rays


def LANE_MATS():
    import ex
    return (("go", ex.Pass(1.0), {"k": "pass", "v": encv([1.0])}),
            ("absorb", ex.matl.absorber, {"k": "absorb", "v": []}),
            ("weak", ex.Pass(0.0005), {"k": "pass", "v": encv([0.0005])}),
            ("loop", ex.matl.mirror, {"k": "mirror", "v": []}))


def lanes(ctx, quick, thorough):
    for i in range(ctx.scale(quick, thorough)):
        with ctx.episode("lanes", i) as (e, g):
            k = int(g.r.integers(2, 9))
            fates = []
            for _ in range(k):
                m = int(g.r.integers(0, 5))
                fates.append(["go"] * m + [g.one(("absorb", "weak", "miss", "loop"))])
            comps, rays = lane_scene(e, g, fates)
            if not comps:
                e.prim("far", "sphere", (1.0,), e.mats["go"])
                e.move("far", (0, 50, 50))
                comps = ["far"]
            comps = [str(x) for x in g.r.permutation(comps)]
            e.fixed("s", rays)
            e.tracer("t", ["s"], comps, lim=g.one((1, 2, 4, 7)))
            e.trace("t", "r1", observe=True)
            e.set("t", "lim", g.one((0, 1, 3, 20)))
            e.trace("t", "r2", observe=True)


def fates(ctx):
    """every combination of fates of the model, on the real tracer"""
    out = ctx.model("MC_Rays", "MC_Rays.cfg")
    seen = sorted({json_key(s) for s in vp.printed(out, "CASE")})
    if len(seen) < 90:
        raise vp.Machinery("only %d cases from MC_Rays" % len(seen))
    import json
    g0 = ctx.gen("order")
    for i in g0.r.permutation(len(seen))[:ctx.scale(110, 4000)]:
        case = json.loads(seen[i])
        with ctx.episode("fate", int(i)) as (e, g):
            fs = [[f for f in fate] for fate in case["fates"]]
            comps, rays = lane_scene(e, g, fs)
            e.prim("far", "sphere", (1.0,), e.mats["go"])
            e.move("far", (0, 50, 50))
            comps.append("far")
            e.fixed("s", rays)
            e.tracer("t", ["s"], comps, lim=case["lims"][0])
            e.trace("t", "r0", observe=True)
            for j, l in enumerate(case["lims"][1:]):
                e.set("t", "lim", l)
                e.trace("t", "r%d" % (j + 1), observe=True)


def json_key(x):
    import json
    return json.dumps(x, sort_keys=True)


def c03(ctx):
    fates(ctx)
    lanes(ctx, 50, 500)
    for i in range(ctx.scale(50, 500)):
        with ctx.episode("bench", i) as (e, g):
            b = bench(e, g, int(g.r.integers(2, 5)), 12)
            e.tracer("t", ["s"], b.comps, lim=g.one((0, 1, 2, 7)), thr=g.one((None, 0.0, 0.5, 30.0)))
            e.trace("t", "r1", observe=True)
            e.set("t", "thr", g.one((0.0, 0.1, 60.0)))
            if i % 4 == 0:
                e.set("t", "off", g.one((1e-5, 1e-3)))
            e.set("t", "lim", g.one((1, 3, 12)))
            e.trace("t", "r2", observe=True)
    for i in range(ctx.scale(25, 200)):      # intensities at the threshold
        with ctx.episode("threshold", i) as (e, g):
            import ex
            thr = g.one((0.1, 1.0, 0.25, 12.5, 50.0))
            comps = []
            for j in range(8):
                f = g.one((thr / 100, 0.5, 0.25, 0.125, 0.9))
                e.spy("f%d" % j, ex.Pass(f), {"k": "pass", "v": encv([f])})
                e.prim("p%d" % j, "plane", (1.0, 1.0), e.mats["f%d" % j])
                e.rot("p%d" % j, 2, 90.0)
                e.move("p%d" % j, (1.0 + j, 0, 0))
                comps.append("p%d" % j)
            e.fixed("s", [((0, 0.01 * k, 0), (1, 0, 0), 0.6, pw) for k, pw in
                          enumerate((100.0, thr * 2, thr * 4, 2 * thr * (1 + 1e-13), thr * 8, 100.0 * thr))])
            e.tracer("t", ["s"], comps, thr=thr)
            e.trace("t", "r1", observe=True)
    caves(ctx, 8, 80)
    for lim in (0, 1, 2, 60, 130, 260):      # two parallel mirrors
        with ctx.episode("resonator", lim) as (e, g):
            b = Bench(e, g)
            for j, x in enumerate((0.0, 2.0)):
                e.prim("m%d" % j, "plane", (4.0, 4.0), e.mats["m"])
                e.rot("m%d" % j, 2, 90.0)
                e.move("m%d" % j, (x, 0, 0))
            e.fixed("s", [((1, 0, 0), (1, 0, 0), 0.5, 100.0), ((1, 0, 0), (-1, 0.001, 0), 0.5, 100.0),
                          ((1, 0, 0), (0, 1, 0), 0.5, 100.0)])
            e.tracer("t", ["s"], ["m0", "m1"], lim=lim, thr=g.one((0.0, 0.1)))
            e.trace("t", "r1", observe=True)


# ---------------------------------------------------------------- C04: independence
def c04(ctx):
    for i in range(ctx.scale(120, 1000)):
        with ctx.episode("batch", i) as (e, g):
            n = int(g.r.integers(4, 15))
            b = Bench(e, g)
            c = g.r.random()
            for _ in range(int(g.r.integers(1, 5))):
                b.add(pose=not 0.5 <= c < 0.65)
            rays = b.rays(n)
            if c < 0.25:                     # nearly the same colour
                w, d = g.u(0.4, 0.7), 10.0 ** -g.u(1, 8)
                rays = [(o, v, w + d * g.u(-1, 1), pw) for o, v, _, pw in rays]
            elif c < 0.5:                    # nearly the same ray, of nearly the same intensity
                d = 10.0 ** -g.u(1, 8)
                o, v, w, pw = rays[0]
                rays = [(tuple(x + d * g.u(-1, 1) for x in o), tuple(x + d * g.u(-1, 1) for x in v),
                         w + g.one((0, d)) * g.u(-1, 1), pw * (1 + g.one((0, d)) * g.u(-1, 1))) for _ in range(n)]
            elif c < 0.75:                   # a beam along an axis, with some rays that are slightly inclined
                axial = c < 0.65
                m = g.one(b.aims)
                M = np.array(e.o[m[0]].get_world_transform())
                v = np.eye(3)[int(g.r.integers(3))] if axial else gen.unit(M[:3, int(g.r.integers(3))])
                v, d, far = v * g.one((-1, 1)), 10.0 ** -g.u(2, 4 if axial else 9), g.one((3.0, 60.0, 500.0))
                lo, hi = m[1]
                for k in range(n):            # the places that are aimed at are mostly close to the outline
                    q = np.where(g.r.random(3) < 0.5, g.r.choice((lo, hi)) + d * far * g.r.uniform(-1, 1, 3), g.r.uniform(lo, hi))
                    q = (M @ np.append(q, 1.0))[:3]
                    t = gen.unit(v + (0 if g.chance(0.55) else d) * g.r.uniform(-1, 1, 3))
                    rays[k] = (tuple(float(x) for x in q - far * t), tuple(float(x) for x in t)) + rays[k][2:]
            if g.chance(0.3):                # of very different intensities
                rays = [(o, v, w, g.one((g.u(0.11, 0.5), 1.0, 100.0, 10.0 ** g.u(2, 6)))) for o, v, w, _ in rays]
            lim = g.one((3, 4, 6))
            e.fixed("s", rays)
            e.tracer("t", ["s"], b.comps, lim=lim)
            e.trace("t", "whole", observe=True)
            perm = [int(x) for x in g.r.permutation(n)]
            part = perm[:int(g.r.integers(1, n + 1))]
            cuts = sorted(int(x) for x in g.r.integers(0, len(part) + 1, int(g.r.integers(0, 4))))
            cuts = [0] + [c for c in cuts] + [len(part)]
            groups = [part[a:z] for a, z in zip(cuts, cuts[1:])]
            groups = [x for x in groups if x] or [part]
            for j, x in enumerate(groups):
                e.fixed("s%d" % j, [rays[k] for k in x])
            e.tracer("u", ["s%d" % j for j in range(len(groups))], b.comps, lim=lim)
            e.trace("u", "part", observe=True)
            e.cmp("whole", "part", part)
            for k in g.r.permutation(n)[:6]:
                e.fixed("a%d" % k, [rays[int(k)]])
                e.tracer("v%d" % k, ["a%d" % k], b.comps, lim=lim)
                e.trace("v%d" % k, "alone%d" % k, observe=True)
                e.cmp("whole", "alone%d" % k, [int(k)])
            if g.chance(0.3):                # with every ray twice
                e.fixed("d", rays + rays[::-1])
                e.tracer("w", ["d"], b.comps, lim=lim)
                e.trace("w", "double", observe=True)
                e.cmp("double", "whole", range(n))
                e.cmp("double", "whole", range(2 * n - 1, n - 1, -1))


    sizes = [257, 512, 513, 1025, 2049] + [2 ** k + d for k in range(12) for d in (-1, 0, 1)]
    for i in range(ctx.scale(9, 40)):         # large batches
        with ctx.episode("large", i) as (e, g):
            n = sizes[i] if i < 5 else int(g.one((max(1, g.one(sizes[5:])), g.u(100, 3000))))
            b = Bench(e, g)
            e.prim("w", "plane", (30.0, 30.0), e.mats["a"])
            e.rot("w", 2, 90.0)
            e.move("w", (3.0, 0.0, 0.0))
            e.prim("q", "sphere", (0.5,), e.mats[g.one(("p", "g", "m"))])
            rays = [((-2.0, float(y), float(z)), (1.0, 0.0, 0.0), 0.5, 100.0) for y, z in g.r.uniform(-1, 1, (n, 2))]
            # some of them in one source, some in others
            cuts = [0] + sorted(int(x) for x in g.r.integers(0, n + 1, int(g.r.integers(0, 3)))) + [n]
            srcs = []
            for a, z in zip(cuts, cuts[1:]):
                if z > a:
                    srcs.append("s%d" % len(srcs))
                    e.fixed(srcs[-1], rays[a:z])
            comps, lim = g.one((["w"], ["w", "q"])), g.one((1, 3))
            e.tracer("t", srcs, comps, lim=lim)
            e.trace("t", "whole")
            some = sorted({0, n // 2, n - 1} | {int(x) for x in g.r.integers(0, n, 6)})
            e.fixed("few", [rays[k] for k in some])
            e.tracer("u", ["few"], comps, lim=lim)
            e.trace("u", "part")
            e.cmp("whole", "part", some)


# ---------------------------------------------------------------- C05: sessions
def c05(ctx):
    ctx.model("Session", "MC_Session.cfg" if not ctx.scale(0, 1) else "MC_Session_deep.cfg", timeout=3000)
    for f, inv in (("forgets", "Current"), ("table", "Current"), ("ledger", "Held")):
        ctx.faulty("Session", "MC_Session_%s.cfg" % f, inv)
    out = ctx.model("Session", "Sim_Session.cfg", simulate=ctx.scale(130, 1500), depth=30)
    for i, ops in enumerate(vp.printed(out, "SCRIPT")):
        with ctx.episode("session", i) as (e, g):
            Session(e, g).run(ops)
    for i in range(ctx.scale(6, 60)):         # many traces
        with ctx.episode("often", i) as (e, g):
            b = Bench(e, g)
            for _ in range(3):
                b.add()
            e.source("a", "line", 1.0, wl=0.5)
            e.fixed("s", b.rays(4))
            e.tracer("t", ["s", "a"], b.comps, nr=3, lim=4)
            for j in range(int(g.r.integers(12, 40))):
                e.trace("t", "r%d" % j, observe=True)
                c = g.r.random()
                if c < 0.15:
                    g.rigid(e, g.one(b.comps + ["a"]), 1, 0.3)
                elif c < 0.25:
                    e.set("t", "nr", int(g.one((0, 1, 1, g.r.integers(0, 6)))))
                    e.get("t", "nr")
                elif c < 0.35:
                    e.set("t", "lim", int(g.r.integers(0, 6)))
                elif c < 0.45:
                    e.load("t", [str(x) for x in g.r.permutation(b.comps)[:int(g.r.integers(1, 4))]])
            for j in range(0, j, 7):
                e.held("r%d" % j)
    for i in range(ctx.scale(12, 100)):       # limits go up and down while rays could go on for ever
        with ctx.episode("limits", i) as (e, g):
            b = Bench(e, g)
            for j, x in enumerate((0.0, g.u(0.5, 3))):
                n = "w%d" % j
                e.prim(n, "plane", (90.0, 90.0), e.mats[g.one(("m", "m", "l"))])
                e.rot(n, 2, 90.0)
                e.move(n, (x, 0.0, 0.0))
            e.fixed("s", [((x / 2, g.u(-1, 1), g.u(-1, 1)), (g.one((1, -1)), g.u(-.3, .3), g.u(-.3, .3)), 0.5, g.u(5, 100)) for _ in range(3)])
            e.tracer("t", ["s"], ["w0", "w1"], lim=g.one((1, 4)))
            for j in range(6):
                e.trace("t", "r%d" % j, observe=True)
                e.set("t", "lim", g.one((0, 1, 3, 8, 13, 30)))
                if g.chance(0.3):
                    e.reset("t")


class Session:
    NR = {1: 3, 2: 5}

    def __init__(self, e, g):
        self.e, self.g = e, g
        self.b = b = Bench(e, g)
        self.fill()
        e.fixed("s1", b.rays(5))
        kind = g.one(("line", "circle", "cone", "wedge"))
        e.source("s2", kind, g.one((0.5, 1.5)) if kind in ("line", "circle") else g.u(5, 40), wl=g.u(0.4, 0.7))
        g.rigid(e, "s2", 2, 3)
        e.source("s3x", "static", 1.0, 1.0, 20.0)
        e.recorded("s3", "s3x")
        self.lims = {0: 0, 1: g.one((1, 2)), 2: g.one((4, 7))}
        self.srcs = {"t1": ["s1", "s2"], "t2": g.one((["s2"], ["s3", "s1"], ["s1"]))}
        self.conf = {}
        for t in ("t1", "t2"):
            e.tracer(t, self.srcs[t], b.comps, nr=3, lim=5, single=g.chance(0.3), group=g.one((None, None, "tuple", "iter")))
            self.conf[t] = {"nr": 3, "lim": 5, "comps": list(b.comps)}
        self.labels = []
        self.n = 0

    def fill(self):
        for _ in range(4):
            self.b.add()

    def op(self, a, t):
        """further kinds of steps"""

    def label(self, s):
        self.n += 1
        return "%s%d" % (s, self.n)

    def run(self, ops):
        e, g = self.e, self.g
        for op in ops:
            a = op["a"]
            t = "t%d" % op["t"] if "t" in op else None
            if a == "nr":
                self.conf[t]["nr"] = self.NR[op["v"]]
                e.set(t, "nr", self.NR[op["v"]])
            elif a == "lim":
                self.conf[t]["lim"] = self.lims[op["v"]]
                e.set(t, "lim", self.lims[op["v"]])
            elif a == "load":
                names = [self.b.comps[i - 1] for i in op["s"]]
                names = [str(x) for x in g.r.permutation(names)]
                self.conf[t]["comps"] = names
                e.load(t, names, single=len(names) == 1 and g.chance(0.5), how=g.one((None, None, "edit", "iter")))
            elif a == "change":
                self.change(op["c"])
            elif a == "reset":
                e.reset(t)
                e.results(t)
            elif a == "trace":
                self.trace(t)
            elif a == "fail":
                self.fail(t)
            elif a == "results":
                e.results(t)
            elif a == "look":
                e.get(t, "nr")
                e.get(t, "lim")
                e.system(t)
                if g.chance(0.3):
                    e.sids(t)
                for l in self.labels[-3:]:
                    e.held(l)
            else:
                self.op(a, t)
        for l in self.labels:
            e.held(l)

    def trace(self, t):
        e, g, c = self.e, self.g, self.conf[t]
        l = self.label("r")
        e.trace(t, l, observe=True)
        self.labels.append(l)
        if g.chance(0.3):
            m = self.label("r")
            e.trace(t, m, observe=True)
            self.labels.append(m)
        if g.chance(0.6) and "s3" not in self.srcs[t]:
            f, m = self.label("f"), self.label("r")
            e.tracer(f, self.srcs[t], c["comps"], nr=c["nr"], lim=c["lim"])
            e.trace(f, m, observe=True)
            n = sum(5 if s == "s1" else c["nr"] for s in self.srcs[t])
            e.cmp(l, m, range(n))

    def fail(self, t):
        e, g = self.e, self.g
        l = self.label("r")
        if "s1" in self.srcs[t] and g.chance(0.25):
            e.fail(t, l, None, "s1")
        elif e.fail(t, l, int(g.one((0, 0, 1, 2, 3, 5, 9)))) is not None:
            self.labels.append(l)
        c = g.r.random()
        if c < 0.2:
            e.results(t)
        elif c < 0.6:
            self.trace(t)

    def change(self, c):
        e, g = self.e, self.g
        if c == 0:
            s = g.one(("s2", "s2", "s3x"))
            if g.chance(0.3):
                e.setwl(s, g.u(0.4, 0.7))
            else:
                g.rigid(e, s, 1, 1.5)
            return
        n = self.b.comps[c - 1]
        mine = [x for x in e.o if x == n or self.inside(n, x)]
        leaves = [x for x in mine if x.startswith("p")]
        if leaves and g.chance(0.45):
            e.setmat(g.one(leaves), e.mats[g.one(("m", "g", "s", "l", "p", "a"))])
        else:
            g.rigid(e, g.one(mine) if g.chance(0.5) else n, 1, 1.0)

    def inside(self, n, x):
        o = self.e.o
        return hasattr(o[x], "surface_ids") and not x.startswith("q") and x != n and \
            {i for i, _ in o[x].surface_ids} <= {i for i, _ in o[n].surface_ids}


# ---------------------------------------------------------------- C06: sources of rays
def c06(ctx):
    for i in range(ctx.scale(150, 1500)):
        with ctx.episode("sources", i) as (e, g):
            b = Bench(e, g)
            for _ in range(int(g.r.integers(1, 4))):
                b.add()
            wall = g.chance(0.7)
            if wall:                          # nearly everything hits something
                e.prim("room", "sphere", (40.0,), e.mats["a"])
                b.comps.append("room")
            srcs, members = [], []
            for j in range(int(g.r.integers(1, 6))):
                n = "s%d" % j
                k = g.one(("fixed", "line", "circle", "cone", "wedge", "lamp", "static"))
                if k == "fixed":
                    m = int(g.r.integers(1, 6)) if g.chance(0.85) else 0     # none at all: fine
                    e.fixed(n, b.rays(m), g.one((None, np.arange(m) + 2, np.zeros(m), g.r.permutation(m), np.arange(m) // 2)))
                elif k in ("lamp", "static"):
                    e.source(n + "x", k, g.u(0, 2), g.u(0, 2), g.u(1, 80), wl=g.u(0.4, 0.7))
                    g.rigid(e, n + "x", 2, 2)
                    e.recorded(n, n + "x")
                else:
                    e.source(n, k, g.u(0.2, 2) if k in ("line", "circle") else g.u(5, 60), wl=g.u(0.4, 0.7))
                    g.rigid(e, n, 2, 2)
                srcs.append(n)
            nr = int(g.one((2, 3, 4, 7)))
            how = g.one((None, None, "tuple", "group"))
            if how == "group":
                e.group("grp", srcs)
                g.rigid(e, "grp", 1, 1)
                how = "grp"
            e.tracer("t", srcs, b.comps, nr=nr, lim=g.one((1, 3)), single=how is None and g.chance(0.5), group=how)
            e.trace("t", "r1", observe=True)
            if g.chance(0.6):
                e.set("t", "nr", int(g.one((2, 5, 9))))
            e.sids("t")
            e.results("t")
            if g.chance(0.5):
                for s in srcs:
                    if g.chance(0.3) and s in e.o and e.o[s].__class__.__name__.endswith("Rays"):
                        e.setwl(s, g.u(0.4, 0.7)) if g.chance(0.5) else g.rigid(e, s, 1, 1)
                e.trace("t", "r2", observe=True)
                e.sids("t")
                e.held("r1")
    for i in range(ctx.scale(12, 120)):       # many sources, some of them listed more than once
        with ctx.episode("many", i) as (e, g):
            b = Bench(e, g)
            b.add()
            e.prim("room", "sphere", (40.0,), e.mats["a"])
            b.comps.append("room")
            n, srcs = int(g.one((12, 40, 140, 270, g.r.integers(6, 100)))), []
            for j in range(n):
                k = "s%d" % j
                if srcs and g.chance(0.15):
                    k = g.one(srcs)
                elif g.chance(0.6):
                    m = int(g.one((1, 1, 2, 0)))
                    e.fixed(k, b.rays(m))
                else:
                    e.source(k, g.one(("line", "circle", "cone", "wedge")), g.u(0.2, 2), wl=g.u(0.4, 0.7))
                    e.move(k, g.vec(3))
                srcs.append(k)
            e.tracer("t", srcs, b.comps, nr=int(g.one((1, 2, 3))), lim=2)
            e.trace("t", "r1", observe=True)
            e.sids("t")
            e.results("t")
