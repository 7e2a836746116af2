"""Scenarios for poses, solids, normals and bounding volumes (C07, C08, C09, C10, C11, C12, C13, C14)."""
import numpy as np

import gen


# ---------------------------------------------------------------- C14: primitives
def c14(ctx):
    for i in range(ctx.scale(140, 1500)):
        with ctx.episode("prim", i) as (e, g):
            for k in gen.KINDS:
                p = g.params(k)
                e.prim(k, k, p)
                for _ in range(int(g.r.integers(0, 5))):
                    g.step(e, k)
                e.hits(k, g.rays(e, k, k, p, 40, unitary=False), normals=False)
                if g.chance(0.3):
                    g.step(e, k)
                    e.hits(k, g.rays(e, k, k, p, 12), normals=False)
                if g.chance(0.2):           # a single ray
                    e.hits(k, g.rays(e, k, k, p, 1), normals=False)


    sizes(ctx, 40, 400, False)
    for i in range(ctx.scale(30, 300)):     # as a part of large batches
        with ctx.episode("batch", i) as (e, g):
            for k in gen.KINDS:
                p = g.params(k)
                e.prim(k, k, p)
                for _ in range(int(g.r.integers(0, 4))):
                    g.step(e, k)
                for _ in range(3):
                    e.hits(k, g.rays(e, k, k, p, 12), normals=False, among=g.among(12))


def sizes(ctx, quick, thorough, normals):
    """things of any size, seen from any distance"""
    for i in range(ctx.scale(quick, thorough)):
        with ctx.episode("size", i) as (e, g):
            for k in gen.KINDS:
                c = g.scale()
                p = tuple(c * x for x in g.params(k))
                e.prim(k, k, p)
                if g.chance(0.7):
                    e.rot(k, int(g.r.integers(1, 4)), g.angle())
                if g.chance(0.3):
                    e.scale(k, tuple(float(x) for x in g.r.uniform(0.5, 2, 3)))
                e.move(k, g.vec(g.one((c, c, 10.0))))
                e.hits(k, g.rays(e, k, k, p, 20, size=c), normals=normals)


# ---------------------------------------------------------------- CSG trees
class Tree:
    """A random CSG expression with the names of its parts: leaves = {name: (kind, params)}"""

    def __init__(self, e, g, depth, prefix="", sheets=0.0, pose=True, extra=0.25, size=None):
        self.e, self.g, self.leaves, self.nodes, self.size = e, g, {}, [], size
        self.n = 0
        self.prefix = prefix
        self.sheets, self.pose, self.extra = sheets, pose, extra
        self.root = self.build(depth)

    def name(self, s):
        self.n += 1
        return "%s%s%d" % (self.prefix, s, self.n)

    def build(self, depth):
        e, g = self.e, self.g
        if depth == 0 or (depth < 3 and g.chance(self.extra)):
            n = self.name("p")
            k = "plane" if g.chance(self.sheets) else g.one(gen.SOLIDS)
            p = tuple((self.size or 1) * x for x in g.params(k, big=k == "plane"))
            e.prim(n, k, p)
            if self.pose:
                g.near(e, n, 0.9 * (self.size or 1))
            self.leaves[n] = (k, p)
            return n
        l, r = self.build(depth - 1), self.build(depth - 1)
        n = self.name("c")
        e.csg(n, g.one(("union", "intersect", "difference")), l, r)
        self.nodes.append((n, l, r))
        if self.pose and g.chance(0.3):
            g.near(e, n, 0.5 * (self.size or 1))
        return n

    def any(self):
        return self.g.one(list(self.leaves) + [n for n, _, _ in self.nodes])

    def aimed(self, count, special=0.4):
        out = []
        names = list(self.leaves)
        while len(out) < count:
            n = self.g.one(names)
            out += self.g.rays(self.e, n, *self.leaves[n], 1, special=special, size=self.size)
        return out


def c07(ctx):
    for i in range(ctx.scale(150, 1500)):
        with ctx.episode("tree", i) as (e, g):
            t = Tree(e, g, int(g.r.integers(1, 5)), sheets=0.12 if i % 3 == 0 else 0.0)
            e.hits(t.root, t.aimed(40), normals=False)
            if g.chance(0.6):               # the operands as they are currently posed
                for _ in range(int(g.r.integers(1, 3))):
                    g.near(e, t.any(), 0.4)
                e.hits(t.root, t.aimed(25), normals=False)
                e.hits(t.any(), t.aimed(10), normals=False)
    for i in range(ctx.scale(30, 300)):     # of any size, from any distance
        with ctx.episode("size", i) as (e, g):
            c, g.far = g.scale(), True
            t = Tree(e, g, int(g.r.integers(1, 4)), size=c)
            e.hits(t.root, t.aimed(20), normals=False)
            e.move(t.root, g.vec(g.one((c, 10.0, 100.0))))
            e.hits(t.root, t.aimed(10), normals=False)
    for i in range(ctx.scale(25, 250)):     # as a part of large batches
        with ctx.episode("batch", i) as (e, g):
            t = Tree(e, g, int(g.r.integers(1, 5)))
            for _ in range(3):
                e.hits(t.root, t.aimed(16), normals=False, among=g.among(16))
    for i in range(ctx.scale(40, 300)):     # simple shapes, concentric and disjoint operands
        with ctx.episode("pair", i) as (e, g):
            a = g.size()
            e.prim("a", "sphere", (a,))
            kind = g.one(gen.SOLIDS)
            p = {"sphere": (a * g.u(0.3, 0.9),), "cylinder": (a * g.u(0.2, 0.7), -2 * a, 2 * a),
                 "paraboloid": (0.5, 2 * a), "cuboid": (-a * g.u(0.2, 0.5), -2 * a, -a * g.u(0.2, 0.5), a * g.u(0.2, 0.5), 2 * a, a * g.u(0.2, 0.5))}[kind]
            e.prim("b", kind, p)
            if g.chance(0.5):
                e.move("b", g.shift(2.0 * a))
            op = g.one(("union", "intersect", "difference"))
            l, r = ("a", "b") if g.chance(0.7) else ("b", "a")
            e.csg("c", op, l, r)
            rays = []
            for n, kk, pp in (("a", "sphere", (a,)), ("b", kind, p)):
                rays += g.rays(e, n, kk, pp, 25)
            e.hits("c", rays, normals=False)


    for i in range(ctx.scale(40, 400)):     # narrow gaps between operands, and thin walls
        with ctx.episode("thin", i) as (e, g):
            w = 10.0 ** -g.u(1.5, 4.5)
            kind = g.one(("cuboid", "sphere", "cylinder", "shell", "lens"))
            if kind == "cuboid":            # side by side, along x
                e.prim("a", "cuboid", (-1.0, -1.0, -1.0, 0.0, 1.0, 1.0))
                e.prim("b", "cuboid", (w, -1.0, -1.0, 1.0, 1.0, 1.0))
                op, axis = g.one(("union", "union", "difference")), (1.0, 0.0, 0.0)
            elif kind == "sphere":          # with poles close to each other
                e.prim("a", "sphere", (1.0,))
                e.prim("b", "sphere", (g.u(0.4, 2),))
                e.move("b", (1.0 + e.o["b"].primitive.get_radius() + w, 0, 0))
                op, axis = "union", (1.0, 0.0, 0.0)
            elif kind == "cylinder":        # stacked
                e.prim("a", "cylinder", (1.0, -1.0, 0.0))
                e.prim("b", "cylinder", (g.u(0.5, 1.5), w, 1.0))
                op, axis = "union", (0.0, 0.0, 1.0)
            elif kind == "shell":           # a thin shell
                r = g.u(0.5, 2)
                e.prim("a", "sphere", (r,))
                e.prim("b", "sphere", (r - w,))
                op, axis = "difference", None
            else:                           # a thin common part
                e.prim("a", "sphere", (1.0,))
                e.prim("b", "sphere", (1.0,))
                e.move("b", (2.0 - w, 0, 0))
                op, axis = "intersect", (1.0, 0.0, 0.0)
            l, r = ("a", "b") if op == "difference" or g.chance(0.5) else ("b", "a")
            e.csg("c", op, l, r)
            here = {"shell": None, "lens": (1 - w / 2, 0, 0), "sphere": (1 + w / 2, 0, 0), "cylinder": (0, 0, w / 2)}.get(kind, (w / 2, 0, 0))
            rays = []
            for _ in range(12):
                if here is None:
                    d = g.dir()
                    q = (float(e.o["b"].primitive.get_radius()) + w / 2) * d
                else:
                    q = np.array(here) + np.sqrt(w) * (0.2 if kind in ("sphere", "lens") else 1) * (1 - np.array(axis)) * g.r.uniform(-0.6, 0.6, 3)
                    d = np.array(axis) * g.one((-1, 1)) + g.one((0.0, 0.01, 0.3 if kind == "cuboid" else 0.01)) * g.r.uniform(-1, 1, 3)
                    d /= np.linalg.norm(d)
                o = q - g.u(-0.8, 0.8) * d
                rays.append((o, d))
            e.hits("c", [tuple(tuple(float(x) for x in v) for v in r) for r in rays], normals=False)


# ---------------------------------------------------------------- C09: histories and bounding volumes
def c09(ctx):
    for i in range(ctx.scale(120, 1200)):
        with ctx.episode("hist", i) as (e, g):
            t = Tree(e, g, int(g.r.integers(1, 4)), sheets=0.1)
            groups = []
            for j in range(int(g.r.integers(0, 3))):
                n = "g%d" % j
                items = [t.root] if j == 0 else ["g%d" % (j - 1)]
                e.group(n, items)
                groups.append(n)
            e.hits(t.root, t.aimed(10), normals=False)
            for _ in range(int(g.r.integers(2, 6))):
                n = g.one([t.any(), t.root] + groups) if g.chance(0.8) else g.one(list(t.leaves))
                if g.chance(0.5):
                    g.step(e, n)
                else:
                    g.near(e, n, 1.5)
                for m in {t.root, t.any()}:
                    e.hits(m, t.aimed(10), normals=False)
            for n, l, r in t.nodes:
                e.hits(n, t.aimed(8), normals=False)
    for i in range(ctx.scale(25, 200)):
        with ctx.episode("leaf", i) as (e, g):
            for k in gen.KINDS:
                p = g.params(k)
                e.prim(k, k, p)
                for _ in range(3):
                    g.step(e, k)
                    e.hits(k, g.rays(e, k, k, p, 12, special=0.2), normals=False)


    for i in range(ctx.scale(20, 200)):       # any size, any distance
        with ctx.episode("size", i) as (e, g):
            c, g.far = g.scale(), True
            t = Tree(e, g, int(g.r.integers(1, 4)), size=c)
            for _ in range(int(g.r.integers(1, 4))):
                n = g.one([t.any(), t.root])
                if g.chance(0.5):
                    e.move(n, g.vec(g.one((c, 10.0, 100.0))))
                else:
                    g.near(e, n, c)
                e.hits(t.root, t.aimed(10), normals=False)
                e.hits(n, t.aimed(5), normals=False)
    for i in range(ctx.scale(25, 200)):       # many small changes add up
        with ctx.episode("creep", i) as (e, g):
            k = g.one(gen.KINDS)
            p = g.one(((1.0, 0.0, 6.0), (0.5, -6.0, 0.0))) if k == "cylinder" else (-6.0, -.5, -.5, 1.0, .5, .5) if k == "cuboid" else \
                (8.0, 1.0) if k == "plane" else g.params(k)
            e.prim("a", k, p)
            names = ["a"]
            if k != "plane" and g.chance(0.5):
                e.prim("b", "sphere", (1.0,))
                e.csg("c", g.one(("union", "union", "intersect", "difference")), "a", "b")
                names = ["a", "c"]
            if g.chance(0.5):
                g.near(e, g.one(names), 1.0)
            c = 10.0 ** -g.u(2.5, 5) if g.chance(0.3) else 10.0 ** -g.u(1.0, 2.5)
            way, ax = g.one(("rot", "rot", "move", "scale", "any")), int(g.r.integers(1, 4))
            for j in range(int(g.one((12, 40)))):
                n = g.one(names)
                if way == "rot":
                    e.rot(n, ax, 40 * c)
                elif way == "move":
                    e.move(n, tuple(float(x) for x in c * np.roll((1.0, 1.0, 0.0), ax)))
                elif way == "scale":
                    e.scale(n, tuple(float(x) for x in 1 + c * np.roll((1.0, 0.0, 0.0), ax)))
                else:
                    g.tiny(e, n, c)
                if j % 6 == 5:
                    for m in names:
                        e.hits(m, g.rays(e, "a", k, p, 14, special=0.2), normals=False)


# ---------------------------------------------------------------- C10: normals
def c10(ctx):
    for i in range(ctx.scale(50, 500)):
        with ctx.episode("leaf", i) as (e, g):
            for k in gen.KINDS:
                p = g.params(k)
                e.prim(k, k, p)
                for _ in range(int(g.r.integers(0, 4))):
                    g.step(e, k)
                e.hits(k, g.rays(e, k, k, p, 25))
                c = g.one((0, 1, 2, 3))
                for _ in range(c):
                    e.inv(k)
                e.hits(k, g.rays(e, k, k, p, 8))
                e.rst(k)
                g.step(e, k)
                e.hits(k, g.rays(e, k, k, p, 8))
    sizes(ctx, 25, 250, True)
    for i in range(ctx.scale(40, 400)):     # any point of the surface, also close to edges
        with ctx.episode("points", i) as (e, g):
            for k in gen.KINDS:
                p = g.params(k)
                e.prim(k, k, p)
                for _ in range(int(g.r.integers(0, 4))):
                    g.step(e, k)
                M = np.array(e.o[k].get_world_transform())
                pts = [(M @ np.append(g.on_surface(k, p), 1.0))[:3] for _ in range(14)]
                e.normals(k, pts)
                e.normals(k, pts[:4], one=True)
                for _ in range(int(g.r.integers(0, 3))):
                    e.inv(k)
                e.normals(k, pts[4:8], one=g.chance(0.3))
                if i % 3 == 0:
                    e.normals(k, pts, among=g.among(len(pts)))
    for i in range(ctx.scale(90, 900)):
        with ctx.episode("tree", i) as (e, g):
            t = Tree(e, g, int(g.r.integers(1, 5)), extra=0.4)
            e.hits(t.root, t.aimed(30, 0.2))
            for _ in range(int(g.r.integers(1, 5))):
                n = t.root if g.chance(0.5) else t.any()
                c = g.r.random()
                if c < 0.45:
                    e.inv(n)
                elif c < 0.75:
                    e.rst(n)
                else:
                    g.near(e, n, 0.4)
                e.hits(t.root, t.aimed(10, 0.2))
            e.rst(t.root)
            e.hits(t.root, t.aimed(15, 0.2))


# ---------------------------------------------------------------- C08: merging interval lists
def sorted_lists(vals, lens):
    """as Lists in MC_Merge"""
    import itertools
    import ex
    vs = sorted([-ex.INF, *vals, ex.INF])
    return [s for n in lens for s in itertools.combinations_with_replacement(vs, n) if s[1] != -ex.INF]


def c08(ctx):
    import ex
    ctx.model("MC_Merge", "MC_Merge.cfg")
    lists = sorted_lists((0, 2, 4), (2, 4))
    ops = ("union", "intersect", "difference")
    n = len(lists) ** 2 * 3
    if ctx.models[-1]["distinct"] != 4 * n:
        raise ex.vp.Machinery("the enumeration differs from that of MC_Merge")
    if ctx.scale(0, 1):
        ctx.model("MC_Merge", "MC_Merge_deep.cfg", timeout=3000, heap="16g")
    # the behaviours of the model, on the real code: every pair of lists
    pairs = [(op, a, b) for op in ops for a in lists for b in lists]
    groups = {}
    for op, a, b in pairs:
        groups.setdefault((op, len(a), len(b)), []).append((a, b))
    for (op, la, lb), ab in groups.items():
        for one in (False, True):
            for j in range(0, len(ab), 500):
                with ctx.episode("grid", op, la, lb, one, j) as (e, g):
                    part = ab[j:j + 500]
                    e.merge(op, [a for a, _ in part], [b for _, b in part], one)
    for i in range(ctx.scale(40, 1500)):
        with ctx.episode("random", i) as (e, g):
            la, lb = 2 * int(g.r.integers(1, 7)), 2 * int(g.r.integers(1, 7))
            top = g.one((6, 20, 60))

            def one(n):
                v = 2 * g.r.integers(-top, top, n)
                if g.chance(0.6):
                    v = 2 * g.r.permutation(2 * top)[:n] - 2 * top if 2 * top >= n else v
                k = 2 * int(g.r.integers(0, n // 2 + 1)) if g.chance(0.5) else 0
                v = sorted(int(x) for x in v)[:n - k] + [ex.INF] * k
                if g.chance(0.15) and v[1] != -ex.INF and k < n:
                    v[0] = -ex.INF
                return v
            m = int(g.r.integers(1, 30))
            A, B = [one(la) for _ in range(m)], [one(lb) for _ in range(m)]
            for op in ops:
                e.merge(op, A, B, False)
                e.merge(op, A, B, True)
                if i % 4 == 0:
                    e.merge(op, A, B, False, as_sorted=False)
    for i in range(ctx.scale(60, 1500)):      # long lists, any numbers
        with ctx.episode("numbers", i) as (e, g):
            la, lb = 2 * int(g.r.integers(1, g.one((4, 18)))), 2 * int(g.r.integers(1, g.one((4, 18))))
            k = int(g.r.integers(1, la + lb + 1))
            vals = numbers(g, k)
            k = len(vals)
            ints = [2 * (j - k // 2) for j in range(k)]

            def one(n):
                if g.chance(0.5) and k >= n:
                    v = [ints[j] for j in sorted(g.r.permutation(k)[:n])]
                else:
                    v = sorted(ints[j] for j in g.r.integers(0, k, n))
                pad = 2 * int(g.r.integers(0, n // 2 + 1)) if g.chance(0.5) else 0
                v = v[:n - pad] + [ex.INF] * pad
                if g.chance(0.2) and pad < n:
                    v[0] = -ex.INF
                if g.chance(0.1) and 0 < pad < n:
                    v[n - pad - 1] = ex.INF
                return v
            m = int(g.r.integers(1, 12))
            A, B = [one(la) for _ in range(m)], [one(lb) for _ in range(m)]
            if g.chance(0.2):                 # the same ends in both
                B = [list(a) for a in A]
            for op in ops:
                e.merge(op, A, B, i % 3 == 0, vals=dict(zip(ints, vals)))


def numbers(g, k):
    """up to k different numbers in order: of ordinary size, far from zero, next to each other, tiny, huge"""
    import numpy as np
    c = int(g.r.integers(6))
    if c == 0:
        v = g.r.uniform(-10, 10, k)
    elif c == 1:
        v = g.u(-1, 1) * 10.0 ** g.u(0, 9) + 10.0 ** -g.u(0, 6) * g.r.uniform(-1, 1, k)
    elif c == 2:
        v, x = [], g.u(-1, 1) * 10.0 ** g.u(-3, 3)
        for _ in range(k):
            v.append(x)
            x = np.nextafter(x, np.inf) if g.chance(0.7) else x + 10.0 ** -g.u(0, 9)
    elif c == 3:
        v = g.r.choice((-1, 1), k) * 10.0 ** g.r.uniform(-300, -5, k)
    elif c == 4:
        v = g.r.choice((-1, 1), k) * 10.0 ** g.r.uniform(5, 300, k)
    else:
        v = g.r.choice((-1, 1), k) * 10.0 ** g.r.uniform(-12, 12, k)
    return sorted({float(x) for x in v} | ({0.0} if g.chance(0.3) else set()))
