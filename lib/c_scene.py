"""Scenarios for poses, containers and pinning (C09, C10, C11, C12, C13), driven by behaviours of spec/Scene.tla."""
import numpy as np

import gen
import vp


class Own(Exception):
    pass


EXCEPTIONS = (KeyError, ValueError, RuntimeError, KeyboardInterrupt, StopIteration, GeneratorExit, SystemExit, AttributeError,
              AssertionError, IndexError, TypeError, ZeroDivisionError, OSError, NotImplementedError, np.linalg.LinAlgError, Own)


def scripts(ctx, cfg, num, depth=70):
    out = ctx.model("Scene", cfg, simulate=num, depth=depth)
    res = vp.printed(out, "SCRIPT")
    if len(res) < num // 2:
        raise vp.Machinery("only %d scripts from %s" % (len(res), cfg))
    return res


class Play:
    """Plays a script: chooses solids and transformations, makes the calls, looks at the results."""

    def __init__(self, e, g, full=False, sheets=0.1, big=False, tiny=False, look=None):
        self.e, self.g, self.full, self.sheets = e, g, full, sheets
        self.leaf, self.kids, self.kind = {}, {}, {}
        self.count, self.tiny = 0, tiny
        self.due, self.made, self.used = [], {}, set()      # pins to come, pins made early, pins that are entered
        self.look = look or (lambda p, op: None)

    def name(self, i):
        return "o%d" % i

    def new(self, kind):
        self.count += 1
        n, e, g = self.name(self.count), self.e, self.g
        self.kids[n] = []
        self.kind[n] = kind
        if kind == "leaf":
            k = "plane" if g.chance(self.sheets) else g.one(gen.SOLIDS)
            p = g.params(k, big=k == "plane")
            e.prim(n, k, p)
            self.leaf[n] = (k, p)
        else:
            import pyrayt.components as pc
            import tinygfx.g3d as cg
            c = int(g.r.integers(4))
            if c == 0:
                e.plain(n, "other", cg.WorldObject)
            elif c == 1:
                e.source(n, g.one(("line", "circle", "cone", "wedge")), g.size(), wl=g.u(0.4, 0.7))
            elif c == 2:
                e.camera(n, 3, g.size(), 1.0)
            else:
                e.plain(n, "other", lambda: cg.ObjectGroup())
        return n

    def under(self, n):
        return [n] + [x for k in self.kids[n] for x in self.under(k)]

    def leaves(self, n):
        return [x for x in self.under(n) if x in self.leaf]

    def solids(self):
        return [n for n, k in self.kind.items() if k in ("leaf", "csg")]

    def aimed(self, n, count, special=0.2):
        out = []
        for _ in range(count):
            m = self.g.one(self.leaves(n))
            out += self.g.rays(self.e, m, *self.leaf[m], 1, special=special)
        return out

    def hits(self, n, count=8, normals=False):
        self.e.hits(n, self.aimed(n, count), normals=normals)

    def tf(self, n):
        if self.tiny and self.g.chance(0.5):
            self.g.tiny(self.e, n)
        elif self.full:
            self.g.step(self.e, n)
        else:
            self.g.mild(self.e, n)

    def run(self, ops):
        self.carry = None
        self.due = [tuple(op["ns"]) for op in ops if op["a"] == "pin"]
        self.play(iter(ops))

    def early(self):
        """pins are made some time before they are entered, or entered again"""
        for ns in self.due:
            if ns not in self.made and max(ns) <= self.count and self.g.chance(0.15):
                self.made[ns] = self.e.pinned([self.name(x) for x in ns])

    def ready(self, ns):
        ns = tuple(ns)
        if ns in self.used:                      # one that is entered cannot be entered again
            return None
        if ns not in self.made and self.g.chance(0.3):
            self.made[ns] = self.e.pinned([self.name(x) for x in ns])
        return self.made.get(ns)

    def play(self, ops):
        """calls up to the end of the current pin context; returns the exception that ends it"""
        e, g = self.e, self.g
        for op in ops:
            a = op["a"]
            carry, self.carry = self.carry, None
            if a == "new":
                self.new(op["kind"])
            elif a == "csg":
                self.count += 1
                n, l, r = self.name(self.count), self.name(op["l"]), self.name(op["r"])
                e.csg(n, op["op"], l, r)
                self.kids[n], self.kind[n] = [l, r], "csg"
            elif a == "group":
                self.count += 1
                n = self.name(self.count)
                items = [self.name(x) for x in op["items"]]
                e.group(n, items, int(g.r.integers(12)))
                self.kids[n], self.kind[n] = items, "group"
            elif a == "append":
                n, m = self.name(op["n"]), self.name(op["m"])
                e.append(n, m, int(g.r.integers(7)))
                self.kids[n] = self.kids[n] + [m]
            elif a == "remove":
                n, m = self.name(op["n"]), self.name(op["m"])
                e.remove(n, m, int(g.r.integers(5)))
                self.kids[n] = [x for x in self.kids[n] if x != m]
            elif a == "tf":
                self.tf(self.name(op["n"]))
            elif a == "bad":
                g.step(e, self.name(op["n"]), bad=1.0)
            elif a == "inv":
                e.inv(self.name(op["n"]))
            elif a == "rst":
                e.rst(self.name(op["n"]))
            elif a == "pin":
                def body():
                    self.look(self, op)
                    return self.play(ops)
                made, k = self.ready(op["ns"]), tuple(op["ns"])
                if made:
                    self.used |= {k}
                self.carry = e.pin([self.name(x) for x in op["ns"]], body, made)
                if made:
                    self.used -= {k}
                self.look(self, {"a": "unpin"})
                continue
            elif a == "unpin":
                if not op["exc"]:
                    return None
                # an exception may come through from an inner context
                return carry or g.one(EXCEPTIONS)("x")
            if a != "end":
                self.look(self, op)
                self.early()
        return None


# ---------------------------------------------------------------- C11: poses
def c11(ctx):
    ctx.model("Scene", "MC_Scene.cfg")
    if ctx.scale(0, 1):
        ctx.model("Scene", "MC_Scene_deep.cfg", timeout=3000, heap="16g")

    def look(p, op):
        if op["a"] in ("tf", "bad", "new"):
            n = p.name(op["n"]) if "n" in op else p.name(p.count)
            p.e.pose(n, p.g.vec(5), p.g.vec(2))
            if p.g.chance(0.3):
                p.e.spoil(n)
                p.e.pose(n)
        if p.g.chance(0.1):
            p.e.poses(p.g.vec(3), p.g.vec(1))
    for i, s in enumerate(scripts(ctx, "Sim_Pose.cfg", ctx.scale(350, 4000))):
        with ctx.episode("script", i) as (e, g):
            Play(e, g, full=True, tiny=i % 5 == 0, look=look).run(s)
            e.poses(g.vec(2), g.vec(2))


    for i in range(ctx.scale(8, 80)):         # long histories
        with ctx.episode("long", i) as (e, g):
            e.prim("p", "sphere", (1.0,))
            e.source("q", "line", 1.0)
            for j in range(int(g.one((130, 300, 520)))):
                n = g.one(("p", "q"))
                if g.chance(0.1):
                    e.scale(n, tuple(float(x) for x in g.r.uniform(0.9, 1.1, 3)))
                else:
                    g.rigid(e, n, 1, 1.0)
                if g.chance(0.1):
                    e.poses(g.vec(2), g.vec(2))
            e.poses(g.vec(2), g.vec(2))
    for i in range(ctx.scale(80, 600)):       # exchanges, reversals, half turns: whatever is simple and does not commute
        with ctx.episode("simple", i) as (e, g):
            e.prim("p", "cuboid", (-1, -1, -1, 1, 2, 3))
            e.prim("q", "sphere", (1.0,))
            e.csg("c", "union", "p", "q")
            for _ in range(12):
                n = g.one(("p", "q", "c"))
                k = g.r.random()
                if k < 0.6:
                    m = np.eye(4)
                    m[:3, :3] = g.r.permutation(np.diag(g.r.choice((-1.0, 1.0), 3)))
                    if g.chance(0.3):
                        m[:3, 3] = g.r.integers(-2, 3, 3)
                    e.tf(n, m)
                elif k < 0.8:
                    e.rot(n, int(g.r.integers(1, 4)), float(g.one((90.0, 180.0, 270.0, -90.0))))
                elif k < 0.9:
                    e.move(n, tuple(float(x) for x in g.r.integers(-2, 3, 3)))
                else:
                    e.scale(n, g.one(((2.0, 2.0, 2.0), (2.0, 1.0, 1.0), (1.0, 0.5, 1.0))))
                e.poses(g.vec(2), g.vec(2))


# ---------------------------------------------------------------- C12: containers
def c12(ctx):
    ctx.model("Scene", "MC_Scene.cfg")
    if ctx.scale(0, 1):
        ctx.model("Scene", "MC_Scene_deep.cfg", timeout=3000, heap="16g")

    def look(p, op):
        if op["a"] == "tf" or p.g.chance(0.1):
            p.e.poses()
    for i, s in enumerate(scripts(ctx, "Sim_Contain.cfg", ctx.scale(220, 2500))):
        with ctx.episode("script", i) as (e, g):
            Play(e, g, look=look).run(s)
            e.poses()


    for i in range(ctx.scale(25, 250)):       # many members, groups of groups
        with ctx.episode("many", i) as (e, g):
            n, names = int(g.one((9, 12, 17, 33, g.r.integers(5, 50)))), []
            for j in range(n):
                m = "m%d" % j
                k = g.one(("prim", "prim", "csg", "group"))
                if k == "csg" and len(names) > 1:
                    a, b = names.pop(int(g.r.integers(len(names)))), names.pop()
                    if hasattr(e.o[a], "intersect") and hasattr(e.o[b], "intersect"):
                        e.csg(m, g.one(("union", "intersect", "difference")), a, b)
                    else:
                        e.group(m, [a, b])
                elif k == "group" and names:
                    q = int(g.r.integers(0, min(len(names), 12) + 1))
                    e.group(m, [names.pop(int(g.r.integers(len(names)))) for _ in range(q)])
                else:
                    k = g.one(gen.SOLIDS)
                    e.prim(m, k, g.params(k))
                    g.rigid(e, m, 1)
                names.append(m)
            e.group("all", names)
            for _ in range(4):
                g.mild(e, g.one(("all", "all", g.one(list(e.o)))))
                e.poses()
                if g.chance(0.3):
                    e.pin(["all"], lambda: g.mild(e, "all"))
                    e.poses()


# ---------------------------------------------------------------- C13: pinning
def c13(ctx):
    ctx.model("Scene", "MC_Pin.cfg")
    if ctx.scale(0, 1):
        ctx.model("Scene", "MC_Pin_deep.cfg", timeout=3000, heap="16g")

    def look(p, op):
        if op["a"] == "unpin" or (op["a"] == "tf" and p.g.chance(0.2)):
            p.e.poses()
    for i, s in enumerate(scripts(ctx, "Sim_Pin.cfg", ctx.scale(300, 3000))):
        with ctx.episode("script", i) as (e, g):
            Play(e, g, tiny=i % 3 == 0, look=look).run(s)
            e.poses()
    for i in range(ctx.scale(12, 120)):       # many objects
        with ctx.episode("many", i) as (e, g):
            n = int(g.one((9, 12, 17, g.r.integers(5, 40))))
            for j in range(n):
                e.prim("p%d" % j, "sphere", (1.0,))
                g.rigid(e, "p%d" % j, 1)
            free, ns = ["p%d" % j for j in range(n)], ["p%d" % j for j in range(n)]
            while g.chance(0.5) and len(free) > 4:
                m, q = "g%d" % len(ns), int(g.r.integers(1, 5))
                e.group(m, [free.pop(int(g.r.integers(len(free)))) for _ in range(q)])
                free.append(m)
                ns.append(m)
            for _ in range(3):
                some = [str(x) for x in g.r.permutation(ns)]

                def body():
                    for _ in range(int(g.r.integers(1, 6))):
                        g.mild(e, g.one(ns))
                    return g.one(EXCEPTIONS)("x") if g.chance(0.3) else None
                e.pin(some, body)
                e.poses()
    for i in range(ctx.scale(12, 120)):       # small changes, undone again and again
        with ctx.episode("repeated", i) as (e, g):
            p = Play(e, g)
            for _ in range(3):
                p.new("leaf")
                g.rigid(e, p.name(p.count), 2, g.one((2.0, 2.0, 500.0)))
            e.csg("o4", g.one(("union", "intersect", "difference")), "o1", "o2")
            e.group("o5", ["o4", "o3"])
            c = 10.0 ** -g.u(2, 12)
            for k in range(60):
                ns = [str(x) for x in g.r.permutation(g.one((["o5"], ["o4"], ["o1", "o3"], ["o1"], ["o5", "o1", "o4", "o2"])))]
                fixed = ["o5", "o1", "o2", "o3", "o4"] if "o5" in ns else ["o4", "o1", "o2"] if "o4" in ns else ns

                def body():
                    for _ in range(int(g.r.integers(1, 3))):
                        g.tiny(e, g.one([x for x in fixed if x in ns]) if g.chance(0.8) else "o5", c)
                    return None
                e.pin(ns, body)
            e.poses()


# ---------------------------------------------------------------- scripts for C09 and C10
def boxes(ctx):
    ctx.model("Scene", "MC_Scene.cfg")

    def look(p, op):
        if op["a"] in ("tf", "unpin", "csg"):
            for n in p.g.r.permutation(p.solids())[:2]:
                p.hits(str(n), 6)
    for i, s in enumerate(scripts(ctx, "Sim_Box.cfg", ctx.scale(120, 1200))):
        with ctx.episode("script", i) as (e, g):
            p = Play(e, g, tiny=i % 4 == 0, look=look)
            p.run(s)
            for n in p.solids():
                p.hits(n, 6)


def normals(ctx):
    ctx.model("Scene", "MC_Scene.cfg")

    def look(p, op):
        if op["a"] in ("inv", "rst", "csg"):
            p.hits(p.name(op["n"]) if "n" in op else p.name(p.count), 8, normals=True)
    for i, s in enumerate(scripts(ctx, "Sim_Normals.cfg", ctx.scale(120, 1200))):
        with ctx.episode("script", i) as (e, g):
            p = Play(e, g, sheets=0.0, look=look)
            p.run(s)
            for n in p.solids():
                p.hits(n, 6, normals=True)
