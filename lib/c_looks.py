"""Scenarios for questions that must not change anything (C26)."""
import numpy as np

import vp
from num import encv
from c_trace import Bench


class Desk:
    """A scene and a pool of questions about it.

    A question is a function of arrays that belong to the caller; it returns (answers, answers to keep)."""

    def __init__(self, e, g):
        import ex
        self.ex, self.e, self.g = ex, e, g
        b = self.b = Bench(e, g)
        kinds = [g.one(("leaf", "tree", "part")) for _ in range(4)]
        for k in kinds:
            b.add(k)
        e.source("line", "line", 1.5, wl=g.u(0.4, 0.7))
        e.source("cone", g.one(("cone", "wedge", "circle")), g.u(5, 40), wl=g.u(0.4, 0.7))
        e.source("lamp", "static", g.u(0, 1), g.u(0, 1), 20.0)
        for n in ("line", "cone", "lamp"):
            g.rigid(e, n, 1, 1)
        e.camera("cam", 7, g.u(2, 6), g.one((1.0, 0.6)))
        e.move("cam", (-8.0, 0.0, 0.0))
        e.material("glass", "sell", *(1.0396, 0.2318, 1.0105, 0.006, 0.02, 103.56))
        e.group("grp", [g.one(b.comps), "line", "cam"])
        self.groups = [b.comps[:2], b.comps[2:] + ["line"], ["lamp", "cone"], ["cam", "grp"]]
        self.raw = ["sphere", str(g.one(("cylinder", "paraboloid", "cuboid", "plane")))]      # never moved
        for k in self.raw:
            p = g.params(k)
            e.prim(k, k, p, b.mat(k != "plane"))
            b.comps.append(k)
            b.aims.append((k, g.box(k, p)))
        # made from arrays and lists that the caller uses for other things afterwards
        lo, hi, it = g.r.uniform(-2, -.1, 3), g.r.uniform(.1, 2, 3), [e.o["lamp"], e.o["cone"]]
        e.plain("cub", "other", lambda: ex.cg.Cuboid(lo, hi))
        e.plain("pair", "other", lambda: ex.cg.ObjectGroup(it))
        self.used = [lo, hi, it]
        self.answers = []
        self.pool = {}
        self.focus = g.one([c for c in b.comps if len(e.o[c].surface_ids) > 1] or b.comps)

    # ------------------------------------------------------------------ questions
    def make(self, k):
        """a question about things of group k"""
        e, g, o = self.e, self.g, self.e.o
        comps = [c for c in self.groups[k] if c in self.b.comps] or self.b.comps
        n = g.one(comps) if g.chance(0.7) else g.one(self.raw)
        leaf = g.one(sorted(o[n].surface_ids, key=lambda x: x[0]))[1]
        kind = g.one(("hits", "hits", "normal", "normal", "pose", "convert", "convert", "index", "response", "emit", "emit", "lamp", "camera",
                      "shaded", "edges", "draw", "trace", "trace", "show", "law", "merge", "formula", "group", "fail", "box", "cub", "shade"))
        cg, px = self.ex.cg, self.ex.pyrayt
        if kind == "hits":
            n = g.one((n, self.focus, self.focus))       # different rays for the same component
            rays = [g.rays(e, g.one((n, n, g.one(self.b.comps))), "", (), 1, special=0.3)[0] for _ in range(5 if g.chance(0.8) else 200)]
            if g.chance(0.3):
                return [cg.Ray(cg.Point(*rays[0][0]), cg.Vector(*rays[0][1]))], lambda a: (o[n].intersect(a),) * 2
            return [self.ex.rays_array(rays)], lambda a: (o[n].intersect(a),) * 2
        if kind == "cub":
            a = self.ex.rays_array([(g.r.uniform(-3, 3, 3), g.dir()) for _ in range(6)])
            return [a], lambda a: ((o["cub"].intersect(a)[0], o["cub"].bounding_volume.bounding_points, [x.get_id() for x in o["pair"]]), ())
        if kind == "shade":
            m = self.ex.gooch.GoochMaterial(self.ex.color.RGBAColor(1, .5, .2), self.ex.color.RGBAColor(.3, .5, 1), self.ex.color.RGBAColor(0, .1, .2))
            nn = g.r.normal(size=(4, 3))
            nn[3] = 0
            nn /= np.linalg.norm(nn, axis=0)

            def f(a, c, l):
                r = (m.shade(a, c, l),)
                return r, r
            l = np.vstack((g.r.uniform(-9, 9, (3, 2)), np.ones(2)))
            return [self.ex.rays_array([(g.r.uniform(-3, 3, 3), g.dir()) for _ in range(3)]), nn, g.one((l, l[:, 0].copy()))], f
        if kind == "normal":
            k = int(g.one((4, 4, 200)))
            p = np.vstack((g.r.uniform(-1, 1, (3, k)), np.ones(k)))
            return [g.one((p, p[:, 0].copy()))], lambda a: (leaf.get_world_normals(a),) * 2
        if kind == "pose":
            m = g.one((n, "cam", "grp", "cone"))

            def f():
                a = (o[m].get_world_transform(), o[m].get_object_transform(), o[m].get_position(), o[m].get_orientation())
                return a, a
            return [], f
        if kind == "convert":
            p = g.r.uniform(-3, 3, (4, 3))
            p[3] = (1, 0, 1)

            def f(a, q):
                r = (o[n].to_world_coordinates(a), o[n].to_object_coordinates(a),
                     o["cam"].to_object_coordinates(q), o["cam"].to_world_coordinates(q))
                return r, r
            return [p, p[:, 0].copy()], f
        if kind == "box":
            return [], lambda: ((o[n].bounding_volume.bounding_points, o[n].bounding_volume.axis_spans), ())
        if kind == "index":
            def f(a):
                r = (self.e.mats["glass"].index_at(a),)
                return (*r, self.e.mats["glass"].abbe()), r
            return [g.one((g.r.uniform(0.3, 1.2, 5), g.r.uniform(0.3, 1.2, (2, 2))))], f
        if kind == "response":
            rays = [((0, 0, -1), tuple(g.dir()), g.u(0.4, 0.7), 1.0, 10.0) for _ in range(3)]
            m = self.e.mats[g.one(("glass", "l"))] if g.chance(0.5) else self.ex.matl.mirror

            def f():
                out = m.trace(leaf, self.ex.rayset(rays))
                return (np.asarray(out), out.index, out.intensity), (out,)
            return [], f
        if kind in ("emit", "lamp"):
            s = "lamp" if kind == "lamp" else g.one(("line", "cone"))
            m = int(g.one((2, 3, 5)))

            def f():
                r = o[s].generate_rays(m)
                return (np.asarray(r),), (r,)
            return [], f
        if kind == "camera":
            def f():
                r = o["cam"].generate_rays()
                return (np.asarray(r), o["cam"].get_resolution(), o["cam"].get_span()), (r,)
            return [], f
        if kind in ("shaded", "edges"):
            L = cg.Point(*(g.dir() * 20.0))
            cs = list(self.b.comps)

            def f(l):
                r = cg.renderers.ShadedRenderer(o["cam"], [o[c] for c in cs], light_position=l) if kind == "shaded" \
                    else cg.renderers.EdgeRender(o["cam"], [o[c] for c in cs])
                i = r.render()
                return (i,), (i,)
            return [L], f
        if kind == "draw":
            cs, v, sh = list(self.b.comps), g.one(("xy", "xz")), g.chance(0.5)
            lo, hi = np.array((-6.0, -3.0, -3.0)), np.array((6.0, 3.0, 3.0))

            def f(a, c):
                import matplotlib.pyplot as plt
                fig = plt.figure()
                try:
                    cg.renderers.draw([o[x] for x in cs], view=v, axis=fig.gca(), shaded=sh, bounds=(a, c), resolution=12)
                    im = fig.gca().get_images()[0]
                    return (np.asarray(im.get_array()), im.get_extent()), ()
                finally:
                    plt.close(fig)
            return [lo, hi], f
        if kind in ("trace", "show", "fail"):
            srcs = list(g.r.permutation(("line", "cone", "lamp")))[:int(g.r.integers(1, 4))]
            nr, lim = int(g.one((2, 3))), int(g.one((1, 3, 6)))
            t = px.RayTracer([o[s] for s in srcs], [o[c] for c in self.b.comps], rays_per_source=nr, generation_limit=lim)
            v, col = g.one(("xy", "xz")), g.one((None, "wavelength", "source"))

            def broken(*_):
                raise KeyError("broken")

            def f():
                import matplotlib.pyplot as plt
                if kind == "fail":            # a trace that ends with an exception leaves the scene, too
                    m = self.ex.matl.BasicRefractor(1.5)
                    m.trace = broken
                    s = cg.Sphere(30.0, material=m)
                    u = px.RayTracer([o[x] for x in srcs], [o[c] for c in self.b.comps] + [s], rays_per_source=nr)
                    try:
                        u.trace()
                        return (1,), ()
                    except KeyError:
                        return (0,), ()
                t.trace()
                if kind == "show":
                    fig = plt.figure()
                    try:
                        t.show(view=v, axis=fig.gca(), color_function=col, resolution=10, bounds=((-5, -3, -3), (5, 3, 3)))
                    finally:
                        plt.close(fig)
                s = np.array(t.calculate_source_ids())
                d = t.get_results()
                return ([d[c].to_numpy(float) for c in sorted(d.columns)], s, t.get_rays_per_source(), t.get_generation_limit()), (s,)
            return [], f
        if kind == "law":
            d, nn = g.r.normal(size=(4, 3)), g.r.normal(size=(4, 3))
            d[3] = nn[3] = 0
            nn /= np.linalg.norm(nn, axis=0)

            def f(a, c, i, j):
                r = (cg.reflect(a, c), *cg.refract(a, c, i, j))
                return r, r
            return [d, nn, np.array((1.0, 1.5, 1.2)), np.array((1.5, 1.0, 1.7))], f
        if kind == "merge":
            op = g.one(list(cg.csg.Operation))
            a, c = np.sort(g.r.uniform(0, 9, (4, 3)), axis=0), np.sort(g.r.uniform(0, 9, (2, 3)), axis=0)

            def f(x, y):
                r = (cg.csg.array_csg(x, y, op), cg.csg.array_csg(x[:, 0], y[:, 0], op), cg.csg.array_csg(x, y, op, sort_output=False))
                return r, r
            return [a, c], f
        if kind == "formula":
            def f(w):
                r = (px.utils.wavelength_to_rgb(w),)
                return (*r, px.utils.lensmakers_equation(10, -10, 1.5, 0.2)), r
            return [g.r.uniform(0.3, 0.8, 4)], f
        if kind == "group":
            def f():
                return ([x.get_id() for x in o["grp"]], len(o["grp"]), [i for i, _ in o[n].surface_ids]), ()
            return [], f
        raise vp.Machinery(kind)

    def state(self):
        """everything there is to know about the scene without computing anything"""
        o = self.e.o
        out = []
        for n in o:
            if hasattr(o[n], "get_world_transform"):
                out += [o[n].get_world_transform(), o[n].get_position(), o[n].get_orientation()]
            if hasattr(o[n], "get_wavelength"):
                out.append(o[n].get_wavelength())
        for n in self.b.comps:
            for i, s in o[n].surface_ids:
                out += [i, list(self.e.mats).index(self.e.matname(s.material)) if self.e.matname(s.material) in self.e.mats else -1]
        return (out, [x.get_id() for x in o["grp"]]), ()

    # ------------------------------------------------------------------ answers
    def ask(self, key, args, f):
        given = [a.copy() for a in args]
        reused = args and self.g.chance(0.4)
        if reused:                           # in arrays that were used for other numbers just before
            args = [a[..., ::-1].copy() for a in given]
            self.e.call(f, *args)
            for a, c in zip(args, given):
                a[...] = c
        res, x = self.e.call(f, *args)
        v, same = [], all(np.array_equal(a, c) for a, c in zip(args, given))
        for a, c in zip(args, given):
            a[...] = c

        def flat(a):
            if isinstance(a, (list, tuple)):
                for y in a:
                    flat(y)
            else:
                v.extend(encv(np.asarray(a, float).ravel()))
        if not x:
            flat(res[0])
            self.answers += [a for a in res[1] if isinstance(a, np.ndarray) and a.size]
        self.e.log("ask", q=key, v=v, same=same, err=x)
        if reused and len(v) < 200:
            self.ask(key, given, f)

    def run(self, ops):
        e, g = self.e, self.g
        for op in ops:
            a = op["a"]
            if a == "ask":
                k = op["q"]
                if k not in self.pool or (g.chance(0.1) and len(self.pool) < 14):
                    k = k if k not in self.pool else k + 100 * len(self.pool)
                    self.pool[k] = self.make((op["q"] - 1) % 4)
                self.ask("q%d" % k, *self.pool[k])
            elif a == "change":
                n = g.one(self.groups[op["o"] - 1])
                c = g.r.random()
                if c < 0.15 and n in self.b.comps:
                    e.inv(n)
                elif c < 0.3 and n in ("line", "cone", "lamp"):
                    e.setwl(n, g.u(0.4, 0.7))
                else:
                    g.rigid(e, n, 1, 1.0)
            elif a == "spoil" and self.used and g.chance(0.3):
                x = self.used.pop()
                if isinstance(x, list):
                    x.clear()
                else:
                    x[...] = 0
            elif a == "spoil" and self.answers:
                x = self.answers.pop(int(g.r.integers(len(self.answers))))
                x[...] = g.one((0, 7, -1))
            self.ask("state", [], self.state)


def c26(ctx):
    ctx.model("Looks", ctx.scale("MC_Looks.cfg", "MC_Looks_deep.cfg"), timeout=3000)
    for f in ("handout", "touches", "scratch"):
        ctx.faulty("Looks", "MC_Looks_%s.cfg" % f, "Answers")
    out = ctx.model("Looks", "Sim_Looks.cfg", simulate=ctx.scale(110, 1500), depth=30)
    for i, ops in enumerate(vp.printed(out, "SCRIPT")):
        with ctx.episode("script", i) as (e, g):
            Desk(e, g).run(ops)
