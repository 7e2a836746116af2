"""Executor: makes calls on the real code and records them as episodes.

Nothing is judged here; the recorded calls are judged by spec/Replay.tla.
Only public functions, methods and attributes of the code are used.
"""
import contextlib
import os
import signal
import sys
import warnings

import vp
from num import enc, encv

sys.dont_write_bytecode = True
sys.path.insert(0, vp.REPO)
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

np.seterr(all="ignore")

import pyrayt  # noqa: E402
import pyrayt.components as components  # noqa: E402
import pyrayt.materials as matl  # noqa: E402
import tinygfx.g3d as cg  # noqa: E402
from matplotlib.quiver import Quiver  # noqa: E402

if not os.path.abspath(pyrayt.__file__).startswith(os.path.abspath(vp.REPO) + os.sep):
    raise vp.Machinery("imported pyrayt from " + pyrayt.__file__)


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)


@contextlib.contextmanager
def limited(seconds=30):
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)


class Pass(matl.TracableMaterial):
    """A thin filter: rays go on in their direction with a fraction of their intensity."""

    def __init__(self, factor):
        super().__init__()
        self.factor = factor

    def trace(self, surface, ray_set):
        ray_set.intensity = ray_set.intensity * self.factor
        return ray_set


OPEN = (pyrayt.components.ConeOfRays, pyrayt.components.WedgeOfRays)    # sources whose only ray goes anywhere


class Lossy(matl.TracableMaterial):
    """A mirror that keeps a fraction of the intensity."""

    def __init__(self, factor):
        super().__init__()
        self.factor = factor

    def trace(self, surface, ray_set):
        ray_set = matl.mirror.trace(surface, ray_set)
        ray_set.intensity = ray_set.intensity * self.factor
        return ray_set


def positions(among, k):
    """where in a batch the elements 0..k-1 are (the last occurrence of each)"""
    at = np.empty(k, int)
    at[among] = np.arange(len(among))
    return at


def rays_array(rays):
    """[(origin, direction)] as a 2x4xN array."""
    a = np.zeros((2, 4, len(rays)))
    a[0, 3] = 1
    for i, (o, d) in enumerate(rays):
        a[0, :3, i] = o
        a[1, :3, i] = d
    return a


class Ep:
    """One episode: a sequence of calls on fresh objects, and its log."""

    def __init__(self, tag=""):
        self.ev = []
        self.tag = tag
        self.o = {}          # name -> object
        self.bufs = {}       # ray buffers used again and again, by shape
        self.calls_made = 0
        self.surf = {}       # surface identity -> surface object
        self.mats = {}       # name -> material object
        self.stack = []

    def record(self):
        return {"tag": self.tag, "ev": self.ev}

    def log(self, k, **f):
        f["k"] = k
        f.setdefault("x", "")
        self.ev.append(f)
        return f

    def call(self, fn, *a, **kw):
        """(result, exception name)"""
        try:
            with limited():
                return fn(*a, **kw), ""
        except vp.Machinery:
            raise
        except Exception as e:
            return None, type(e).__name__

    # ------------------------------------------------------------ materials
    def mat(self, name, obj):
        self.mats[name] = obj
        return obj

    def matname(self, obj):
        for n, m in self.mats.items():
            if m is obj:
                return n
        for n, m in (("mirror", matl.mirror), ("absorber", matl.absorber)):
            if m is obj:
                return n
        for n, m in matl.glass.items():
            if m is obj:
                return n
        if obj is cg.world_objects.BLACK:
            return "black"
        return "?"

    # ------------------------------------------------------------ objects
    def _register(self, n, obj):
        self.o[n] = obj
        for i, s in obj.surface_ids if hasattr(obj, "surface_ids") else ():
            self.surf[i] = s

    def prim(self, n, kind, p, mat=None, make=None):
        """make: how to create it from its class, with some arguments left out or given in other ways"""
        kw = {} if mat is None else {"material": mat}
        cls = {"sphere": cg.Sphere, "cylinder": cg.Cylinder, "paraboloid": cg.Paraboloid,
               "cuboid": cg.Cuboid, "plane": cg.XYPlane}[kind]
        args = (tuple(p[:3]), tuple(p[3:])) if kind == "cuboid" else tuple(p)
        obj, x = self.call(cls, *args, **kw) if make is None else self.call(make, cls)
        if x == "":
            self._register(n, obj)
        self.log("new", n=n, kind=kind, p=encv(p), id=obj.get_id() if x == "" else -1,
                 mat=self.matname(obj.material) if x == "" else "", x=x)
        return obj

    def many(self, k):
        """k objects that have nothing to do with the scene"""
        for _ in range(k):
            cg.world_objects.CountedObject()

    def plain(self, n, kind, make):
        obj, x = self.call(make)
        if x == "":
            self._register(n, obj)
        self.log("new", n=n, kind=kind, id=obj.get_id() if x == "" else -1, mat="", x=x)
        return obj

    def csg(self, n, op, l, r):
        fn = {"union": cg.csg.union, "intersect": cg.csg.intersect, "difference": cg.csg.difference}[op]
        obj, x = self.call(fn, self.o[l], self.o[r])
        sids = []
        if x == "":
            self._register(n, obj)
            sids = [int(i) for i, _ in obj.surface_ids]
        self.log("csg", n=n, op=op, l=l, r=r, id=obj.get_id() if x == "" else -1, sids=sids, x=x)
        return obj

    def group(self, n, items, how=0):
        """how: the ways to make a group of known members (sums and slices of groups are groups)"""
        def go():
            m = [self.o[i] for i in items]
            if how == 1:
                return cg.ObjectGroup(tuple(m))
            if how == 2:
                return cg.ObjectGroup(x for x in m)
            if how == 3:
                g = cg.ObjectGroup()
                g.extend(m)
                return g
            if how == 4:
                return cg.ObjectGroup(cg.ObjectGroup(m))
            if how == 5:
                k = len(m) // 2
                return cg.ObjectGroup(m[:k]) + cg.ObjectGroup(m[k:])
            if how == 6:
                return cg.ObjectGroup(m + m)[:len(m)]
            if how == 7:
                return cg.ObjectGroup(m) + []
            if how == 8:
                g = cg.ObjectGroup(m + m)
                g[len(m):] = []
                return g
            return cg.ObjectGroup(m)
        obj, x = self.call(go)
        if x == "":
            self._register(n, obj)
        self.log("group", n=n, items=list(items), id=obj.get_id() if x == "" else -1, x=x)
        return obj

    def append(self, n, m, how=0):
        def go():
            g, o = self.o[n], self.o[m]
            if how == 0:
                g.append(o)
            elif how == 1:
                g.extend([o])
            elif how == 2:
                g.insert(0, o)
            elif how == 4:
                g[len(g):] = [o]
            elif how == 5:
                g.reverse()
                g.insert(len(g) // 2, o)
            elif how == 6:                       # a place is kept, then taken
                g.append(None)
                g[len(g) - 1] = o
            else:
                g += [o]
        _, x = self.call(go)
        self.log("append", n=n, m=m, x=x)

    def remove(self, n, m, how=0):
        def go():
            g, o = self.o[n], self.o[m]
            k = [i for i in range(len(g)) if g[i] is o]
            if how == 0 and next(x for x in g if x == o) is o:       # (two empty groups are equal)
                g.remove(o)
            elif how <= 1:
                g.pop(k[0])
            elif how == 3:
                g[k[0]:k[0] + 1] = []
            elif how == 4:
                rest = [x for x in g if x is not o]
                g.clear()
                g.extend(rest)
            else:
                del g[k[0]]
        _, x = self.call(go)
        self.log("remove", n=n, m=m, x=x)

    # ------------------------------------------------------------ transforms
    def move(self, n, v, via=None):
        o = self.o[n]
        if via is None:
            _, x = self.call(o.move, *v)
        else:
            _, x = self.call(getattr(o, "move_" + "xyz"[via]), v[via])
        self.log("tf", n=n, op="move", v=encv(v), x=x)

    def scale(self, n, v, via=None):
        o = self.o[n]
        if via is None:
            _, x = self.call(o.scale, *v)
        elif via == 3:
            _, x = self.call(o.scale_all, v[0])
        else:
            _, x = self.call(getattr(o, "scale_" + "xyz"[via]), v[via])
        self.log("tf", n=n, op="scale", v=encv(v), x=x)

    def rot(self, n, ax, ang, unit="deg"):
        o = self.o[n]
        f = getattr(o, "rotate_" + "xyz"[ax - 1])
        _, x = self.call(f, ang, unit) if unit != "deg" else self.call(f, ang)
        self.log("tf", n=n, op="rot", ax=ax, ang=enc(ang), unit=unit, x=x)

    def tf(self, n, m):
        m = np.array(m, dtype=float)
        given = m.copy()
        _, x = self.call(self.o[n].transform, given)
        self.log("tf", n=n, op="tf", m=[encv(r) for r in m[:3]], x=x)
        if not np.array_equal(m, given):
            self.log("fact", c="argument-changed", ok=False)
        given[...] = 7.0                     # the matrix belongs to the caller
        given[:] = 7.0                     # the matrix belongs to the caller

    def inv(self, n):
        _, x = self.call(self.o[n].invert_normals)
        self.log("inv", n=n, x=x)

    def rst(self, n):
        _, x = self.call(self.o[n].reset_normals)
        self.log("rst", n=n, x=x)

    def pinned(self, ns):
        """a pin of the named objects that is not entered yet"""
        return pyrayt.pin(*[self.o[n] for n in ns])

    def pin(self, ns, body, made=None):
        """Run body inside a pin context of the named objects; body returns an exception to be raised
        at its end, or None.  Returns that exception.  made: a pin of the objects that was made earlier"""
        entered, got, exc = [], "", None
        try:
            with self.pinned(ns) if made is None else made:
                entered.append(1)
                self.log("pin", ns=list(ns))
                exc = body()
                if exc is not None:
                    raise exc
        except vp.Machinery:
            raise
        except BaseException as x:
            got = type(x).__name__ if x is not exc else "same"
        if entered:
            self.log("unpin", exc="" if exc is None else "same", got=got)
        else:
            self.log("fact", c="exception pin " + got, ok=False)
        return exc

    # ------------------------------------------------------------ observations
    def pose(self, n, pt=None, vt=None):
        o = self.o[n]
        f = {}

        def look():
            M = o.get_world_transform()
            O = o.get_object_transform()
            f.update(M=encv(M[:3].ravel()), lr=encv(M[3]), O=encv(O[:3].ravel()), olr=encv(O[3]),
                     pos=encv(o.get_position()), dir=encv(o.get_orientation()), q=[], pt=[])
            L = M[:3, :3]
            if np.allclose(L.T @ L, np.eye(3), atol=1e-10) and np.linalg.det(L) > 0:
                f["q"] = encv(o.get_quaternion())
            if pt is not None:
                P, V = np.array([*pt, 1.0]), np.array([*vt, 0.0])
                both = np.stack([P, V], axis=1)
                w, b = o.to_world_coordinates(P), o.to_object_coordinates(both)
                f.update(pt=encv(pt), vt=encv(vt), wp=encv(w), op=encv(b[:, 0]),
                         wv=encv(o.to_world_coordinates(both)[:, 1]), ov=encv(o.to_object_coordinates(V)))

        _, x = self.call(look)
        self.log("pose", n=n, x=x, **f)

    def poses(self, pt=None, vt=None):
        for n in list(self.o):
            self.pose(n, pt, vt)

    def spoil(self, n):
        """change the matrices and coordinates that an object hands out"""
        o = self.o[n]

        def go():
            for a in (o.get_world_transform(), o.get_object_transform(),
                      o.to_world_coordinates(np.array([0, 0, 0, 1.0])), o.to_object_coordinates(np.eye(4))):
                a[:] = 5.0
        _, x = self.call(go)
        self.log("fact", c="exception " + x, ok=x == "")

    def hits(self, n, rays, normals=True, box=True, among=None):
        """among: an array of indices of rays, in which each of them occurs: the batch of which they are a part"""
        o = self.o[n]
        arr = rays_array(rays)
        at = np.arange(len(rays))
        if among is not None:
            at = positions(among, len(rays))
            arr = np.ascontiguousarray(arr[:, :, among])
        f = {}

        def look():
            if len(rays) == 1:
                hits, sids = o.intersect(cg.Ray(cg.Point(*rays[0][0]), cg.Vector(*rays[0][1])))
            else:
                # every other time in an array that was used before
                buf = self.bufs.setdefault(arr.shape, arr.copy())
                if self.calls_made % 2 and buf.dtype == arr.dtype:
                    buf[...] = arr
                else:
                    buf = arr.copy()
                self.calls_made += 1
                hits, sids = o.intersect(buf)
            hits, sids = np.asarray(hits), np.asarray(sids)
            out = [[encv(r[0]), encv(r[1]), []] for r in rays]
            if hits.shape[-1] != arr.shape[-1] or hits.shape != sids.shape:
                raise AssertionError("shape")
            arr1, hits, sids = (arr, hits, sids) if among is None else (arr[:, :, at], hits[:, at], sids[:, at])
            ok = np.isfinite(hits)
            nrm = {}
            if normals:
                for s in np.unique(sids[ok]):
                    if int(s) in self.surf:
                        k = np.argwhere(ok & (sids == s))
                        pts = arr1[0][:, k[:, 1]] + hits[k[:, 0], k[:, 1]] * arr1[1][:, k[:, 1]]
                        pts[3] = 1
                        nn = self.surf[int(s)].get_world_normals(pts)
                        for c, (i, j) in enumerate(k):
                            nrm[(i, j)] = encv(nn[:, c])
            for j in range(len(rays)):
                for i in range(hits.shape[0]):
                    if ok[i, j]:
                        out[j][2].append([enc(hits[i, j]), int(sids[i, j]), nrm.get((i, j), [])])
            f["rays"] = out
            f["box"] = []
            if box:
                b = np.asarray(o.bounding_volume.bounding_points)[:3]
                lo, hi = b.min(axis=1), b.max(axis=1)
                if np.all(np.isfinite(lo)) and np.all(np.isfinite(hi)):
                    f["box"] = [encv(lo), encv(hi)]

        _, x = self.call(look)
        if x:
            f = {"rays": [], "box": []}
        self.log("hits", n=n, x=x, **f)

    def normals(self, n, pts, one=False, among=None):
        """surface normals at points on the surface n; one: asked for one by one; among: as for hits"""
        f = {"pts": [encv(q) for q in pts], "nrm": []}

        def look():
            a = np.ones((4, len(pts)))
            a[:3] = np.asarray(pts, float).T
            at = None
            if among is not None:
                a, at = np.ascontiguousarray(a[:, among]), positions(among, len(pts))
            given = a.copy()
            if one:
                out = [self.o[n].get_world_normals(cg.Point(*q)) for q in pts]
            else:
                out = self.o[n].get_world_normals(a).T
                out = out if at is None else out[at]
            if not np.array_equal(a, given):
                raise AssertionError("argument changed")
            f["nrm"] = [encv(v) for v in out]
        _, x = self.call(look)
        self.log("nrm", n=n, x=x, **f)

    def identity(self, n):
        i, x = self.call(self.o[n].get_id)
        self.log("ident", n=n, id=-1 if x else int(i), x=x)

    # ------------------------------------------------------------ materials
    def material(self, n, kind, *v, named=False):
        """kinds: const, sell (glasses), lossy, pass (as above), gooch, black; returns the object
        named: coefficients are given by name, those of 0 are omitted"""
        rec = {"k": kind, "v": encv(v) if kind != "gooch" else
               [encv(tuple(c) + (1.0,) if len(c) == 3 else c) for c in v]}
        make = {"const": lambda: matl.BasicRefractor(v[0]), "sell": lambda: matl.SellmeierRefractor(**{k: x for k, x in zip(("c3", "b2", "b1", "c1", "c2", "b3"),
                                (v[5], v[1], v[0], v[3], v[4], v[2])) if x}) if named else matl.SellmeierRefractor(*v),
                "lossy": lambda: Lossy(v[0]), "pass": lambda: Pass(v[0]),
                "gooch": lambda: gooch.GoochMaterial(
                    base_color=color.RGBAColor(*v[0]), warm_color=color.RGBAColor(*v[1]),
                    cool_color=color.RGBAColor(*v[2]), alpha=v[3][0], beta=v[3][1])}[kind]
        obj, x = self.call(make)
        self.mats[n] = obj
        self.log("mat", n=n, m=rec, x=x)
        return obj

    def spy(self, n, inner, rec):
        """A material that behaves like another one and records what it did."""
        obj = Spy(inner)
        obj.name = n
        self.mats[n] = obj
        self.log("mat", n=n, m=rec)
        return obj

    def setmat(self, n, mat):
        def go():
            self.o[n].material = mat
        _, x = self.call(go)
        self.log("setmat", n=n, m=self.matname(mat), x=x)

    def recolour(self, n, f, v, rec):
        """change a coefficient of a glass"""
        _, x = self.call(setattr, self.mats[n], f, v)
        self.log("mat", n=n, m=rec, x=x)

    def mtrace(self, n, mat, rays, among=None):
        """Let the material of the surface n act on rays (o, d, wl, idx, pw) that have arrived there; among: as for hits."""
        f = {"a": [], "b": []}
        at = range(len(rays)) if among is None else positions(among, len(rays))

        def cols(rs):
            if among is not None and rs.shape[-1] != len(among):
                raise AssertionError("shape")
            return [{"o": encv(rs.rays[0, :3, i]), "d": encv(rs.rays[1, :3, i]), "wl": enc(rs.wavelength[i]),
                     "idx": enc(rs.index[i]), "pw": enc(rs.intensity[i])}
                    for i in (at if among is not None else range(rs.shape[-1]))]

        def look():
            rs = rayset(rays if among is None else [rays[i] for i in among])
            f["a"] = cols(rs)
            f["b"] = cols(mat.trace(self.o[n], rs))
        _, x = self.call(look)
        self.log("mtrace", n=n, x=x, **f)

    def index(self, n, arg, at=None):
        """index_at of a number or an array of any shape; at: the elements that are judged (all of them)"""
        f = {"wl": [], "out": [], "shape": False}
        at = slice(None) if at is None else at

        def look():
            given = np.array(arg, copy=True) if isinstance(arg, np.ndarray) else arg
            out = self.mats[n].index_at(arg)
            f["wl"] = encv(np.atleast_1d(given).ravel()[at])
            f["out"] = encv(np.atleast_1d(np.asarray(out, dtype=float)).ravel()[at])
            f["shape"] = bool(np.shape(out) == np.shape(given) and np.array_equal(given, arg))
        _, x = self.call(look)
        self.log("index", n=n, x=x, **f)

    def abbe(self, n):
        v, x = self.call(self.mats[n].abbe)
        self.log("abbe", n=n, x=x, out=[] if x else enc(v))

    def reflect(self, d, n):
        """rows of directions and unit normals; n may be a single normal"""
        d, n = np.asarray(d, float), np.asarray(n, float)
        hom = lambda a: np.vstack((np.atleast_2d(a).T, np.zeros(len(np.atleast_2d(a)))))
        D, N = hom(d), hom(n)
        if d.ndim == 1:
            D = D[:, 0]
        if n.ndim == 1:
            N = N[:, 0]
        out, x = self.call(cg.reflect, D.copy(), N.copy())
        dd = np.atleast_2d(d)
        nn = np.broadcast_to(np.atleast_2d(n), dd.shape)
        f = {"d": [], "n": [], "out": []}
        if not x:
            oo = np.asarray(out)
            oo = oo.reshape(4, -1) if oo.ndim == 1 else oo
            f = {"d": [encv(r) for r in dd], "n": [encv(r) for r in nn], "out": [encv(r) for r in oo[:3].T]}
        self.log("reflect", x=x, **f)

    def refract(self, d, n, n1, n2, ng):
        d, n = np.asarray(d, float), np.asarray(n, float)
        hom = lambda a: np.vstack((a.T, np.zeros(len(a))))
        kw = {} if ng == 1 else {"n_global": ng}
        res, x = self.call(cg.refract, hom(d), hom(n), np.array(n1, float), np.array(n2, float), **kw)
        f = {k: [] for k in ("d", "n", "n1", "n2", "out", "nout")}
        if not x:
            out, nout = res
            f = {"d": [encv(r) for r in d], "n": [encv(r) for r in n], "n1": encv(n1), "n2": encv(n2),
                 "out": [encv(r) for r in np.asarray(out)[:3].T], "nout": encv(np.atleast_1d(nout))}
        self.log("refract", x=x, ng=enc(ng), **f)

    # ------------------------------------------------------------ parts
    def part(self, n, f, p, ap=1.0, off=(0, 0), mat=None, ap2=None, **kw):
        """f as in Parts.tla; ap, ap2: a diameter or a pair; mat: a registered material"""
        pc = components
        if mat is not None:
            kw["material"] = mat
        if f in ("thick", "biconvex", "planoconvex", "plane", "spherical", "parabolic"):
            if ap is None:                  # the default
                ap = 1
            else:
                kw["aperture"] = ap
        if f in ("plane", "spherical", "parabolic") and tuple(off) != (0, 0):
            kw["off_axis"] = off
        make = {"thick": pc.thick_lens, "biconvex": pc.biconvex_lens, "planoconvex": pc.plano_convex_lens,
                "plane": pc.plane_mirror, "spherical": pc.spherical_mirror, "parabolic": pc.parabolic_mirror,
                "prism": pc.equilateral_prism}
        if f == "baffle":
            obj, x = self.call(pc.baffle, ap)
        elif f == "aperture":
            obj, x = self.call(pc.aperture, ap, ap2)
        else:
            obj, x = self.call(make[f], *p, **kw)
        sids, name = [], ""
        if x == "":
            self._register(n, obj)
            sids = [[int(i), self.matname(s.material)] for i, s in obj.surface_ids]
            name = self.matname(mat) if mat is not None else (
                {"plane": "mirror", "spherical": "mirror", "parabolic": "mirror", "prism": "BK7"}.get(f, "ideal"))
        num = lambda a: encv(np.atleast_1d(a))
        self.log("part", n=n, f=f, p=encv(p), ap=num(ap), ap2=num(ap2 if ap2 is not None else 1),
                 oy=enc(off[0]), oz=enc(off[1]), mat=name, sids=sids, id=obj.get_id() if x == "" else -1, x=x)
        return obj

    # ------------------------------------------------------------ sources
    def source(self, n, kind, a=1.0, b=0.0, c=0.0, wl=None, given=None):
        """given: the arguments that are passed instead of all: (positional, keywords)"""
        kw = {} if wl is None else {"wavelength": wl}
        pc = components
        make = {"line": lambda: pc.LineOfRays(a, **kw), "circle": lambda: pc.CircleOfRays(a, **kw),
                "cone": lambda: pc.ConeOfRays(a, **kw), "wedge": lambda: pc.WedgeOfRays(a, **kw),
                "lamp": lambda: pc.Lamp(a, b, c, **kw), "static": lambda: pc.StaticLamp(a, b, c, **kw)}[kind]
        if given is not None:
            cls = {"line": pc.LineOfRays, "circle": pc.CircleOfRays, "cone": pc.ConeOfRays, "wedge": pc.WedgeOfRays,
                   "lamp": pc.Lamp, "static": pc.StaticLamp}[kind]
            make = lambda: cls(*given[0], **given[1])
        obj, x = self.call(make)
        if x == "":
            self._register(n, obj)
        self.log("src", n=n, id=obj.get_id() if x == "" else -1, x=x,
                 src={"k": kind, "a": enc(a), "b": enc(b), "c": enc(c), "wl": enc(0.633 if wl is None else wl)})
        return obj

    def fixed(self, n, rays, ids=None):
        """A source that emits the given rays (o, d, wl, pw), whatever the count.
        ids: the ids the rays bring along, which the tracer does not care about"""
        obj = Fixed(rays, ids)
        self._register(n, obj)
        self.log("new", n=n, kind="fixed", id=obj.get_id(), mat="")
        return obj

    def recorded(self, n, inner):
        """A source that emits what another one emits, and records it."""
        obj = Recorded(self.o[inner])
        self._register(n, obj)
        self.log("new", n=n, kind="fixed", id=obj.get_id(), mat="")
        return obj

    def setwl(self, n, wl):
        def go():
            self.o[n].wavelength = wl
            return self.o[n].wavelength
        v, x = self.call(go)
        self.log("setwl", n=n, wl=enc(wl), got=[] if x else enc(v), x=x)

    def emit(self, n, cnt, spoil=False, lamp=None, spread=False):
        f = []

        def look():
            rs = self.o[n].generate_rays(cnt)
            self.__dict__.setdefault("given", []).append(rs)
            f.extend({"o": encv(rs.rays[0, :3, i]), "d": encv(rs.rays[1, :3, i]), "wl": enc(rs.wavelength[i]),
                      "pw": enc(rs.intensity[i]), "idx": enc(rs.index[i]), "gen": enc(rs.generation[i])}
                     for i in range(rs.shape[-1]))
            if spoil:      # the returned set belongs to the caller
                rs[:] = 7.5
        _, x = self.call(look)
        if lamp:
            self.log("lamp", n=n, cnt=cnt, rays=f, mode=lamp, spread=spread, x=x)
        else:
            self.log("emit", n=n, cnt=cnt, rays=f, x=x)

    def quiet(self, n, k):
        """rays for k other counts, which nobody looks at"""
        def go():
            for c in range(k):
                self.o[n].generate_rays(20 + c)
        _, x = self.call(go)
        self.log("fact", c="exception " + x, ok=x == "")

    def ruin(self, i):
        """overwrite the i-th set of rays that was handed out; it belongs to the caller"""
        def go():
            self.given[i][:] = 7.5
        self.call(go)

    # ------------------------------------------------------------ tracing
    def tracer(self, t, srcs, comps, nr=10, lim=10, thr=None, single=False, group=None):
        """group: name of a group that holds the sources"""
        so, co = [self.o[s] for s in srcs], [self.o[c] for c in comps]
        if group == "tuple":
            so, co = tuple(so), tuple(co)
        elif group == "iter":
            so, co = iter(so), (c for c in co)
        elif group is not None:
            so = self.o[group]
        if single and group != "iter":
            co = co[0] if len(co) == 1 else co
            so = so[0] if len(so) == 1 else so
        kw = {}
        if nr != 10:
            kw["rays_per_source"] = nr
        if lim != 10:
            kw["generation_limit"] = lim
        obj, x = self.call(pyrayt.RayTracer, so, co, **kw)
        if not hasattr(self, "t"):
            self.t, self.tsrc, self.frames = {}, {}, {}
        self.t[t], self.tsrc[t] = obj, list(srcs)
        self.log("tracer", t=t, srcs=list(srcs), comps=list(comps), nr=nr, lim=lim, thr=enc(0.1), x=x)
        if thr is not None:
            self.set(t, "thr", thr)
        return obj

    def set(self, t, f, v):
        o = self.t[t]
        if f == "thr":
            _, x = self.call(setattr, o, "ray_intensity_threshold", v)
        elif f == "off":
            _, x = self.call(setattr, o, "ray_offset_value", v)
        else:
            _, x = self.call({"nr": o.set_rays_per_source, "lim": o.set_generation_limit}[f], v)
        self.log("set", t=t, f=f, v=enc(v) if f in ("thr", "off") else v, x=x)

    def get(self, t, f):
        v, x = self.call({"nr": self.t[t].get_rays_per_source, "lim": self.t[t].get_generation_limit}[f])
        self.log("get", t=t, f=f, v=-1 if x else int(v), x=x)

    def load(self, t, comps, single=False, how=None):
        """how: give an iterator, or edit the list that the tracer has"""
        co = [self.o[c] for c in comps]

        def go():
            have = self.t[t].get_system()
            if how == "edit" and isinstance(have, list):
                have[:] = co
            else:
                self.t[t].load_components(co[0] if single else (c for c in co) if how == "iter" else co)
        _, x = self.call(go)
        self.log("load", t=t, comps=list(comps), x=x)

    def system(self, t):
        v, x = self.call(lambda: [self.name_of(c) for c in self.t[t].get_system()])
        self.log("system", t=t, v=v if not x else [], x=x)

    def name_of(self, obj):
        for n, o in self.o.items():
            if o is obj:
                return n
        return "?"

    def reset(self, t):
        _, x = self.call(self.t[t].reset)
        self.log("reset", t=t, x=x)

    def trace(self, t, lab, observe=False):
        """observe: log what the spied materials were seen to do instead of predicting it"""
        Spy.seen, Spy.count = [], {}
        df, x = self.call(self.t[t].trace)
        em = []
        for s in self.tsrc[t]:
            o = self.o[s]
            if isinstance(o, (Fixed, Recorded)):
                em.append(o.emitted())
            elif x == "" and isinstance(o, OPEN) and self.t[t].get_rays_per_source() == 1:
                em.append(emission(o.generate_rays(1)))
            else:
                em.append([])
        self.frames[lab] = df
        f = {"em": em, "ia": Spy.seen if observe else [], "rows": rows_of(df) if not x else []}
        self.log("trace", t=t, lab=lab, x=x, **f)
        return df

    def fail(self, t, lab, after, source=""):
        """A trace during which the given source, or a material at its given use, raises an exception; a trace
        that does not get that far is recorded as such."""
        Spy.fuse = after
        if source:
            self.o[source].broken = True
        got = ""
        Spy.seen, Spy.count = [], {}
        try:
            with limited():
                df = self.t[t].trace()
        except vp.Machinery:
            raise
        except Exception as e:
            got = type(e).__name__
        finally:
            Spy.fuse = None
            if source:
                self.o[source].broken = False
        if got == "" and not source:
            return self.trace(t, lab, observe=True)
        self.log("fail", t=t, got=got)
        return None

    def results(self, t):
        df, x = self.call(self.t[t].get_results)
        self.log("results", t=t, rows=rows_of(df) if not x else [], x=x)

    def held(self, lab):
        self.log("held", lab=lab, rows=rows_of(self.frames[lab]))

    def sids(self, t):
        def go():
            self.t[t].calculate_source_ids()
            return [int(i) for i in self.t[t].get_results()["source_id"]]
        v, x = self.call(go)
        self.log("sids", t=t, v=v if not x else [], x=x)

    def cmp(self, a, b, idmap):
        self.log("cmp", a=a, b=b, map=list(idmap))

    # ------------------------------------------------------------ images
    def camera(self, n, nh, width, aspect):
        obj, x = self.call(cg.OrthographicCamera, nh, width, aspect)
        if x == "":
            self._register(n, obj)
        self.log("src", n=n, id=obj.get_id() if x == "" else -1, x=x,
                 src={"k": "camera", "a": enc(width), "b": enc(aspect * width), "nh": nh, "nv": int(aspect * nh)})
        return obj

    def camrays(self, n):
        f = {"res": [], "span": [], "rays": []}

        def look():
            r = self.o[n].generate_rays()
            f.update(res=[int(i) for i in self.o[n].get_resolution()], span=encv(self.o[n].get_span()),
                     rays=[[encv(r[0, :3, i]), encv(r[1, :3, i])] for i in range(r.shape[-1])])
            r[:] = 3
        _, x = self.call(look)
        self.log("cam", n=n, x=x, **f)

    def shaded(self, n, comps, lights):
        """lights: a list of points"""
        L = np.vstack((np.array(lights, float).T, np.ones(len(lights))))
        f = {"img": [], "same": False}

        def look():
            r = cg.renderers.ShadedRenderer(self.o[n], [self.o[c] for c in comps],
                                            light_position=L[:, 0] if len(lights) == 1 else L)
            img = r.render()
            again = r.render()
            f["img"] = [[encv(p) for p in row] for row in img]
            f["same"] = bool(np.array_equal(img, again))
        _, x = self.call(look)
        self.log("shaded", n=n, comps=list(comps), lights=[encv(l) for l in lights], x=x, **f)

    def edges(self, n, comps):
        f = {"img": [], "same": False}

        def look():
            r = cg.renderers.EdgeRender(self.o[n], [self.o[c] for c in comps])
            img = r.render()
            f["img"] = [[bool(p[3] != 0) for p in row] for row in img]
            got = r.get_results()
            f["same"] = bool(got is not None and np.array_equal(img, got)
                             and np.array_equal(r.render(), img))
        _, x = self.call(look)
        self.log("edges", n=n, comps=list(comps), x=x, **f)

    def draw(self, comps, view, shaded, bounds=None, resolution=40):
        import matplotlib.pyplot as plt
        f = {"img": [], "ext": [], "bounds": [] if bounds is None else [encv(b) for b in bounds]}

        def look():
            fig = plt.figure()
            try:
                ax = fig.gca()
                kw = {"bounds": bounds} if bounds is not None else {}
                cg.renderers.draw([self.o[c] for c in comps], view=view, axis=ax, shaded=shaded,
                                  resolution=resolution, **kw)
                if len(ax.get_images()) > 1:
                    raise AssertionError("one image")
                if not ax.get_images():
                    return
                im = ax.get_images()[0]
                a = np.asarray(im.get_array())
                ext = list(im.get_extent())
                if im.origin == "lower":
                    a = a[::-1]
                f["img"] = [[encv(p) for p in r] for r in a] if shaded else \
                    [[bool(p[3] != 0) for p in r] for r in a]
                f["ext"] = encv(ext)
            finally:
                plt.close(fig)
        _, x = self.call(look)
        self.log("draw", comps=list(comps), view=view, shaded=shaded, x=x, **f)

    def show(self, t, view, mode, axis=True, width=0.01, bounds=None, judged=True, **kw):
        """RayTracer.show; mode: the name of the colour function or an empty string; axis: given or current;
        judged: whether the image of the components is logged, too.  Returns whether the call went well."""
        import matplotlib.pyplot as plt
        f = {"arrows": [], "cols": []}
        im = {"img": [], "ext": [], "bounds": [] if bounds is None else [encv(b) for b in bounds]}
        o = self.t[t]

        def look():
            fig = plt.figure()
            try:
                ax = fig.gca()
                k = dict(kw)
                if bounds is not None:
                    k["bounds"] = bounds
                if mode:
                    k["color_function"] = mode
                if axis:
                    k["axis"] = ax
                if width != 0.01:
                    k["ray_width"] = width
                if view != "xy" or not axis:
                    k["view"] = view
                o.show(**k)
                for q in ax.collections:
                    if not isinstance(q, Quiver):
                        continue
                    if (q.scale_units or q.units) not in ("x", "xy") or q.pivot != "tail" or ax.get_aspect() not in ("equal", 1.0):
                        raise AssertionError("arrow-scale")
                    f["arrows"] += [encv((x, y, u / q.scale, v / q.scale)) for x, y, u, v in zip(q.X, q.Y, np.ravel(q.U), np.ravel(q.V))]
                    c = np.asarray(q.get_facecolor())
                    f["cols"] += [encv(x[:3]) for x in np.broadcast_to(c if len(c) else np.zeros((1, 4)), (len(q.X), 4))]
                a = ax.get_images()
                if judged and len(a) == 1:
                    d = np.asarray(a[0].get_array())
                    im["ext"] = encv(list(a[0].get_extent()))
                    im["img"] = [[bool(p[3] != 0) for p in r] for r in (d[::-1] if a[0].origin == "lower" else d)]
                elif judged and a:
                    raise AssertionError("one image")
            finally:
                plt.close(fig)
        _, x = self.call(look)
        self.log("show", t=t, view=view, mode=mode, x=x, **f)
        if judged and x == "":
            self.log("draw", comps=[self.name_of(c) for c in o.get_system()], view=view, shaded=False, x="", **im)
        return x == ""

    # ------------------------------------------------------------ formulas
    def rgb(self, wl, p=4, q=5):
        kw = {} if (p, q) == (4, 5) else {"gamma": p / q}
        f = {"wl": [], "out": []}

        def look():
            out = np.asarray(pyrayt.utils.wavelength_to_rgb(wl, **kw))
            f["wl"] = encv(np.atleast_1d(np.asarray(wl, dtype=float)))
            f["out"] = [encv(r) for r in np.atleast_2d(out)]
        _, x = self.call(look)
        self.log("rgb", p=p, q=q, x=x, **f)

    def lensmaker(self, r1, r2, n, t):
        with np.errstate(all="ignore"):
            v, x = self.call(pyrayt.utils.lensmakers_equation, r1, r2, n, t)
        self.log("lensmaker", r1=enc(r1), r2=enc(r2), n=enc(n), t=enc(t), f=[] if x else enc(v), x=x)
        return v

    def focus(self, r1, r2, n, t, h):
        f = {"f": [], "row": []}

        def look():
            glass = matl.BasicRefractor(n)
            lens = components.thick_lens(r1, r2, t, material=glass, aperture=1.0)
            far = cg.XYPlane(1e4, 1e4, material=matl.absorber).rotate_y(90).move_x(200)
            src = Fixed([((-5, h, 0), (1, 0, 0), 0.6, 100.0)])
            df = pyrayt.RayTracer(src, [lens, far]).trace()
            f["row"] = rows_of(df)[-1]
            f["f"] = enc(pyrayt.utils.lensmakers_equation(r1, r2, n, t))
        _, x = self.call(look)
        self.log("focus", r1=enc(r1), r2=enc(r2), n=enc(n), t=enc(t), x=x, **f)

    def merge(self, op, a, b, one_dim=False, vals=None, as_sorted=True):
        """a, b: lists of columns of even integers; +-INF for infinities; vals: the number that each integer stands for"""
        f = {"out": []}
        of = {v: k for k, v in (vals or {}).items()}

        def arr(cols):
            num = {INF: np.inf, -INF: -np.inf, **(vals or {})}
            return np.array([[num.get(v, v) for v in c] for c in cols], float).T

        def back(v):
            v = np.where(np.isnan(v), INF - 2, v)
            return [int(INF if i == np.inf else -INF if i == -np.inf else of.get(float(i), INF - 2) if of else i)
                    for i in v]

        def look():
            o = {"union": cg.csg.Operation.UNION, "intersect": cg.csg.Operation.INTERSECT,
                 "difference": cg.csg.Operation.DIFFERENCE}[op]
            A, B = arr(a), arr(b)
            if one_dim:
                f["out"] = [back(cg.csg.array_csg(A[:, i], B[:, i], o)) for i in range(A.shape[1])]
            elif not as_sorted:
                f["out"] = [back(c) for c in np.sort(cg.csg.array_csg(A, B, o, sort_output=False), axis=0).T]
            else:
                A0, B0 = A.copy(), B.copy()
                out = cg.csg.array_csg(A, B, o)
                f["out"] = [back(c) for c in out.T]
                if not (np.array_equal(A, A0) and np.array_equal(B, B0)):
                    raise AssertionError("operand-changed")
        _, x = self.call(look)
        self.log("merge", op=op, a=[list(c) for c in a], b=[list(c) for c in b], x=x, **f)

    # ------------------------------------------------------------ ray sets
    def rs(self):
        if not hasattr(self, "sets"):
            self.sets = {}
        return self.sets

    @staticmethod
    def _dump(rs):
        a = np.asarray(rs)
        return [encv(np.concatenate((rs.rays[0, :, i], rs.rays[1, :, i],
                                     [rs.generation[i], rs.intensity[i], rs.wavelength[i], rs.index[i], rs.id[i]])))
                for i in range(a.shape[-1])]

    def rsnew(self, n, k):
        def go():
            self.rs()[n] = pyrayt.RaySet(k)
            return self._dump(self.rs()[n])
        v, x = self.call(go)
        self.log("rsnew", n=n, len=k, v=v if not x else [], x=x)

    def rslook(self):
        for n, s in list(self.rs().items()):
            v, x = self.call(self._dump, s)
            self.log("rslook", n=n, v=v if not x else [], x=x)
            v, x = self.call(lambda: int(s.n_rays))
            self.log("fact", c="rayset-length", ok=(x == "" and v == np.asarray(s).shape[-1]))

    def rsread(self, n, f):
        def go():
            a = np.asarray(getattr(self.rs()[n], f))
            if f == "rays":
                return [encv(np.concatenate((a[0, :, i], a[1, :, i]))) for i in range(a.shape[-1])]
            if f == "metadata":
                return [encv(a[:, i]) for i in range(a.shape[-1])]
            return [[enc(v)] for v in a]
        v, x = self.call(go)
        self.log("rsread", n=n, f=f, v=v if not x else [], x=x,
                 cols=list(range(1, np.asarray(self.rs()[n]).shape[-1] + 1)))

    def rswrite(self, n, f, lo, hi, vals, how):
        """Write the columns lo..hi-1 of the field f.  how: "set" (the property, whole set), "view"
        (in place through the property), "slice" (the property of a slice of the set), "scalar"."""
        s = self.rs()[n]
        cols = list(range(lo, hi))
        width = {"rays": 8, "metadata": 5}.get(f, 1)
        vals = np.asarray(vals, float)            # (columns, width)

        def shaped(v):
            if f == "rays":
                return v.T.reshape(2, 4, -1)
            if f == "metadata":
                return v.T.copy()
            return v[:, 0].copy()

        def go():
            v = shaped(vals)
            if how == "set":
                setattr(s, f, v)
            elif how == "scalar":
                setattr(s, f, float(vals[0, 0]))
            elif how == "view":
                getattr(s, f)[..., lo:hi] = v
            elif how == "slice":
                setattr(s[..., lo:hi], f, v)
        _, x = self.call(go)
        if how == "scalar":
            vals = vals[:1]
        full = np.broadcast_to(vals, (len(cols), width))
        self.log("rswrite", n=n, f=f, cols=[c + 1 for c in cols], vals=[encv(r) for r in full], x=x)

    def rsmask(self, n, frm, mask):
        """A subset selected with a mask is a set of its own."""
        def go():
            self.rs()[n] = self.rs()[frm][..., np.array(mask, bool)]
        _, x = self.call(go)
        self.log("rscopy", n=n, **{"from": frm}, cols=[i + 1 for i, b in enumerate(mask) if b], x=x)

    def rscopy(self, n, frm):
        def go():
            self.rs()[n] = self.rs()[frm].copy()
        _, x = self.call(go)
        k = np.asarray(self.rs()[frm]).shape[-1]
        self.log("rscopy", n=n, **{"from": frm}, cols=list(range(1, k + 1)), x=x)

    def rsjoin(self, n, frm):
        def go():
            self.rs()[n] = np.hstack([self.rs()[f] for f in frm]).view(pyrayt.RaySet)
        _, x = self.call(go)
        self.log("rsjoin", n=n, **{"from": list(frm)}, x=x)


INF = 1000000
import tinygfx.g3d.materials.gooch as gooch  # noqa: E402
import tinygfx.g3d.materials.color as color  # noqa: E402


class Broken(Exception):
    pass


class Spy(matl.TracableMaterial):
    seen = []
    count = {}
    fuse = None

    def __init__(self, inner):
        super().__init__()
        self.inner = inner

    def shade(self, *a, **k):
        return self.inner.shade(*a, **k)

    def trace(self, surface, ray_set):
        if Spy.fuse is not None:
            Spy.fuse -= 1
            if Spy.fuse < 0:
                raise Broken()
        ids = [int(i) for i in np.asarray(ray_set.id)]
        alive = np.linalg.norm(ray_set.rays[1], axis=0) > 1e-9    # what is done with ended rays does not matter
        out = self.inner.trace(surface, ray_set)
        for i, r in enumerate(ids):
            if not alive[i]:
                continue
            g = Spy.count.get(r, 0)
            Spy.count[r] = g + 1
            Spy.seen.append([r, g, encv(out.rays[1, :3, i]), enc(out.intensity[i]), enc(out.index[i]),
                             self.name, int(surface.get_id())])
        return out


class Fixed(cg.WorldObject):
    """rays: (origin, direction, wavelength, intensity)"""

    def __init__(self, rays, ids=None):
        super().__init__()
        self.given, self.ids = rays, ids

    broken = False

    def generate_rays(self, n_rays):
        if self.broken:
            raise Broken()
        rs = pyrayt.RaySet(len(self.given))
        a = rays_array([(o, np.array(d, float) / np.linalg.norm(d)) for o, d, _, _ in self.given])
        rs.rays = a
        rs.wavelength = np.array([r[2] for r in self.given], float)
        rs.intensity = np.array([r[3] for r in self.given], float)
        if self.ids is not None:
            rs.id = self.ids
        return rs

    def emitted(self):
        return emission(self.generate_rays(0))


class Recorded(cg.WorldObject):
    def __init__(self, inner):
        super().__init__()
        self.inner = inner
        self.last = None

    def generate_rays(self, n_rays):
        rs = self.inner.generate_rays(n_rays)
        self.last = rs.copy()
        return rs

    def emitted(self):
        return [] if self.last is None else emission(self.last)


def emission(rs):
    return [{"o": encv(rs.rays[0, :3, i]), "d": encv(rs.rays[1, :3, i]), "wl": enc(rs.wavelength[i]),
             "pw": enc(rs.intensity[i]), "idx": enc(rs.index[i])} for i in range(rs.shape[-1])]


def rayset(rays):
    """rays: (origin, direction, wavelength, index, intensity)"""
    rs = pyrayt.RaySet(len(rays))
    rs.rays = rays_array([(r[0], r[1]) for r in rays])
    rs.wavelength = np.array([r[2] for r in rays], float)
    rs.index = np.array([r[3] for r in rays], float)
    rs.intensity = np.array([r[4] for r in rays], float)
    return rs


def rows_of(df):
    def whole(v):
        v = float(v)
        return int(v) if np.isfinite(v) and v == int(v) and abs(v) < 2**31 else -1
    c = ["generation", "intensity", "wavelength", "index", "id", "surface",
         "x0", "y0", "z0", "x1", "y1", "z1", "x_tilt", "y_tilt", "z_tilt"]
    a = df[c].to_numpy(dtype=float)
    return [[whole(r[0]), enc(r[1]), enc(r[2]), enc(r[3]), whole(r[4]), whole(r[5]),
             encv(r[6:9]), encv(r[9:12]), encv(r[12:15])] for r in a]
