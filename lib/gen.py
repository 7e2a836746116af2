"""Random inputs: numbers, poses, solids, rays aimed at solids, scenes.

Generators choose inputs only; what the code has to do with them is said by the specification.
"""
import numpy as np

KINDS = ("sphere", "cylinder", "paraboloid", "cuboid", "plane")
SOLIDS = KINDS[:4]


def unit(v):
    v = np.asarray(v, float)
    return v / np.linalg.norm(v)


class Gen:
    far = False          # do rays also come from very far away?

    def __init__(self, seed):
        self.r = np.random.default_rng(seed)

    def one(self, seq):
        return seq[int(self.r.integers(len(seq)))]

    def chance(self, p):
        return bool(self.r.random() < p)

    def u(self, a, b):
        return float(self.r.uniform(a, b))

    def vec(self, s=1.0):
        return tuple(float(x) for x in self.r.uniform(-s, s, 3))

    def dir(self):
        return unit(self.r.normal(size=3))

    def size(self):
        return self.one((0.5, 1.0, 1.5, 2.0, self.u(0.3, 3.0)))

    # ------------------------------------------------------------ poses
    def angle(self):
        return self.one((90.0, 180.0, -90.0, 45.0, 30.0, 0.0, 360.0, self.u(-180, 180), self.u(-180, 180), self.u(-720, 720)))

    def shift(self, s=3.0):
        return self.one((self.vec(s), self.vec(s), (self.u(-s, s), 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 0.0)))

    def factors(self):
        return self.one(((2.0, 2.0, 2.0), (1.0, 1.0, 0.5), tuple(float(x) for x in self.r.uniform(0.4, 2.2, 3)),
                         tuple(float(x) for x in self.r.uniform(0.4, 2.2, 3)), (0.3, 1.0, 3.0)))

    def matrix(self, mirror=False):
        """an invertible affine map that is not too flat; shears included"""
        while True:
            m = np.eye(4)
            m[:3, :3] += self.r.uniform(-0.6, 0.6, (3, 3))
            m[:3, 3] = self.r.uniform(-2, 2, 3)
            if mirror:
                m[:3, 0] *= -1
            d = np.linalg.det(m[:3, :3])
            if abs(d) > 0.4:
                return m

    def step(self, e, n, tf=True, bad=0.0):
        """one random transformation call on the object n"""
        k = self.r.random()
        if bad and k < bad:
            c = self.r.integers(5)
            if c == 0:
                e.scale(n, self.one(((0.0, 1.0, 1.0), (1.0, -2.0, 1.0), (1.0, 1.0, 0.0), (-1.0, -1.0, -1.0))))
            elif c == 4:                        # any number of factors that are not positive
                v = self.r.uniform(0.3, 2, 3) * self.one((0.1, 1, 10)) * self.r.choice((-1, 1, 1), 3)
                v[int(self.r.integers(3))] *= self.one((0.0, -1.0, -1e-3))
                if (v > 0).all():
                    v[0] = -v[0]
                e.scale(n, tuple(float(x) for x in v))
            elif c == 1:
                e.scale(n, (self.one((0.0, -0.5)),) * 3, via=3)
            elif c == 2:
                v = [1.0, 1.0, 1.0]
                i = int(self.r.integers(3))
                v[i] = self.one((0.0, -1.5))
                e.scale(n, v, via=i)
            else:
                e.rot(n, int(self.r.integers(1, 4)), self.angle(), self.one(("grad", "", "degrees", "DEG")))
            return
        k = self.r.random()
        if k < 0.35:
            if self.chance(0.3):
                i = int(self.r.integers(3))
                v = [0.0, 0.0, 0.0]
                v[i] = self.u(-3, 3)
                e.move(n, v, via=i)
            else:
                e.move(n, self.shift())
        elif k < 0.7:
            a = self.angle()
            if self.chance(0.3):
                e.rot(n, int(self.r.integers(1, 4)), float(np.deg2rad(a)), "rad")
            else:
                e.rot(n, int(self.r.integers(1, 4)), a)
        elif k < 0.9 or not tf:
            c = self.r.random()
            if c < 0.25:
                i = int(self.r.integers(3))
                v = [1.0, 1.0, 1.0]
                v[i] = self.one((0.5, 2.0, self.u(0.4, 2.2)))
                e.scale(n, v, via=i)
            elif c < 0.5:
                s = self.one((0.5, 2.0, self.u(0.4, 2.2)))
                e.scale(n, (s, s, s), via=3)
            else:
                e.scale(n, self.factors())
        else:
            e.tf(n, self.matrix())

    def rigid(self, e, n, k=2, s=1.5):
        for _ in range(k):
            if self.chance(0.5):
                e.move(n, self.vec(s))
            else:
                e.rot(n, int(self.r.integers(1, 4)), self.angle())

    def near(self, e, n, s=1.0):
        """a mild random pose"""
        if self.chance(0.7):
            e.rot(n, int(self.r.integers(1, 4)), self.angle())
        if self.chance(0.4):
            e.scale(n, tuple(float(x) for x in self.r.uniform(0.6, 1.6, 3)))
        if self.chance(0.5):
            e.rot(n, int(self.r.integers(1, 4)), self.angle())
        e.move(n, self.vec(s))

    def mild(self, e, n):
        """a random transformation that does not change sizes much"""
        k = self.r.random()
        if k < 0.4:
            e.move(n, self.vec(1.5))
        elif k < 0.75:
            e.rot(n, int(self.r.integers(1, 4)), self.angle())
        elif k < 0.93:
            e.scale(n, tuple(float(x) for x in self.r.uniform(0.7, 1.4, 3)))
        else:
            m = self.matrix()
            m[:3, :3] /= abs(np.linalg.det(m[:3, :3])) ** (1 / 3)
            e.tf(n, m)

    def tiny(self, e, n, c=None):
        """a transformation that changes next to nothing"""
        c = 10.0 ** -self.u(2, 10) if c is None else c
        k = self.r.random()
        if k < 0.5:
            e.move(n, self.vec(c))
        elif k < 0.8:
            e.rot(n, int(self.r.integers(1, 4)), c * self.u(-50, 50))
        else:
            e.scale(n, tuple(float(1 + c * x) for x in self.r.uniform(-1, 1, 3)))

    # ------------------------------------------------------------ solids
    def params(self, kind, big=False):
        s = 2.0 if big else 1.0
        if kind == "sphere":
            return (s * self.size(),)
        if kind == "cylinder":
            lo, hi = self.one(((-1.0, 1.0), (0.0, 2.0), (-2.0, -0.5), (-self.u(0.2, 2), self.u(0.2, 2)), (0.5, 1.5)))
            return (s * self.size(), s * lo, s * hi)
        if kind == "paraboloid":
            return (self.one((0.25, 0.5, 1.0, self.u(0.1, 2))), s * self.size())
        if kind == "cuboid":
            a = np.array(self.one(((-1, -1, -1), (0, 0, 0), self.vec(1.5), self.vec(1.5))), float)
            b = a + self.r.uniform(0.3, 2.5, 3) * s * self.one((1, 1, self.r.choice((-1, 1), 3)))
            return (*[float(x) for x in a], *[float(x) for x in b])
        return (s * self.size(), s * self.size())

    def scale(self):
        """how large things are: from tiny to huge"""
        return 10.0 ** self.one((self.u(-3, -1), self.u(-1, 1), self.u(1, 2.7)))

    def reach(self, c):
        """how far away rays start from things of the size c"""
        return self.one((self.u(0, 6) * c, self.u(-4, 2) * c, 10.0 ** self.u(1, 5 if self.far and self.chance(0.3) else 3)))

    @staticmethod
    def box(kind, p):
        """corners of the object space extent, for aiming only"""
        if kind == "sphere":
            return -p[0] * np.ones(3), p[0] * np.ones(3)
        if kind == "cylinder":
            return np.array([-p[0], -p[0], min(p[1:])]), np.array([p[0], p[0], max(p[1:])])
        if kind == "paraboloid":
            a = np.sqrt(4 * p[0] * p[1])
            return np.array([-a, -a, 0]), np.array([a, a, p[1]])
        if kind == "cuboid":
            return np.minimum(p[:3], p[3:]), np.maximum(p[:3], p[3:])
        if kind == "plane":
            return np.array([-p[0] / 2, -p[1] / 2, 0]), np.array([p[0] / 2, p[1] / 2, 0])
        return -np.ones(3), np.ones(3)

    # ------------------------------------------------------------ points on surfaces
    def on_surface(self, kind, p):
        """a point on the surface of a primitive, often close to an edge of it"""
        def rim(w):                              # 0..w, often close to one of the ends
            if self.chance(0.4):
                return self.u(0, w)
            x = 10.0 ** -self.u(0.3, 3.4)
            return self.one((x, max(0.0, w - x))) if x < w else self.u(0, w)
        a = self.u(0, 2 * np.pi)
        c = np.array([np.cos(a), np.sin(a), 0.0])
        if kind == "sphere":
            return p[0] * self.dir()
        if kind == "cylinder":
            lo, hi = min(p[1:]), max(p[1:])
            if self.chance(0.5):
                return p[0] * c + np.array([0, 0, lo + rim(hi - lo)])
            return rim(p[0]) * c + np.array([0, 0, self.one((lo, hi))])
        if kind == "paraboloid":
            if self.chance(0.6):
                z = rim(p[1])
                return np.sqrt(4 * p[0] * z) * c + np.array([0, 0, z])
            return rim(np.sqrt(4 * p[0] * p[1])) * c + np.array([0, 0, p[1]])
        if kind == "cuboid":
            lo, hi = np.minimum(p[:3], p[3:]), np.maximum(p[:3], p[3:])
            q = lo + np.array([rim(w) for w in hi - lo])
            i = int(self.r.integers(3))
            q[i] = self.one((lo[i], hi[i]))
            return q
        return np.array([rim(p[0]) - p[0] / 2, rim(p[1]) - p[1] / 2, 0.0])

    # ------------------------------------------------------------ batches
    def among(self, k, n=None):
        """a batch of n elements, in which each of 0..k-1 occurs"""
        n = n or int(self.one((65, 100, 129, 257, 300, 513, 1025, 1500, self.r.integers(k, 3000))))
        a = np.concatenate((np.arange(k), self.r.integers(0, k, max(0, n - k))))
        return self.r.permutation(a)

    # ------------------------------------------------------------ rays
    def grazing(self, kind, p):
        """a point just below or above a curved surface, and a direction along the surface there"""
        a = self.u(0, 2 * np.pi)
        c = np.array([np.cos(a), np.sin(a), 0.0])
        if kind == "sphere":
            n = self.dir()
            q, size = p[0] * n, p[0]
        elif kind == "cylinder":
            n, size = c, p[0]
            q = p[0] * c + np.array([0, 0, self.u(min(p[1:]), max(p[1:]))])
        else:
            z = self.u(0.05, 1) * p[1]
            r = np.sqrt(4 * p[0] * z)
            n = unit(np.array([2 * r * c[0], 2 * r * c[1], -4 * p[0]]))
            q, size = np.array([r * c[0], r * c[1], z]), max(2 * p[0], r)
        d = unit(np.cross(n, self.dir()))
        out = self.chance(0.25)
        return q + (size * 10.0 ** -self.u(1, 6) if out else -size * 10.0 ** -self.u(1, 9)) * n, d

    def extreme(self, kind, p, M):
        """a point (of the object) just inside of where it reaches farthest along an axis of the world"""
        a = M[:3, :3].T @ (np.eye(3)[int(self.r.integers(3))] * self.r.choice((-1, 1)))
        lo, hi = self.box(kind, p)
        c, w = (lo + hi) / 2, (hi - lo) / 2
        if kind == "sphere":
            q = a / max(np.linalg.norm(a), 1e-12) * w
        elif kind in ("cylinder", "paraboloid"):
            q = np.append(a[:2] / max(np.linalg.norm(a[:2]), 1e-12) * w[:2], w[2] if a[2] > 0 or kind == "paraboloid" else -w[2])
        else:
            q = np.where(a > 0, w, -w)
        return c + q * (1 - 10.0 ** -self.u(2, 6))

    def rays(self, e, n, kind, p, count, special=0.5, extent=None, unitary=True, size=None):
        """rays aimed at the object n, of which kind and parameters are given for aiming"""
        try:
            M = np.array(e.o[n].get_world_transform())
            assert np.all(np.isfinite(M))
        except Exception:
            M = np.eye(4)
        lo, hi = extent if extent is not None else self.box(kind, p)
        lo, hi = np.asarray(lo, float), np.asarray(hi, float)
        out = []
        curved = extent is None and kind in ("sphere", "cylinder", "paraboloid")
        while len(out) < count:
            if curved and self.chance(0.3 * special):
                q, d = self.grazing(kind, p)
                q, d = (M @ np.append(q, 1.0))[:3], unit(M[:3, :3] @ d)
                s = self.one((self.u(0, 6), self.u(-4, 2), 0.0, 60.0)) if size is None else self.reach(size)
                out.append((tuple(float(x) for x in q - s * d), tuple(float(x) for x in d)))
                continue
            q = self.extreme(kind, p, M) if extent is None and self.chance(0.12) else \
                lo + (hi - lo) * (self.r.uniform(0.0, 1.0, 3) if self.chance(0.75) else self.r.uniform(-0.15, 1.15, 3))
            q = (M @ np.append(q, 1.0))[:3]
            if self.chance(special):
                c = self.r.random()
                if c < 0.3:                      # along an axis of the object
                    d = M[:3, int(self.r.integers(3))] * self.r.choice((-1, 1))
                elif c < 0.42:                   # along an axis of the world
                    d = np.eye(3)[int(self.r.integers(3))] * self.r.choice((-1, 1))
                elif c < 0.5:                    # along a diagonal of the world
                    d = self.r.permutation(np.array(self.one(((1.0, 1, 0), (1, 1, 1), (1, .5, .5), (.6, .8, 0)))))
                    d = d * self.r.choice((-1, 1), 3)
                elif c < 0.75:                   # almost along an axis of the object
                    a = self.r.integers(3)
                    v = np.zeros(3)
                    v[a] = self.r.choice((-1, 1))
                    v[(a + self.r.integers(1, 3)) % 3] = 10.0 ** -self.u(1, 17)
                    d = M[:3, :3] @ v
                elif c < 0.9:                    # in a coordinate plane of the object
                    v = self.r.normal(size=3)
                    v[int(self.r.integers(3))] = 0
                    d = M[:3, :3] @ v
                else:                            # towards the origin of the object
                    d = M[:3, 3] - q + 1e-3 * self.dir()
            else:
                d = self.dir()
            if not np.linalg.norm(d) > 1e-9:
                continue
            d = unit(d)
            if not unitary and self.chance(0.3):
                d = d * self.one((0.25, 3.0))
            s = self.one((self.u(0, 6), self.u(2, 8), self.u(-4, 2), 0.0, 60.0)) if size is None else self.reach(size)
            out.append((tuple(float(x) for x in q - s * d), tuple(float(x) for x in d)))
        return out
