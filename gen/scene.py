"""Scenes: bodies, joints and loads, as Python values and as driver commands.

The generator only has to make inputs; it never decides whether an outcome is right. It knows the
joints' row coefficients because inputs have to be ones for which the properties make a claim (rows that
are independent, systems that are not badly conditioned).
"""
import math
import random

import numpy as np

BODIES = {"link": 2, "roll": 2, "clutch": 2, "gear": 2, "pin": 1, "rot": 1, "line": 1, "fric": 1, "crot": 1}
ROWS = {"pin": 2, "link": 2, "roll": 2, "rot": 1, "line": 1, "clutch": 1, "gear": 1, "fric": 1, "crot": 1}
HUGE = 1.7976931348623157e308


def num(x):
    if isinstance(x, int):
        return str(x)
    x = float(x)
    return x.hex()


def line(*words):
    return " ".join(w if isinstance(w, str) else num(w) for w in words)


def turn(phi, u):
    c, s = math.cos(phi), math.sin(phi)
    return (c * u[0] - s * u[1], s * u[0] + c * u[1])


class Scene:
    def __init__(self):
        self.bodies = {}        # name -> [x, y, th, vx, vy, om, m, I]
        self.joints = {}        # name -> (kind, [bodies], [params])
        self.gens = {}          # name -> (kind, [bodies], [params])
        self.outside = set()    # bodies that do not join the system

    def copy(self):
        s = Scene()
        s.bodies = {k: list(v) for k, v in self.bodies.items()}
        s.joints = {k: (a, list(b), list(c)) for k, (a, b, c) in self.joints.items()}
        s.gens = {k: (a, list(b), list(c)) for k, (a, b, c) in self.gens.items()}
        s.outside = set(self.outside)
        return s

    def inside(self):
        return [b for b in self.bodies if b not in self.outside]

    # ------------------------------------------------------------------ physics needed for selection
    def point(self, b, u):
        v = self.bodies[b]
        t = turn(v[2], u)
        return (v[0] + t[0], v[1] + t[1])

    def rows(self, name):
        """list of (row coefficients for each body in turn, error)"""
        kind, bs, p = self.joints[name]
        k = [self.bodies[b] for b in bs]
        if kind == "pin":
            r = turn(k[0][2], p[0:2])
            return [([1, 0, -r[1]], k[0][0] + r[0] - p[2]), ([0, 1, r[0]], k[0][1] + r[1] - p[3])]
        if kind == "rot":
            return [([0, 0, 1], k[0][2] - p[0])]
        if kind == "line":
            r = turn(k[0][2], p[0:2])
            n = (-p[5], p[4])
            return [([n[0], n[1], -r[1] * n[0] + r[0] * n[1]],
                     (k[0][0] + r[0] - p[2]) * n[0] + (k[0][1] + r[1] - p[3]) * n[1])]
        if kind == "link":
            r1, r2 = turn(k[0][2], p[0:2]), turn(k[1][2], p[2:4])
            return [([1, 0, -r1[1], -1, 0, r2[1]], k[0][0] + r1[0] - k[1][0] - r2[0]),
                    ([0, 1, r1[0], 0, -1, -r2[0]], k[0][1] + r1[1] - k[1][1] - r2[1])]
        if kind == "roll":
            r = turn(k[0][2], p[0:2])
            d = turn(k[0][2], p[2:4])
            n = (-d[1], d[0])
            e = (k[1][0] - k[0][0] - r[0], k[1][1] - k[0][1] - r[1])
            s, h = e[0] * d[0] + e[1] * d[1], e[0] * n[0] + e[1] * n[1]
            s3 = h - (-r[1] * d[0] + r[0] * d[1])
            h3 = -(s + (-r[1] * n[0] + r[0] * n[1]))
            rad = p[4]
            return [([d[0], d[1], rad - s3, -d[0], -d[1], -rad], -(rad * (k[1][2] - k[0][2]) + s)),
                    ([n[0], n[1], -h3, -n[0], -n[1], 0], rad - h)]
        if kind == "clutch":
            return [([0, 0, -1, 0, 0, 1], 0)]
        if kind == "gear":
            return [([0, 0, 1, 0, 0, -p[0]], 0)]
        return [([0, 0, 1], 0)]

    def system(self, joints=None):
        """J (dense) and the inverse masses, over the bodies in the system"""
        ins = self.inside()
        at = {b: i for i, b in enumerate(ins)}
        rows = []
        for j in (self.joints if joints is None else joints):
            kind, bs, p = self.joints[j]
            for c, _ in self.rows(j):
                r = np.zeros(3 * len(ins))
                for s, b in enumerate(bs):
                    if b in at:
                        r[3 * at[b]:3 * at[b] + 3] += c[3 * s:3 * s + 3]
                rows.append(r)
        w = np.array([x for b in ins for x in (1 / self.bodies[b][6], 1 / self.bodies[b][6], 1 / self.bodies[b][7])])
        return np.array(rows).reshape(len(rows), 3 * len(ins)), w

    def condition(self):
        """condition number of J W J' with its rows scaled to one"""
        J, w = self.system()
        if len(J) == 0:
            return 1.0
        A = (J * w) @ J.T
        d = np.sqrt(np.diag(A))
        if np.any(d < 1e-6):
            return float("inf")
        A = A / d[:, None] / d[None, :]
        e = np.linalg.eigvalsh(A)
        return float("inf") if e[0] < 1e-12 else float(e[-1] / e[0])

    # ------------------------------------------------------------------ commands
    def declare(self, pre=""):
        out = []
        for b, v in self.bodies.items():
            out.append(line("body", pre + b, *v))
        for j, (k, bs, p) in self.joints.items():
            out.append(line("joint", pre + j, k, pre + bs[0], (pre + bs[1]) if len(bs) > 1 else "-", *p))
        for g, (k, bs, p) in self.gens.items():
            n = [pre + b for b in bs] + ["-", "-"]
            out.append(line("gen", pre + g, k, n[0], n[1], *p))
        return out

    def adds(self, y, pre="", rng=None, bodies=None):
        out = [line("addb", y, pre + b) for b in self.inside()]
        rest = [line("addj", y, pre + j) for j in self.joints] + [line("addg", y, pre + g) for g in self.gens]
        out += rest
        if rng:
            rng.shuffle(out)
        return out

    def state(self, pre=""):
        return [line("bset", pre + b, *v[:6]) for b, v in self.bodies.items()]

    def tag(self, t, pre=""):
        ins, js = list(self.bodies), list(self.joints)
        return line("tag", t, len(ins), *[pre + b for b in ins], len(js), *[pre + j for j in js])

    def moved(self, phi, d):
        """the same scene, turned by phi about the origin and shifted by d"""
        s = self.copy()
        for v in s.bodies.values():
            x = turn(phi, v[0:2])
            v[0], v[1] = x[0] + d[0], x[1] + d[1]
            v[2] += phi
            v[3], v[4] = turn(phi, v[3:5])
        for k, bs, p in s.joints.values():
            if k == "pin":
                x = turn(phi, p[2:4])
                p[2], p[3] = x[0] + d[0], x[1] + d[1]
            elif k == "rot":
                p[0] += phi
            elif k == "line":
                x = turn(phi, p[2:4])
                p[2], p[3] = x[0] + d[0], x[1] + d[1]
                p[4], p[5] = turn(phi, p[4:6])
        for k, bs, p in s.gens.values():
            if k == "static":
                p[0], p[1] = turn(phi, p[0:2])
        return s


# ---------------------------------------------------------------------------------- random parts
ANGLES = [0.0, 0.1, -0.4, 1.0, math.pi / 2, -2.5, math.pi, 4.0, 7.5, -11.0, 40.0]


class Maker:
    """Random scenes. `wild` allows unusual values (large angles, unequal masses)."""

    def __init__(self, rng, wild=1.0):
        self.r = rng
        self.wild = wild
        self.big = 1.0 if wild >= 1 else 0.0    # how often something is much larger or heavier than usual

    def val(self, a=2.0):
        r = self.r
        q = r.random()
        if q < 0.12:
            return 0.0
        if q < 0.3:
            return float(r.choice([1, -1, 0.5, 2, -1.5]))
        if q < 0.38:            # any order of magnitude below a
            return r.choice([a, -a]) * 10.0 ** r.uniform(-7, -1)
        if q < 0.38 + 0.02 * self.big:
            return r.choice([a, -a]) * 10.0 ** r.uniform(0.5, 3)
        return r.uniform(-a, a)

    def pos(self, lo=0.2, hi=3.0):
        return self.r.uniform(lo, hi)

    def angle(self):
        if self.r.random() < 0.5 * self.wild:
            return self.r.choice(ANGLES)
        if self.r.random() < 0.12:      # any order of magnitude
            return self.r.choice([1, -1]) * 10.0 ** self.r.uniform(-6, -0.5)
        return self.r.uniform(-3.2, 3.2)

    unit = 1.0      # of mass (and so of inertia, force, torque, stiffness)

    def mass(self):
        r = self.r
        q = r.random()
        if q < 0.25:
            return self.unit
        if q < 0.35 * self.wild:
            return r.choice([0.05, 12.0, 40.0]) * self.unit
        if q > 1 - 0.03 * self.big:
            return 10.0 ** r.choice([r.uniform(2, 6), r.uniform(-4, -1)]) * self.unit
        return r.uniform(0.3, 4.0) * self.unit

    def body(self, spread=3.0, speed=1.5):
        r = self.r
        still = r.random() < 0.1
        if r.random() < 0.06:       # now and then a fast one
            speed *= 10.0 ** r.uniform(0.3, 1.8)
        return [r.uniform(-spread, spread), r.uniform(-spread, spread), self.angle(),
                0.0 if still else self.val(speed), 0.0 if still else self.val(speed), 0.0 if still else self.val(speed),
                self.mass(), self.mass()]

    def stiff(self):
        r = self.r
        return [r.choice([0.0, 10.0, 1.0, r.uniform(0, 30)]), r.choice([0.0, 1.0, r.uniform(0, 5)])]

    def limits(self, torque):
        """limits of a torque-limited joint; torque: a scale for what it may have to carry"""
        r = self.r
        q = r.random()
        t = r.uniform(0.05, 1.5) * torque
        if q < 0.2:
            return [-1e6, 1e6]
        if q < 0.5:
            return [-t, t]
        if q < 0.6:
            return [0.0, t]
        if q < 0.7:
            return [-t, 0.0]
        if q < 0.78:
            return [0.0, 0.0]
        if q < 0.86:
            return [0.3 * t, t]
        return [-t, 0.4 * t]

    def joint(self, s, kind, bs, near=True):
        """parameters for a joint; near: the relation it stands for nearly holds"""
        r = self.r
        off = (lambda: r.choice([0.0, 0.0, r.uniform(-0.02, 0.02)])) if near else (lambda: r.uniform(-1, 1))
        b = s.bodies[bs[0]]
        u = [self.val(1.0), self.val(1.0)]
        if kind == "pin":
            w = s.point(bs[0], u)
            return u + [w[0] + off(), w[1] + off()] + self.stiff()
        if kind == "rot":
            return [b[2] + off()] + self.stiff()
        if kind == "line":
            w = s.point(bs[0], u)
            d = turn(self.angle(), (r.choice([1.0, 1.0, r.uniform(0.4, 2.5)]), 0))
            t = r.uniform(-2, 2)
            return u + [w[0] + t * d[0] + off(), w[1] + t * d[1] + off(), d[0], d[1]] + self.stiff()
        if kind == "link":
            w = s.point(bs[0], u)
            c = s.bodies[bs[1]]
            v = turn(-c[2], (w[0] - c[0], w[1] - c[1]))
            mf = r.choice([HUGE, HUGE, r.uniform(0.5, 200)]) if self.limited else HUGE
            return u + [v[0] + off(), v[1] + off(), mf] + self.stiff()
        if kind == "roll":
            c = s.bodies[bs[1]]
            phi = self.angle()
            d = turn(phi, (1.0, 0.0))
            dw = turn(b[2], d)
            n = (-dw[1], dw[0])
            rad = r.choice([1.0, 0.5, r.uniform(0.2, 2.5)])
            # foot of the wheel, in the base's frame, such that both errors are small
            rolled = rad * (c[2] - b[2])
            if abs(rolled) > 60:
                rolled = math.fmod(rolled, 60)
            foot = (c[0] - rad * n[0] + rolled * dw[0], c[1] - rad * n[1] + rolled * dw[1])
            u = turn(-b[2], (foot[0] - b[0], foot[1] - b[1]))
            return [u[0] + off(), u[1] + off(), d[0], d[1], rad] + self.stiff()
        if kind == "gear":
            return [r.choice([1.0, -1.0, 2.0, r.uniform(0.2, 4)]), 0 if not self.limited or r.random() < 0.75 else 1] + self.stiff()
        lim = self.limits(5.0) if self.limited else [-1e7, 1e7]
        if kind == "crot":
            return [self.val(2.0)] + lim + self.stiff()
        return lim + self.stiff()

    limited = False

    def load(self, s, kind):
        k, bs, p = self.load1(s, kind)
        if self.unit != 1.0:
            for i in {"static": (0, 1), "spring": (5, 6), "motor": (0, 1, 2)}.get(k, ()):
                p[i] *= self.unit
        return (k, bs, p)

    def load1(self, s, kind):
        r = self.r
        names = list(s.bodies)
        if kind == "gravity":
            return (kind, [], [r.choice([9.81, 1.0, 0.0, -3.0, r.uniform(0, 20)])])
        if kind == "static":
            return (kind, [r.choice(names)], [self.val(10), self.val(10), self.val(1), self.val(1)])
        a, b = (r.sample(names, 2) if len(names) > 1 else (names[0], names[0]))
        if kind == "spring":
            ks, kd = r.choice([0.0, 10.0, r.uniform(0, 40)]), r.choice([0.0, 1.0, r.uniform(0, 3)])
            u, v = [self.val(1), self.val(1)], [self.val(1), self.val(1)]
            if r.random() < 0.12:           # ends that coincide, or nearly
                w = s.point(a, u)
                c = s.bodies[b]
                e = r.choice([0.0, 0.003, 0.0099, 0.011])
                v = list(turn(-c[2], (w[0] - c[0] + e, w[1] - c[1])))
            return (kind, [a, b], u + v + [r.choice([0.0, 1.0, r.uniform(0, 3)]), ks, kd])
        ks, kd = r.choice([1.0, 10.0, r.uniform(0, 30)]), r.choice([0.0, 0.0, r.uniform(0, 0.3)])
        return (kind, [a, b], [ks, kd, r.choice([1e9, 2.0, r.uniform(0, 20)]), self.val(3)])

    def scene(self, nb, joints, loads, outside=0, kinds=None, loadkinds=None, cond=300.0, near=0.8, ground=True):
        """nb bodies, up to `joints` joints with independent rows, `loads` loads"""
        r = self.r
        s = Scene()
        for i in range(nb):
            s.bodies["b%d" % i] = self.body()
        for i in range(outside):
            s.bodies["g%d" % i] = self.body()
            s.outside.add("g%d" % i)
        kinds = kinds or ["pin", "rot", "line", "link", "link", "roll", "clutch", "gear", "fric", "crot"]
        tries = 0
        while len(s.joints) < joints and tries < 12 * joints:
            tries += 1
            kind = r.choice(kinds)
            # position joints only between bodies of the system
            free = list(s.bodies) if kind in ("clutch", "gear") else s.inside()
            if BODIES[kind] > len(free):
                continue
            bs = r.sample(free, BODIES[kind])
            name = "j%d" % len(s.joints)
            s.joints[name] = (kind, bs, self.joint(s, kind, bs, r.random() < near))
            if s.condition() > cond:
                del s.joints[name]
        for i in range(loads):
            s.gens["f%d" % i] = self.load(s, r.choice(loadkinds or ["gravity", "static", "spring", "motor"]))
        return s

    # -------------------------------------------------------------- solvers, integrators, systems
    def solver(self, name, kind=None, s=None, accurate=True):
        r = self.r
        kind = kind or r.choice(["ge", "gs", "cg"])
        if kind == "ge":
            return line("solver", name, "ge")
        if kind == "gs":
            return line("solver", name, "gs", 200000, 1e-10 if accurate else r.choice([1e-9, 1e-6, 1e-3]))
        big = 1.0
        if s is not None:
            J, w = s.system()
            if len(J):
                v = np.array([x for b in s.inside() for x in s.bodies[b][3:6]])
                big = 1.0 + 50.0 * float(np.max(np.abs(J) @ (np.abs(v) + 1.0)))
                big += 100.0 * max(abs(c) for j in s.joints for _, c in s.rows(j))
        return line("solver", name, "cg", 20000, (1e-8 if accurate else r.choice([1e-6, 1e-3])), 1e-8 * big)

    def system(self, y, kind, solver, ode=None, beta=None):
        if kind == "nsv":
            return line("sys", y, "nsv", solver, "-" if beta is None else beta)
        return line("sys", y, "gen", solver, ode)
