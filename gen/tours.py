"""Tours over a model's transition graph, as scripts for the driver.

tours.py KIND EDGES SEED SHARDS OUT    writes OUT-0.txt .. OUT-(SHARDS-1).txt

EDGES holds the lines  "EDGE|state|command|state"  that TLC printed while it explored the model. Every
edge is driven at least once; which tours are laid, and the values that go with the commands (motion,
masses, parameters, matrix entries), depend on SEED.
"""
import math
import os
import random
import sys

from scene import HUGE, Maker, Scene, line

CAP = 120


# ------------------------------------------------------------------------------------------- graph
def read(path):
    """-> (initial state, {state: [(command, state)]})"""
    out, start = {}, None
    for ln in open(path):
        ln = ln.rstrip("\n")
        if not ln.startswith('"EDGE|'):
            continue
        body = ln[6:-1].replace('\\"', "'").replace("|->", ":")
        pre, cmd, post = body.split("|")
        if start is None:
            start = pre
        out.setdefault(pre, [])
        if (cmd, post) not in out[pre]:
            out[pre].append((cmd, post))
        out.setdefault(post, [])
    if start is None:
        raise SystemExit("no edges in " + path)
    return start, out


def tours(start, graph, r, cap):
    """sequences of commands from the initial state that together take every edge"""
    left = {s: list(es) for s, es in graph.items()}
    for es in left.values():
        r.shuffle(es)
    # the way from the start to every state, and who can be reached
    todo = sum(len(es) for es in left.values())
    out = []
    while todo:
        at, tour = start, []
        while True:
            if left[at]:
                cmd, to = left[at].pop()
                todo -= 1
                tour.append(cmd)
                at = to
            else:
                way = nearest(at, graph, left)
                if way is None or len(tour) + len(way) > cap:
                    break
                for cmd, to in way:
                    tour.append(cmd)
                    at = to
            if len(tour) >= cap:
                break
        if not tour:            # the rest is further than the cap from here
            if nearest(start, graph, left) is None:
                raise SystemExit("%d transitions cannot be reached from the initial state" % todo)
            cap += cap
            continue
        out.append(tour)
    return out


def nearest(at, graph, left):
    seen, front = {at}, [(at, [])]
    while front:
        nxt = []
        for s, way in front:
            for cmd, to in graph[s]:
                if to in seen:
                    continue
                seen.add(to)
                w = way + [(cmd, to)]
                if left[to]:
                    return w
                nxt.append((to, w))
        front = nxt
    return None


# ------------------------------------------------------------------------------------- translation
class Registry:
    """members come and go, systems are reset and stepped; with `twins`, every step is compared with
    the step of a fresh system that has the same members"""
    cap = 120

    def __init__(self, r, twins=False):
        self.r, self.twins = r, twins
        m = self.m = Maker(r, 0.5)
        self.s = s = Scene()
        for b in ("b1", "b2", "b3"):
            s.bodies[b] = m.body()
        far = {}
        for j, b in (("p1", "b1"), ("p2", "b2")):
            kind = r.choice(["pin", "pin", "line"])
            far[j] = (kind, [b], m.joint(s, kind, [b]))
        kind = r.choice(["clutch", "gear"])
        far["k12"] = (kind, r.choice([["b1", "b2"], ["b2", "b1"]]), m.joint(s, kind, ["b1", "b2"]))
        self.joints = far
        self.gens = {"s12": m.load(s, r.choice(["spring", "motor"])), "g1": m.load(s, r.choice(["static", "gravity"]))}
        k, bs, p = self.gens["s12"]
        self.gens["s12"] = (k, r.choice([["b1", "b2"], ["b2", "b1"]]), p)
        if self.gens["g1"][1]:
            self.gens["g1"] = (self.gens["g1"][0], ["b1"], self.gens["g1"][2])
        s.joints, s.gens = dict(far), dict(self.gens)
        self.kind = {y: r.choice(["nsv", "gen"]) for y in ("y0", "y1")}
        self.sv = {y: r.choice(["ge", "gs"] if self.kind[y] == "nsv" else ["ge", "ge", "cg"]) for y in self.kind}
        self.ode = {y: r.choice(["euler", "nsv", "rk4"]) for y in self.kind}
        self.dt = {y: r.choice([0.01, 0.005, 0.02]) for y in self.kind}
        self.n = {y: r.choice([1, 1, 2]) for y in self.kind}
        self.place = {x: None for x in list(s.bodies) + list(far) + list(self.gens)}
        self.fresh = {}
        self.used = None

    def rig(self, y, pre=""):
        out = [self.m.solver(pre + "s" + y, self.sv[y], self.s)]
        if self.kind[y] == "gen":
            out += [line("ode", pre + "o" + y, self.ode[y]), line("sys", pre + y, "gen", pre + "s" + y, pre + "o" + y)]
        else:
            out.append(line("sys", pre + y, "nsv", pre + "s" + y, "-"))
        return out

    def prelude(self, cmds):
        used = {c.split()[-1] for c in cmds}
        self.s.joints = {j: v for j, v in self.joints.items() if j in used}
        self.s.gens = {g: v for g, v in self.gens.items() if g in used}
        self.used = [y for y in ("y0", "y1") if any(c.split()[1] == y for c in cmds)]
        out = self.s.declare()
        for y in self.used:
            out += self.rig(y)
        return out

    def command(self, c):
        a = c.split()
        y = a[1]
        if a[0] == "process":
            return self.process(y)
        if a[0] == "reset":
            for x in self.place:
                if self.place[x] == y:
                    self.place[x] = None
        else:
            self.place[a[2]] = y if a[0].startswith("add") else None
        return [c]

    def process(self, y):
        r = self.r
        out = []
        if r.random() < 0.8 or self.twins:
            out += self.s.state()
        if not self.twins:
            return out + [line("process", y, self.dt[y], self.n[y])]
        mem = tuple(sorted(x for x in self.place if self.place[x] == y))
        key = (y, mem)
        bs = [x for x in mem if x in self.s.bodies]
        js = [x for x in mem if x in self.s.joints]
        if not bs:
            return out + [line("process", y, self.dt[y], self.n[y])]
        if key not in self.fresh:
            pre = "t%d" % len(self.fresh)
            self.fresh[key] = "fresh" + pre
            out += self.s.declare(pre) + self.rig(y, pre)
            order = list(mem)
            r.shuffle(order)
            for x in order:
                out.append(line("add" + self.sort(x), pre + y, pre + x))
            out += [line("process", pre + y, self.dt[y], self.n[y]),
                    line("tag", self.fresh[key], len(bs), *[pre + b for b in bs], len(js), *[pre + j for j in js])]
        out += [line("process", y, self.dt[y], self.n[y]), line("tag", "now", len(bs), *bs, len(js), *js),
                line("same", "C02", self.fresh[key], "now", 2e-5 if self.sv[y] == "cg" else 1e-6)]
        return out

    def sort(self, x):
        return "b" if x in self.s.bodies else "j" if x in self.s.joints else "g"

    def end(self):
        return [line("obs", y) for y in self.used]


class Twins(Registry):
    cap = 60

    def __init__(self, r):
        super().__init__(r, True)


class Matrix:
    """one matrix goes through every shape, capacity and order of rows"""
    cap = 100

    def __init__(self, r):
        self.r, self.w, self.h, self.n = r, 0, 0, 0

    def val(self):
        r = self.r
        return r.choice([1.0, -2.0, 0.5, r.uniform(-3, 3), r.uniform(-3, 3)])

    def prelude(self, cmds):
        return ["mat A", "mat T"]

    def aux(self, w, h):
        """a matrix with values, of the given shape"""
        n = "x%d" % self.n
        self.n += 1
        out = [line("mat", n, w, h)]
        if w * h:
            out.append(line("mdata", n, *[self.val() for _ in range(w * h)]))
        return n, out

    def gone(self, *names):
        return [x for n in names for x in (line("mdestroy", n), line("mfree", n))]

    def command(self, c):
        r, a = self.r, c.split()
        if a[0] in ("mresize", "minit", "into"):
            w, h = int(a[1]), int(a[2])
            if a[0] == "into":
                out = self.into(w, h)
            else:
                out = [line(a[0], "A", w, h)]
                if a[0] == "minit" and r.random() < 0.5:
                    out = [line("minit", "A", w, h, self.val())]
            self.w, self.h = w, h
            return out
        if a[0] == "fill":
            return [line("mdata", "A", *[self.val() for _ in range(self.w * self.h)])]
        if a[0] == "mswap":
            return [line("mswap", "A", int(a[1]), int(a[2]))]
        if a[0] == "mdestroy":
            self.w = self.h = 0
            return ["mdestroy A"]
        return self.use()

    def into(self, w, h):
        r = self.r
        op = r.choice(["copy", "mul", "tmul", "cmul", "lscale", "rscale", "scale", "sub", "add", "neg", "transpose"])
        k = r.choice([0, 1, 2, 3])
        if op in ("mul",):
            x, o1 = self.aux(k, h)
            z, o2 = self.aux(w, k)
        elif op == "tmul":
            x, o1 = self.aux(h, k)
            z, o2 = self.aux(w, k)
        elif op in ("cmul", "sub", "add"):
            x, o1 = self.aux(w, h)
            z, o2 = self.aux(w, h)
        elif op == "lscale":
            x, o1 = self.aux(w, h)
            z, o2 = self.aux(1, h)
        elif op == "rscale":
            x, o1 = self.aux(w, h)
            z, o2 = self.aux(1, w)
        else:
            x, o1 = self.aux(*((h, w) if op == "transpose" else (w, h)))
            z, o2 = None, []
        if op == "copy":
            return o1 + [line("mcopy", "A", x)] + self.gone(x)
        second = self.val() if op == "scale" else (z or "-")
        return o1 + o2 + [line("mop", op, x, second, "A")] + self.gone(*([x, z] if z else [x]))

    def use(self):
        """A as an operand; some of what follows"""
        r, w, h = self.r, self.w, self.h
        out = []
        for op in r.sample(["scale", "transpose", "mul", "rmul", "tmul", "rtmul", "lscale", "rscale", "add", "sub", "cmul",
                            "copy", "neg", "eq", "mag", "madd", "pmadd", "cells"], 4):
            k = r.choice([0, 1, 2, 3])
            if op in ("transpose", "neg"):
                out.append(line("mop", op, "A", "-", "T"))
            elif op == "scale":
                out.append(line("mop", "scale", "A", self.val(), "T"))
            elif op == "copy":
                out.append(line("mcopy", "T", "A"))
            elif op == "mag":
                if w == 1:
                    out.append(line("mval", "mag", "A", "-"))
            elif op == "cells":
                if w * h:
                    out.append(line("mcell", "A", r.randrange(w), r.randrange(h), self.val()))
                    out.append(line("maddc", "A", r.randrange(w), r.randrange(h), self.val()))
            else:
                shape = {"mul": (k, w), "rmul": (h, k), "tmul": (k, h), "rtmul": (k, h), "lscale": (1, h), "rscale": (1, w)}.get(op, (w, h))
                x, o = self.aux(*shape)
                out += o
                if op == "eq":
                    out.append(line("mval", "eq", "A", x, 1.0))
                elif op in ("madd", "pmadd"):
                    out.append(line("mop", op, "A", x, "-", self.val()))
                elif op == "rmul":
                    out.append(line("mop", "mul", x, "A", "T"))
                elif op == "rtmul":
                    out.append(line("mop", "tmul", x, "A", "T"))
                else:
                    out.append(line("mop", op, "A", x, "T"))
                out += self.gone(x)
        return out

    def end(self):
        return ["mdestroy A", "mdestroy T", "mfree A", "mfree T", "heap"]


class Sparse(Matrix):
    """one block-sparse matrix goes through every shape, capacity and occupation"""

    def prelude(self, cmds):
        return ["sp A 3 2", "sp B 3 2", "mat T"]

    def command(self, c):
        a = c.split()
        if a[0] in ("spinit", "spresize"):
            self.w, self.h = int(a[1]), int(a[2])
            return [line(a[0], "A", self.w, self.h)]
        if a[0] == "spblock":
            return [line("spblock", "A", int(a[1]), int(a[2]), int(a[3]), self.val(), self.val(), self.val())]
        if a[0] == "spempty":
            return [line("spempty", "A", int(a[1]), int(a[2]))]
        if a[0] == "spdestroy":
            self.w = self.h = 0
            return ["spdestroy A"]
        return self.use()

    def use(self):
        r, w, h = self.r, self.w, self.h
        out = ["spget A"]
        for op in r.sample(["expand", "texpand", "mult", "tmulv", "mul", "lscale", "rscale"], 3):
            if op in ("expand", "texpand"):
                out.append(line("spop", op, "A", "-", "T"))
            elif op == "mult":
                out.append(line("spop", op, "A", "A", "T"))
            else:
                x, o = self.aux(*{"tmulv": (1, h), "lscale": (1, h), "rscale": (1, w), "mul": (r.choice([1, 2]), w)}[op])
                out += o + [line("spop", op, "A", x, "B" if op.endswith("scale") else "T")] + self.gone(x)
        return out

    def end(self):
        return ["spdestroy A", "spdestroy B", "mdestroy T", "spfree A", "spfree B", "mfree T", "heap"]


class States:
    """copies between states of all sizes; what was stored is found again"""
    cap = 80

    def __init__(self, r):
        self.r = r
        self.size = {"1": (r.choice([1, 2]), r.choice([1, 2])), "2": (r.choice([3, 5, 9]), r.choice([3, 6, 10]))}

    def prelude(self, cmds):
        return ["st qa", "st qb"]

    def command(self, c):
        a = c.split()
        if a[0] == "stresize":
            n, nc = (0 if x == "0" else self.size[x][k] for k, x in enumerate(a[2:4]))
            return [line("stresize", a[1], n, nc)]
        if a[0] == "stfill":
            return [line("stfill", a[1], self.r.uniform(-5, 5))]
        return [c]

    def end(self):
        return ["stdestroy qa", "stdestroy qb", "stfree qa", "stfree qb", "heap"]


class Protocol:
    """integrators driven side by side over two states"""
    cap = 80

    def __init__(self, r):
        self.r, self.m = r, Maker(r)
        self.size = {"qa": (2, 1), "qb": (3, 2)}

    def prelude(self, cmds):
        out = []
        for o in sorted({c.split()[1] for c in cmds}):
            out.append(line("ode", o, {"r": "rk4", "e": "euler", "n": "nsv"}[o[0]]))
        for q, (n, nc) in self.size.items():
            out += [line("st", q), line("stresize", q, n, nc), line("stfill", q, 0.5)] + self.place(q)
        return out

    def place(self, q):
        return [line("stset", q, k, *self.m.body()[:6]) for k in range(self.size[q][0])]

    def command(self, c):
        r, a = self.r, c.split()
        if a[0] == "ostart":
            out = self.place(a[2]) if r.random() < 0.5 else []
            return out + [line("ostart", a[1], a[2], r.choice([0.1, 0.01, 1.0, -0.25, 0.0, r.uniform(0, 1), 10.0 ** r.uniform(-6, 0)]))]
        if a[0] == "osolve":
            v = self.m.val
            out = [line("stacc", a[2], k, v(4), v(4), v(4)) for k in range(self.size[a[2]][0])]
            out += [line("streact", a[2], k, v(4), v(4), v(4)) for k in range(2 * self.size[a[2]][1])]
            return out + [c]
        return [c]

    def end(self):
        return []


class Solves:
    """one solver is asked one system after another: sizes, starting guesses, limits"""
    cap = 40

    def __init__(self, r):
        self.r, self.n, self.size = r, 0, None

    def prelude(self, cmds):
        self.which = cmds[0].split()[1]
        sv = {"ge": "solver S ge", "gs": line("solver", "S", "gs", 20000, 1e-9), "cg": line("solver", "S", "cg", 20000, 1e-8, 1e-8)}
        return [sv[self.which], "mat x"]

    def command(self, c):
        r = self.r
        _, which, h, guess, limits = c.split()
        h = int(h)
        self.n += 1
        J, W, B, L = ("%s%d" % (x, self.n) for x in "JWBL")
        blocks = max(1, h)
        out = [line("sp", J, 3, 2), line("spinit", J, 3 * blocks, h)]
        for row in range(h):
            v = [x + math.copysign(1.5, x) for x in (r.uniform(-2, 2) for _ in range(3))]
            out.append(line("spblock", J, row, 0, row, *v))
            if blocks > 1 and r.random() < 0.7:
                other = r.choice([b for b in range(blocks) if b != row])
                out.append(line("spblock", J, row, 1, other, *[r.uniform(-0.25, 0.25) for _ in range(3)]))
        scale = r.choice([1.0, 1.0, 30.0])
        out += [line("mat", W, 1, 3 * blocks), line("mdata", W, *[r.uniform(0.5, 2) for _ in range(3 * blocks)]), line("mat", B, 1, h)]
        if h:
            out.append(line("mdata", B, *[r.choice([0.0, r.uniform(-1, 1), r.uniform(-1, 1)]) * scale for _ in range(h)]))
        prev = "-"
        if guess == "result":
            prev = "x"
        elif guess in ("same", "other"):
            k = h if guess == "same" else h + 1
            prev = "p%d" % self.n
            out.append(line("mat", prev, 1, k))
            if k:
                out.append(line("mdata", prev, *[r.uniform(-3, 3) * scale for _ in range(k)]))
        if limits == "none":
            return out + [line("solve", "S", J, W, B, prev, "x")]
        lims = []
        for _ in range(h):
            t = scale * (r.choice([0.0, 0.01, 0.05]) if limits == "tight" else 1e3)
            lims += r.choice([[-t, t], [-t, t], [0.0, t], [-t, 0.0]]) if limits == "tight" else [-t, t]
        out.append(line("mat", L, 2, h))
        if h:
            out.append(line("mdata", L, *lims))
        return out + [line("lsolve", "S", J, W, B, L, prev, "x")]

    def end(self):
        return []


class Limits:
    """a brake on a and a clutch between a and b: every regime follows every other"""
    cap = 100

    def __init__(self, r):
        self.r = r
        self.dt = r.choice([0.01, 0.02, 0.5])
        self.u = r.choice([1.0, 0.25, 3.0])         # unit of speed
        self.tag = 0

    def prelude(self, cmds):
        r = self.r
        b = lambda: [r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-3, 3), 0.0, 0.0, 0.0, 1.0, 1.0]
        out = [line("body", "a", *b()), line("body", "b", *b()),
               line("joint", "fa", "fric", "a", "-", 0.0, 0.0, 0.0, 0.0), line("joint", "cab", "clutch", "a", "b", 0.0, 0.0, 0.0, 0.0),
               line("solver", "S", "gs", 100000, 1e-10), "sys y nsv S -"]
        rest = ["addb y a", "addb y b", "addj y fa", "addj y cab"]
        r.shuffle(rest)
        return out + rest

    def command(self, c):
        # demand: speeds of a and b, limits of brake and clutch, in units; inertias are one
        va, vb, la, lc = (int(x) for x in c.split()[1:])
        unit = self.u / self.dt
        u, r = self.u, self.r
        return [line("bset", "a", 0.5, -0.25, 1.0, 0.0, 0.0, va * u), line("bset", "b", 0.0, 1.0, -2.0, 0.0, 0.0, vb * u),
                line("jset", "fa", -la * unit, la * unit, 0.0, 0.0), line("jset", "cab", -lc * unit, lc * unit, 0.0, 0.0),
                line("process", "y", self.dt, 1)]

    def end(self):
        return []


class Frames:
    """a body, and a state that is not its own, through every case"""
    cap = 60

    def __init__(self, r):
        self.r = r

    def prelude(self, cmds):
        return [line("body", "b", 0.5, 0.5, 0.5, 0.0, 0.0, 0.0, 2.0, 1.0), "st q", "stresize q 3 1", line("stfill", "q", 0.5)]

    def command(self, c):
        v = [float(x) for x in c.split()[1:]]
        k, u, f = v[:6], v[6:8], v[8:]
        i = self.r.randrange(3)
        return [line("bset", "b", *k), line("l2w", "b", *u), line("w2l", "b", *f), line("stset", "q", i, *k),
                line("stacc", "q", i, *self.r.choice([[0.0, 0.0, 0.0], [0.5, -1.0, 2.0]])), line("stl2w", "q", i, *u),
                line("stvel", "q", i, *u), line("stforce", "q", i, *u, *f)]

    def end(self):
        return []


class Rows:
    """every kind of joint through every case"""
    cap = 60

    def __init__(self, r):
        self.r, self.known = r, {}

    def prelude(self, cmds):
        out = [line("body", b, self.r.uniform(-1, 1), 0.25, 1.0, 0.0, 0.0, 0.0, 2.0, 1.0) for b in "abc"]
        at = list("abc")
        self.r.shuffle(at)
        self.at = {b: i for i, b in enumerate(at)}
        return out + ["solver s ge", "sys y nsv s -"] + ["addb y " + b for b in at] + ["st q", "stresize q 3 2", line("stfill", "q", 0.5)]

    def command(self, c):
        a = c.split()
        kind, v = a[1], [float(x) for x in a[2:]]
        two = kind in ("link", "roll", "clutch", "gear")
        n = len(v) - (12 if two else 6)
        p, ks = v[:n], [v[n:n + 6], v[n + 6:]]
        if kind == "gear":
            p[1] = int(p[1])
        bs = tuple(self.r.sample("abc", 2 if two else 1))
        out = []
        if (kind, bs) in self.known and self.r.random() < 0.7:
            j = self.known[kind, bs]
            out.append(line("jset", j, *p))
        else:
            j = self.known[kind, bs] = "j%d" % len(self.known) if (kind, bs) not in self.known else "x" + self.known[kind, bs]
            out.append(line("joint", j, kind, bs[0], bs[1] if two else "-", *p))
        return out + [line("stset", "q", self.at[b], *k) for b, k in zip(bs, ks)] + [line("calc", j, "q")]

    def end(self):
        return []


class Force:
    """every kind of load through every case: on both bodies, or with one of them outside the system"""
    cap = 60

    def __init__(self, r):
        self.r, self.known, self.inside = r, set(), []

    @staticmethod
    def key(c):
        return c.split()[2]

    def prelude(self, cmds):
        return [line("body", b, 0.5, 0.25, 1.0, 0.0, 0.0, 0.0, m, 1.5) for b, m in (("a", 2.0), ("b", 0.5))] + \
            ["solver s ge", "sys y nsv s -", "st q", "stresize q 2 1", line("stfill", "q", 0.5)]

    def command(self, c):
        _, kind, inside, one, two, *rest = c.split()
        v = [float(x) for x in rest]
        p, ks, acc = v[:-18], {"a": v[-18:-12], "b": v[-12:-6]}, {"a": v[-6:-3], "b": v[-3:]}
        out = []
        if set(inside) != set(self.inside):
            out += ["remb y " + b for b in self.inside]
            self.inside = self.r.sample(inside, len(inside))
            out += ["addb y " + b for b in self.inside]
        out += [line("bset", b, *(ks[b] if b not in inside else [9.0, -9.0, 3.0, 1.0, 1.0, 1.0])) for b in "ab"]
        for i, b in enumerate(self.inside):
            out += [line("stset", "q", i, *ks[b]), line("stacc", "q", i, *acc[b]),
                    line("stload", "q", i, self.r.choice([0.0, 1.5]), 0.0, 0.5, {"a": 2.0, "b": 0.5}[b])]
        g = kind + one + two
        out.append(line("gset", g, *p) if g in self.known else line("gen", g, kind, one, two, *p))
        self.known.add(g)
        return out + [line("apply", g, "q")]

    def end(self):
        return []


class Steps:
    """scene after scene: members come and go until it is made up, then it is advanced"""
    cap = 20

    def __init__(self, r):
        self.r, self.names, self.place = r, {}, {b: None for b in "abc"}

    def prelude(self, cmds):
        r = self.r
        self.rigs = {"nsv": ["y", "w"], "gen": ["u", "v"]}
        out = [line("body", b, 0.5, 0.25, 1.0, 0.0, 0.0, 0.0, *m) for b, m in zip("abc", ((2.0, 1.5), (0.5, 0.25), (1.25, 0.75)))]
        out += [line("solver", "S", "gs", 200000, 1e-10), "sys y nsv S -"]
        out += [line("solver", "T", *r.choice([("ge",), ("cg", 20000, 1e-9, 1e-7)])), line("sys", "w", "nsv", "T", "-")]
        for k, y in enumerate("uv"):
            out += [line("solver", "U" + y, *[("ge",), ("cg", 20000, 1e-9, 1e-7)][k]),
                    line("ode", "o" + y, r.choice(["euler", "nsv", "rk4"])), line("sys", y, "gen", "U" + y, "o" + y)]
        return out

    def name(self, word, out):
        if word not in self.names:
            kind, b1, b2, *p = word.split("/")
            load = kind in ("gravity", "static", "spring", "motor")
            n = self.names[word] = "%s%d" % ("g" if load else "j", len(self.names))
            v = [int(float(x)) if kind == "gear" and i == 1 else float(x) for i, x in enumerate(p)]
            out.append(line("gen" if load else "joint", n, kind, b1, b2, *v))
            self.place[n] = None
        return self.names[word]

    def command(self, c):
        r = self.r
        a = c.split()
        kind, ins = a[1], a[2]
        js, gs, ks = (a[a.index(x) + 1:a.index(y)] if y else a[a.index(x) + 1:] for x, y in (("J", "G"), ("G", "K"), ("K", None)))
        y = r.choice(self.rigs[kind][:1] * 3 + self.rigs[kind][1:]) if kind == "nsv" else r.choice(self.rigs[kind])
        out = []
        want = list(ins) + [self.name(w, out) for w in js + gs]
        swap = []
        for x, at in self.place.items():
            to = y if x in want else None
            if at and at != to:
                swap.append(line("rem" + self.sort(x), at, x))
        r.shuffle(swap)
        out += swap
        swap = [line("add" + self.sort(x), y, x) for x in want if self.place[x] != y]
        r.shuffle(swap)
        out += swap
        for x in self.place:
            self.place[x] = y if x in want else None
        out += [line("bset", b, *[float(v) for v in k]) for b, k in (("a", ks[:6]), ("b", ks[6:12]), ("c", ks[12:]))]
        if kind == "nsv":
            out.append(line("beta", y, r.choice([0.1, 0.1, 0.0, 1.0])))
        return out + [line("process", y, 0.01, r.choice([1, 1, 2, 3]))]

    @staticmethod
    def sort(x):
        return "b" if x in "abc" else x[0]

    def end(self):
        return []


class Systems:
    """every system of a lattice, by every solver that can take it"""
    cap = 30

    def __init__(self, r):
        self.r, self.n = r, 0

    def prelude(self, cmds):
        return ["solver e ge", line("solver", "s", "gs", 20000, 1e-10), line("solver", "t", "gs", 20000, self.r.choice([0.1, 1e-3])),
                line("solver", "c", "cg", 20000, 1e-9, 1e-9), "mat x"]

    def command(self, c):
        r = self.r
        v = [float(x) for x in c.split()[1:]]
        h = 1 if len(v) == 10 else 2
        w, b, g, box, js = v[:3], v[3:3 + h], v[3 + h:3 + 2 * h], v[3 + 2 * h:3 + 4 * h], v[3 + 4 * h:]
        self.n += 1
        J, W, B, L, P = ("%s%d" % (x, self.n) for x in "JWBLP")
        blocks = r.choice([1, 1, 2])
        at = r.randrange(blocks)
        out = [line("sp", J, 3, 2), line("spinit", J, 3 * blocks, h)]
        for k in range(h):
            out.append(line("spblock", J, k, r.choice([0, 0, 1]), at, *js[3 * k:3 * k + 3]))
        weights = [r.uniform(0.5, 2) for _ in range(3 * blocks)]
        weights[3 * at:3 * at + 3] = w
        out += [line("mat", W, 1, 3 * blocks), line("mdata", W, *weights), line("mat", B, 1, h), line("mdata", B, *b),
                line("mat", P, 1, h), line("mdata", P, *g), line("mat", L, 2, h), line("mdata", L, *box)]
        for sv in r.sample("estc", 2):
            prev = r.choice([P, P, "-", "x"])
            if sv in "st" and r.random() < 0.8:
                out.append(line("lsolve", sv, J, W, B, L, prev, "x"))
            else:
                out.append(line("solve", sv, J, W, B, prev, "x"))
        return out

    def end(self):
        return []


class Swings:
    """an oscillator in every coordinate of one body, advanced once by one method"""
    cap = 40

    def __init__(self, r):
        self.r = r

    def prelude(self, cmds):
        self.q = self.r.randint(1, 3)
        return ["ode o%s %s" % (m, m) for m in ("euler", "nsv", "rk4")] + ["st q", line("stresize", "q", self.q, 1), line("stfill", "q", 0.5)]

    def command(self, c):
        _, m, *v = c.split()
        x, u, a, b, g, h = (float(t) for t in v)
        q = self.r.randrange(self.q)
        out = [line("stset", "q", q, x, -x, x, u, -u, u), line("ostart", "o" + m, "q", h)]
        at, vs, accs = (x, u), [], []
        for i in range(4 if m == "rk4" else 1):
            if i:
                t = h / 2 if i < 3 else h
                at = (x + t * vs[-1], u + t * accs[-1])
            vs.append(at[1])
            accs.append(-a * at[0] - b * at[1] + g)
            out += ["ostep o%s q" % m, line("stacc", "q", q, accs[-1], -accs[-1], accs[-1])]
            for j in range(2):
                out.append(line("streact", "q", j, g, a * at[0], -accs[-1]))
            out.append("osolve o%s q" % m)
        return out + ["oend o" + m]

    def end(self):
        return []


class Batches:
    """a third of the profiling window at a time, with few different costs"""
    cap = 24

    def __init__(self, r):
        self.r = r
        self.cost = {}

    def prelude(self, cmds):
        r = self.r
        kind = r.choice(["nsv", "gen"])
        for x in sorted({c.split()[1] for c in cmds if c != "reset"}):
            self.cost[x] = [r.choice([0, 1, r.randint(2, 3000)]) for _ in range(4)]
        out = [line("body", "b", 0.0, 0.0, 0.0, 0.25, 0.5, 1.0, 1.0, 1.0), line("joint", "j", "rot", "b", "-", 0.0, 0.0, 0.0),
               line("gen", "g", "static", "b", "-", 1.0, 1.0, 0.0, 0.0), "solver S ge"]
        if kind == "gen":
            out += ["ode o " + r.choice(["euler", "nsv", "rk4"]), "sys y gen S o"]
        else:
            out.append("sys y nsv S -")
        self.n = r.choice([1, 2])
        return out + ["addb y b", "addj y j", "addg y g"]

    def command(self, c):
        if c == "reset":
            if self.r.random() < 0.5:
                return ["reset y", "addb y b", "addj y j", "addg y g", "profile y"]
            return ["remg y g", "remj y j", "remb y b", "profile y", "addb y b", "addj y j", "addg y g"]
        return [line("bset", "b", 0.0, 0.0, 0.0, 0.25, 0.5, 1.0), line("cost", *self.cost[c.split()[1]]),
                line("runs", "y", 1e-5, self.n, 200), "profile y"]

    def end(self):
        return []


KINDS = {k.__name__: k for k in (Registry, Twins, Matrix, Sparse, States, Protocol, Solves, Limits, Frames, Rows, Force, Steps, Systems, Swings, Batches)}


def main():
    model, edges, seed, shards, out = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), sys.argv[5]
    kind = KINDS[model]
    r = random.Random("tour/%s/%s" % (model, seed))
    start, graph = read(edges)
    parts = [[] for _ in range(shards)]
    size = [0] * shards
    for k, tour in enumerate(tours(start, graph, r, kind.cap)):
        if len(graph) == 1 and hasattr(kind, "key"):
            tour.sort(key=kind.key)
        t = kind(r)
        text = ["scenario %s-%d" % (os.path.basename(out), k)] + t.prelude(tour)
        for c in tour:
            text += t.command(c)
        text += t.end()
        i = size.index(min(size))
        parts[i] += text
        size[i] += len(text)
    for i in range(shards):
        with open("%s-%d.txt" % (out, i), "w") as f:
            f.write("\n".join(parts[i]) + ("\n" if parts[i] else ""))
    print(sum(len(e) for e in graph.values()))


if __name__ == "__main__":
    main()
