"""Stimuli per property: stimuli.py PROPERTY SEED COUNT OUT

Writes COUNT scenarios of driver commands (properties with few, long scenarios scale it down)."""
import math
import random
import sys

from scene import HUGE, Maker, Scene, line, num, turn


def header(i, prop):
    return ["scenario %s-%d" % (prop, i)]


def method(r):
    return r.choice(["euler", "nsv", "rk4", "rk4"])


def rig(m, kind, solver, s, y="y", sv="s", o="o", ode=None, beta=None, accurate=True):
    """solver, integrator and system"""
    out = [m.solver(sv, solver, s, accurate)]
    if kind == "gen":
        out.append(line("ode", o, ode or method(m.r)))
        out.append(m.system(y, "gen", sv, o))
    else:
        out.append(m.system(y, "nsv", sv, None, beta))
    return out


def step(r):
    return r.choice([0.01, 0.005, 0.02, 0.001, 1 / 60.0, r.choice([1e-4, 0.05, 1 / 3000.0, 10.0 ** r.uniform(-6, -3)]), r.uniform(0.002, 0.03)])


def even_step(r):
    """for outcomes that are compared with each other"""
    return r.choice([0.01, 0.005, 0.02, 0.002, 1 / 60.0, r.uniform(0.002, 0.03)])


def many_turns(r, th, p=0.1):
    """now and then an angle of many turns, either way"""
    return r.choice([1, -1]) * 10.0 ** r.uniform(1.5, 6) if r.random() < p else th


def choose_solver(r, kind):
    return r.choice(["ge", "gs", "cg"] if kind == "gen" else ["ge", "gs", "gs", "cg"])


def sizes(r, tiny=0.15):
    q = r.random()
    if q < tiny:
        return 1, r.randint(0, 2), r.randint(0, 2)
    if q < 0.68:
        return r.randint(2, 4), r.randint(1, 4), r.randint(0, 3)
    if q > 0.9:
        return r.randint(8, 12), r.randint(6, 12), r.randint(2, 9)
    return r.randint(4, 7), r.randint(2, 6), r.randint(0, 4)


# ------------------------------------------------------------------------------------------ dynamics
def dynamics(r, i, prop, kinds=("nsv", "gen"), limited=None, kindset=None, loadkinds=None, outside=None,
             rows=False, changes=True, loads=None, joints=None, solver=None, beta=None, near=0.8):
    """a scene that is advanced a few times, with changes in between"""
    kind = r.choice(kinds)
    m = Maker(r)
    m.limited = (kind == "nsv") and (r.random() < 0.6 if limited is None else limited)
    sv = solver or choose_solver(r, kind)
    m.big = 0.0
    if sv == "ge" and r.random() < 0.15:
        m.unit = 10.0 ** r.uniform(-5, 5)
    once = r.random() < 0.2 and sv != "cg"      # wild values, for one evaluation
    if once:
        m.big = 4.0
    if sv != "gs":
        m.limited = False       # solvers without limits ignore them: no claim about those
    nb, nj, ng = sizes(r)
    if joints is not None:
        nj = r.randint(*joints)
        nb = max(nb, 2)
    if loads is not None:
        ng = r.randint(*loads)
    no = (1 if r.random() < 0.25 else 0) if outside is None else outside
    if kindset is None and r.random() < 0.1:
        s = many_rows(m, ng + 2, loadkinds)
    else:
        s = m.scene(nb, nj, ng, no, kinds=kindset, loadkinds=loadkinds, cond=200.0, near=near)
    out = header(i, prop)
    if rows:
        out.append("rows")
    out += s.declare()
    out += rig(m, kind, sv, s, ode=r.choice(["euler", "nsv"]) if once else None, accurate=r.random() < 0.8,
               beta=beta if beta is not None else r.choice([None, 1.0, 0.0, 0.5, 0.2, 1.5]))
    out += s.adds("y", rng=r)
    dt = step(r)
    if once:
        out.append(line("process", "y", dt, 1))
        return out
    for k in range(r.choice([1, 2, 3])):
        out.append(line("process", "y", dt * r.choice([1, 1, 2]), r.choice([1, 1, 2, 3])))
        if changes and r.random() < 0.6:
            out += tweak(r, m, s)
            if r.random() < 0.3:
                out += tweak(r, m, s)
        if changes and r.random() < 0.25:
            out += retune(r, m, s, "y", kind, sv, k, solver is None and not m.limited and m.unit == 1.0, beta is None)
    if kind == "nsv" and r.random() < 0.15:     # a long one
        out.append(line("process", "y", 10.0 ** r.uniform(-1.3, 0.5), 1))
    return out


def retune(r, m, s, y, kind, sv, k, anysolver=False, anybias=True):
    """what a user may change about the advance itself: solver, integrator, bias, stiffness and limits of joints"""
    out = []
    if r.random() < 0.5:
        out.append(m.solver("n%d" % k, choose_solver(r, kind) if anysolver else sv, s, r.random() < 0.8))
        if kind == "gen":
            out.append(line("ode", "w%d" % k, method(r)))
        out.append(line("init", y, "n%d" % k, "w%d" % k if kind == "gen" else "-"))
    if kind == "nsv" and anybias and r.random() < 0.5:
        out.append(line("beta", y, r.choice([0.0, 0.1, 0.4, 1.0])))
    for j, (jk, bs, p) in s.joints.items():
        if r.random() < 0.4:
            p = list(p)
            p[-2:] = m.stiff()
            if m.limited and jk in ("clutch", "fric", "crot"):
                lo = 1 if jk == "crot" else 0
                p[lo:lo + 2] = sorted([p[lo] * r.choice([1, 0.5, 0.1]), p[lo + 1] * r.choice([1, 0.5, 2])])
            if jk == "rot" and r.random() < 0.5:
                p[0] += r.uniform(-0.02, 0.02)
            if jk == "crot" and r.random() < 0.5 and anybias:
                p[0] = m.val(2.0)
            out.append(line("jset", j, *p))
            s.joints[j] = (jk, bs, p)
    return out


def many_rows(m, ng, loadkinds=None):
    """many rows, most of them on a body of their own; some bodies without joint"""
    r = m.r
    s = m.scene(r.randint(6, 14), 0, ng, 0, loadkinds=loadkinds)
    left = list(s.bodies)
    r.shuffle(left)
    for k in range(r.randint(1, 3)):
        left.pop()
    while left:
        kind = r.choice(["pin", "pin", "line", "rot", "fric", "crot", "link", "clutch", "roll"])
        need = 2 if kind in ("link", "clutch", "roll") else 1
        if need > len(left):
            break
        bs = [left.pop() for _ in range(need)]
        name = "j%d" % len(s.joints)
        s.joints[name] = (kind, bs, m.joint(s, kind, bs))
        if s.condition() > 200:
            del s.joints[name]
    return s


def tweak(r, m, s):
    """what a user may change between two calls: motion, masses, parameters, membership"""
    out = []
    q = r.random()
    if q < 0.25 and s.joints:
        j = r.choice(list(s.joints))
        out.append(line("remj", "y", j))
        if r.random() < 0.5:
            out.append(line("addj", "y", j))
        else:
            del s.joints[j]
    elif q < 0.45 and s.gens:
        g = r.choice(list(s.gens))
        out.append(line("remg", "y", g))
        if r.random() < 0.5:
            out.append(line("addg", "y", g))
        else:
            del s.gens[g]
    elif q < 0.6:
        b = r.choice(s.inside())
        out.append(line("bmass", b, m.mass(), m.mass()))
    elif q < 0.75:
        free = [b for b in s.inside() if not any(b in x[1] for x in s.joints.values() if x[0] not in ("clutch", "gear"))
                and not any(b in x[1] and len(x[1]) == 2 for x in s.joints.values())]
        loose = [b for b in s.inside() if any(b in x[1] for x in s.joints.values())
                 and all(x[0] in ("clutch", "gear") for x in s.joints.values() if b in x[1])]
        if s.outside and r.random() < 0.4:              # one comes in
            b = r.choice(sorted(s.outside))
            s.outside.discard(b)
            if s.condition() <= 200:
                out.append(line("addb", "y", b))
            else:
                s.outside.add(b)
        elif loose and len(s.inside()) > 1 and r.random() < 0.7:     # one leaves, its joints stay
            b = r.choice(loose)
            s.outside.add(b)
            if s.condition() <= 200:
                out.append(line("remb", "y", b))
            else:
                s.outside.discard(b)
        elif free and len(s.inside()) > 1:
            b = r.choice(free)
            js = [j for j, x in s.joints.items() if b in x[1]]
            for j in js:
                out.append(line("remj", "y", j))
                del s.joints[j]
            out.append(line("remb", "y", b))
            if r.random() < 0.5:
                out.append(line("addb", "y", b))
            else:
                s.outside.add(b)
    elif q < 0.9 and s.gens:
        g = r.choice(list(s.gens))
        k, bs, p = s.gens[g]
        p = [x * r.choice([1, 1, 0.5, -1]) for x in p]
        if k == "motor":
            p[2] = abs(p[2])
        if k == "spring":
            p[4], p[5], p[6] = abs(p[4]), abs(p[5]), abs(p[6])
        out.append(line("gset", g, *p))
    return out


def C07(r, n):
    return [dynamics(r, i, "C07", ("nsv",), loads=(0, 3)) for i in range(n)]


def C08(r, n):
    out = []
    for i in range(n):
        if i % 3 == 0:
            out.append(limits_case(r, i))
        else:
            out.append(dynamics(r, i, "C08", ("nsv",), limited=True, solver="gs", joints=(1, 5),
                                kindset=["clutch", "clutch", "fric", "crot", "gear", "link", "link", "pin", "rot"]))
    return out


def limits_case(r, i):
    """one torque-limited joint (or link) whose demand is a chosen multiple of its limit"""
    m = Maker(r)
    s = Scene()
    s.bodies["a"] = m.body()
    s.bodies["b"] = m.body()
    dt = step(r)
    kind = r.choice(["clutch", "fric", "crot", "gear", "link"])
    a, b = s.bodies["a"], s.bodies["b"]
    slow = r.choice([1.0, 1.0, 1.0, 0.03, 1e-4])
    for v in (a, b):
        v[3:6] = [x * slow for x in v[3:6]]
    drive = r.choice([0.0, 0.0, r.uniform(-20, 20)])
    if drive:
        s.gens["f0"] = ("motor", ["a", "b"], [1e3, 0.0, abs(drive), math.copysign(1e6, drive)])
    if kind == "link":
        u = [m.val(1), m.val(1)]
        w = s.point("a", u)
        v = list(turn(-b[2], (w[0] - b[0], w[1] - b[1])))
        s.joints["j0"] = ("link", ["a", "b"], u + v + [r.choice([0.0, 1.0, 50.0, 1e4]), 0.0, 0.0])
        if r.random() < 0.7:    # between what the one axis and what the other axis asks for
            need = sorted(abs(a[k] - b[k]) / dt / (1 / a[6] + 1 / b[6]) for k in (3, 4))
            s.joints["j0"][2][4] = r.choice([0.1 * need[0], 0.5 * sum(need), 0.9 * need[1], 1.3 * need[1]])
        elif r.random() < 0.5:
            s.gens["f1"] = ("gravity", [], [9.81])
            s.gens["f2"] = ("static", ["a"], [m.val(30), m.val(30), 0.0, 0.0])
    else:
        if kind == "clutch":
            meff = 1 / (1 / a[7] + 1 / b[7])
            demand = -meff * (b[5] - a[5]) / dt
        elif kind == "gear":
            demand = 1.0
        else:
            demand = -a[7] * a[5] / dt
        f = r.choice([0.0, 0.2, 0.9, 0.999999, 1.0, 1.000001, 1.1, 5.0])
        t = abs(demand) * f
        lim = r.choice([[-t, t], [-t, t], [0.0, t], [-t, 0.0], [0.5 * t, t], [-t, -0.5 * t]])
        if kind == "crot":
            s.joints["j0"] = (kind, ["a"], [m.val(2)] + lim + [0.0, 0.0])
        elif kind == "fric":
            s.joints["j0"] = (kind, ["a"], lim + [0.0, 0.0])
        elif kind == "gear":
            s.joints["j0"] = (kind, ["a", "b"], [r.choice([1.0, 2.0, -0.5]), r.choice([0, 1]), 0.0, 0.0])
        else:
            s.joints["j0"] = (kind, ["a", "b"], lim + [0.0, 0.0])
    out = header(i, "C08") + s.declare() + rig(m, "nsv", "gs", s) + s.adds("y", rng=r)
    for k in range(r.choice([1, 2, 4])):
        out.append(line("process", "y", dt, r.choice([1, 1, 2])))
        if kind == "gear" and r.random() < 0.5:
            out.append(line("jset", "j0", s.joints["j0"][2][0], r.choice([0, 1]), 0.0, 0.0))
    return out


def C09(r, n):
    out = []
    for i in range(n):
        out.append(dynamics(r, i, "C09", ("nsv", "gen", "gen"), outside=r.choice([0, 0, 1]), joints=(1, 5)))
    return out


def C10(r, n):
    return [dynamics(r, i, "C10", ("gen",), joints=(1, 6)) for i in range(n)]


def C04(r, n):
    out = []
    for i in range(n):
        if i % 2:
            out.append(apply_case(r, i))
        else:
            out.append(dynamics(r, i, "C04", ("nsv", "gen"), loads=(1, 5), joints=(0, 2), outside=r.choice([0, 1])))
    return out


def apply_case(r, i, prop="C04", kinds=None):
    """a generator applied to a state that is not the bodies' own"""
    m = Maker(r)
    s = m.scene(r.randint(2, 4), 0, 0, r.choice([0, 1, 1]))
    for k in range(r.randint(2, 5)):
        s.gens["f%d" % k] = m.load(s, r.choice(kinds or ["gravity", "static", "spring", "spring", "motor", "motor"]))
    out = header(i, prop) + s.declare() + rig(m, "nsv", "ge", s) + s.adds("y", rng=r)
    n = len(s.inside())
    out.append("st q")
    out.append(line("stresize", "q", n, r.choice([0, 2])))
    out.append(line("stfill", "q", 1.0))
    for k in range(n):
        b = m.body()
        b[2] = many_turns(r, b[2])
        out.append(line("stset", "q", k, *b[:6]))
        out.append(line("stacc", "q", k, m.val(3), m.val(3), m.val(3)))
        out.append(line("stload", "q", k, m.val(3), m.val(3), m.val(3), m.mass()))
    for g in s.gens:
        out.append(line("apply", g, "q"))
    for g, (k, bs, p) in s.gens.items():
        if k == "motor":        # at the bounds of the torque: exactly reached, exceeded either way
            q = list(p)
            q[2] = r.choice([0.0, abs(m.val(4)), 0.5])
            q[3] = r.choice([50.0, -50.0, 0.3])
            out.append(line("gset", g, *q))
            out.append(line("apply", g, "q"))
        if k == "spring":
            q = list(p)
            q[6] = r.choice([0.0, 2.0])
            q[4] = r.choice([0.0, 5.0])
            out.append(line("gset", g, *q))
            out.append(line("apply", g, "q"))
            if all(b in s.inside() for b in bs):
                out.append(line("springobs", g))
    return out


def random_params(r, m, s, kind, bs):
    """joint parameters without regard to whether the relation holds"""
    p = m.joint(s, kind, bs, False)
    if kind == "line" and r.random() < 0.4:
        p[4], p[5] = m.val(3), m.val(3)
    if kind == "roll":
        if r.random() < 0.3:
            p[4] = r.choice([0.0, 3.0, 0.1])
        if r.random() < 0.2:
            p[2], p[3] = m.val(2), m.val(2)
    if kind in ("clutch", "fric", "crot"):
        lo = 1 if kind == "crot" else 0
        p[lo], p[lo + 1] = r.choice([(-1.0, 1.0), (0.0, 5.0), (-3.0, 0.0), (-HUGE, HUGE), (0.0, 0.0), (2.0, 7.0)])
        if kind == "crot":
            p[0] = m.val(4)
    if kind == "gear":
        p[0], p[1] = m.val(4), r.choice([0, 1])
    if kind == "link":
        p[4] = r.choice([HUGE, 0.0, 3.5, 1e6])
    p[-2], p[-1] = m.val(20), m.val(5)
    return p


def rows_case(r, i, prop):
    m = Maker(r)
    s = Scene()
    nb = r.randint(2, 4)
    for k in range(nb):
        s.bodies["b%d" % k] = m.body()
    kinds = ["pin", "rot", "line", "link", "roll", "roll", "clutch", "gear", "fric", "crot"]
    m.limited = True
    for k in range(6):
        kind = r.choice(kinds)
        bs = r.sample(list(s.bodies), 2 if kind in ("link", "roll", "clutch", "gear") else 1)
        s.joints["j%d" % k] = (kind, bs, random_params(r, m, s, kind, bs))
    out = header(i, prop) + s.declare() + rig(m, "nsv", "ge", s)
    order = list(s.bodies)
    r.shuffle(order)
    out += [line("addb", "y", b) for b in order]
    out.append("st q")
    out.append(line("stresize", "q", nb, 1))
    out.append(line("stfill", "q", 2.0))
    for turn_ in range(2):
        for k in range(nb):
            b = m.body()
            if r.random() < 0.15:
                b[0:2] = [1e3 * b[0], 1e3 * b[1]]
            if turn_ == 1:
                b[2] = many_turns(r, b[2], 0.3)
            out.append(line("stset", "q", k, *b[:6]))
        for j in s.joints:
            out.append(line("calc", j, "q"))
            if r.random() < 0.3:
                out.append(line("jset", j, *random_params(r, m, s, s.joints[j][0], s.joints[j][1])))
                out.append(line("calc", j, "q"))
    return out


def C05(r, n):
    return [rows_case(r, i, "C05") if i % 3 else dynamics(r, i, "C05", rows=True, joints=(1, 5)) for i in range(n)]


def C06(r, n):
    return [rows_case(r, i, "C06") if i % 3 else dynamics(r, i, "C06", rows=True, joints=(1, 5)) for i in range(n)]


# ------------------------------------------------------------------------------------------- frames
def C03(r, n):
    out = []
    for i in range(n):
        m = Maker(r)
        o = header(i, "C03")
        for k in range(2):
            b = m.body()
            if r.random() < 0.3:
                b[2] = r.choice([0.0, math.pi / 2, math.pi, -math.pi, 2 * math.pi, 100.0, -33.3, 1e-9, 1e4, many_turns(r, 0.0, 1.0)])
            if r.random() < 0.2:
                b[0], b[1] = 1e4 * b[0], 1e-3 * b[1]
            o.append(line("body", "b%d" % k, *b))
            for q in range(4):
                o.append(line(r.choice(["l2w", "w2l"]), "b%d" % k, m.val(5), m.val(5)))
        size = r.choice([40, 70, 130]) if i % 16 == 15 else r.randint(1, 5)
        o += ["st q", line("stresize", "q", size, r.choice([0, 3])), line("stfill", "q", 0.25)]
        some = list(range(size)) if size < 40 else [0, 15, 16, 31, 32, 33, size - 2, size - 1]
        for k in some:
            b = m.body()
            b[2] = many_turns(r, b[2], 0.2)
            if r.random() < 0.3:        # at rest, only turning, only moving, at the origin
                for q in r.choice([(3, 4, 5), (3, 4), (3,), (4,), (5,), (0, 1), (2,), (0, 1, 2)]):
                    b[q] = 0.0
            o.append(line("stset", "q", k, *b[:6]))
            o.append(line("stacc", "q", k, *r.choice([[m.val(3), m.val(3), m.val(3)], [0.0, 0.0, 0.0]])))
            o.append(line("stload", "q", k, m.val(3), m.val(3), m.val(3), m.mass()))
        for q in range(8):
            k = r.choice(some)
            o.append(line("stl2w", "q", k, m.val(3), m.val(3)))
            o.append(line("stvel", "q", k, m.val(3), m.val(3)))
            o.append(line("stforce", "q", k, m.val(2), m.val(2), m.val(10), m.val(10)))
        o.append(line("breset", "b0"))
        o += [line("bset", "b0", *m.body()[:6]), line("l2w", "b0", 1.0, 2.0)]
        out.append(o)
    return out


# ------------------------------------------------------------------------------------------ registry
def registry_case(r, i, prop, length=40, systems=2, process=True):
    m = Maker(r, 0.3)
    s = Scene()
    nb, nj, ng = r.randint(2, 7), r.randint(1, 6), r.randint(1, 4)
    for k in range(nb):
        s.bodies["b%d" % k] = m.body()
    turn = {}                   # rotations tied to the ground or to each other: a forest, or the rows depend on each other
    def root(b):
        while turn.get(b, b) != b:
            b = turn[b]
        return b
    for k in range(nj):
        b = "b%d" % (k % nb)
        if k < nb:              # at most one of these kinds per body
            kind = r.choice(["rot", "pin", "fric", "line", "crot"])
            s.joints["j%d" % k] = (kind, [b], m.joint(s, kind, [b]))
            if kind in ("rot", "fric", "crot"):
                turn[b] = "ground"
        else:
            c = "b%d" % r.randrange(nb)
            if root(b) != root(c):
                turn[root(b) if root(b) != "ground" else root(c)] = "ground" if root(b) == "ground" else root(c)
                s.joints["j%d" % k] = ("clutch", [b, c], [-1.0, 1.0, 0.0, 0.0])
    for k in range(ng):
        kk = r.choice(["gravity", "static", "spring", "motor"])
        s.gens["f%d" % k] = m.load(s, kk)
    out = header(i, prop) + s.declare()
    names, stale = [], set()
    for k in range(systems):
        y = "y%d" % k
        kind = r.choice(["nsv", "gen"])
        out += rig(m, kind, r.choice(["ge", "gs"]) if kind == "nsv" else "ge", s, y, "s%d" % k, "o%d" % k)
        names.append(y)
    place = {x: None for x in list(s.bodies) + list(s.joints) + list(s.gens)}
    for k in range(length):
        q = r.random()
        y = r.choice(names)
        if q < 0.06 and process:
            out += run(r, s, place, y, stale)
        elif q < 0.08:
            # everything a system loses here is added somewhere else, or not at all, from now on
            out.append(line("reset", y))
            for x in place:
                if place[x] == y:
                    place[x] = None
                    stale.add(x)
        else:
            grow = r.random() < (0.75 if k < length * 0.4 else 0.45)
            pool = [x for x in place if (place[x] is None) == grow and (grow or place[x] == y)]
            if not pool:
                continue
            x = r.choice(pool)
            c = {"b": "b", "j": "j", "f": "g"}[x[0]]
            out.append(line(("add" if grow else "rem") + c, y, x))
            place[x] = y if grow else None
            stale.discard(x)
    for y in names:
        if process:
            out += run(r, s, place, y, stale)
        out.append(line("obs", y))
    return out


def run(r, s, place, y, stale):
    """advance y, after taking out the joints whose bodies are not with it"""
    out = []
    for j, (kind, bs, p) in s.joints.items():
        if place[j] == y and any(place[b] != y for b in bs):
            out.append(line("remj", y, j))
            place[j] = None
    for g, (kind, bs, p) in s.gens.items():     # bodies in another system, or of a system that was reset, publish its index
        if place[g] == y and any(place[b] not in (y, None) or b in stale for b in bs):
            out.append(line("remg", y, g))
            place[g] = None
    out.append(line("process", y, step(r), r.choice([1, 2])))
    return out


EDGES = (0, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513)


def crowd_case(r, i, prop):
    """a crowd: members at the ends and next to powers of two go and come back"""
    n = {"b": r.choice([70, 140, 290]), "j": r.choice([20, 70, 140]), "f": r.choice([20, 70, 140])}
    out = header(i, prop)
    for k in range(n["b"]):
        out.append(line("body", "b%d" % k, 0.5 * k, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0))
    for k in range(n["j"]):
        out.append(line("joint", "j%d" % k, "fric", "b%d" % (k % n["b"]), "-", -1.0, 1.0, 0.0, 0.0))
    for k in range(n["f"]):
        out.append(line("gen", "f%d" % k, "static", "b%d" % (k % n["b"]), "-", 1.0, 0.0, 0.0, 0.0))
    out += ["solver s ge", "sys y nsv s -"]
    word = {"b": "b", "j": "j", "f": "g"}
    places = {c: [] for c in n}
    start = [(c, k) for c in n for k in range(n[c])]
    r.shuffle(start)
    def add(c, x):
        out.append(line("add" + word[c], "y", x))
        places[c].append(x)
    def rem(c, k):
        x = places[c][k]
        out.append(line("rem" + word[c], "y", x))
        if r.random() < 0.5:
            out.append("obs y")
        places[c][k] = places[c][-1]
        places[c].pop()
        return x
    for c, k in start:
        add(c, "%s%d" % (c, k))
    out.append("obs y")
    for turn_ in range(2):
        gone = []
        for _ in range(12):
            c = r.choice(["b", "j", "f"])
            size = len(places[c])
            if size == 0:
                continue
            k = r.choice([x for x in EDGES + (size - 1, size - 2, size // 2) if 0 <= x < size])
            gone.append((c, rem(c, k)))
        if turn_ == 0 and r.random() < 0.3:
            out.append("reset y")
            gone += [(c, x) for c in places for x in places[c]]
            places = {c: [] for c in n}
        r.shuffle(gone)
        for c, x in gone[: len(gone) if turn_ == 0 else len(gone) // 2]:
            add(c, x)
        out.append("obs y")
    return out


def C01(r, n):
    out = []
    for i in range(n):
        if i % 12 == 11:
            out.append(crowd_case(r, i, "C01"))
            continue
        out.append(registry_case(r, i, "C01", r.choice([25, 40, 60]), r.choice([1, 1, 2])))
    return out


# ------------------------------------------------------------------------------------------- twins
def C02(r, n):
    return [twin_history(r, i) for i in range(n)]


def twin_history(r, i):
    """the same scene in a fresh system, and in systems with a past"""
    kind = r.choice(["nsv", "gen"])
    m = Maker(r, 0.6)
    sv = choose_solver(r, kind)
    m.limited = kind == "nsv" and sv == "gs" and r.random() < 0.5
    nb, nj, ng = r.randint(1, 5), r.randint(0, 4), r.randint(0, 3)
    s = m.scene(nb, nj, ng, r.choice([0, 0, 1]), cond=100.0 if sv == "ge" else 30.0)
    ode, beta = method(r), r.choice([None, 0.5])
    # the iterative solvers stop at a residual
    fine = 1e-6 if sv == "ge" else 2e-5
    dt, k = even_step(r), r.choice([1, 2]) if sv == "ge" else 1
    out = header(i, "C02")
    out += s.declare("p") + s.declare("q") + s.declare("u")
    # the fresh one
    out += rig(m, kind, sv, s, "yp", "sp", "op", ode, beta)
    out += s.adds("yp", "p")
    out += [line("process", "yp", dt, k), s.tag("fresh", "p")]
    # one with a past: other bodies, joints, loads; grown, shrunk or emptied; solver shared
    out += rig(m, kind, sv, s, "yq", "sq", "oq", ode, beta)
    big = m.scene(r.choice([1, 3, 8, 12]), r.choice([0, 2, 6]), r.choice([0, 2, 3]), 0, cond=100.0,
                  kinds=["pin", "link", "rot", "fric", "crot", "clutch", "line"])
    out += big.declare("h")
    share = r.random() < 0.5
    style = r.choice(["before", "around", "reset", "middle"])
    past = big.adds("yq", "h", rng=r) + [line("process", "yq", dt, r.choice([1, 2]))]
    if r.random() < 0.15:               # a long past, of the small kind that stays where it is
        past = long_past(r, out, dt) + past
    undo = [line("remj", "yq", "h" + j) for j in big.joints] + [line("remg", "yq", "h" + g) for g in big.gens] \
        + [line("remb", "yq", "h" + b) for b in big.inside()]
    mine = s.adds("yq", "q", rng=r)
    if style == "before":
        r.shuffle(undo)
        # a joint is not left behind without its bodies while the system advances
        out += past + undo
        if r.random() < 0.5:
            out.append(line("process", "yq", dt, 1))
        out += mine
    elif style == "reset":
        out += past + [line("reset", "yq")]
        if r.random() < 0.5:
            out.append(line("process", "yq", dt, 1))
        out += mine
    elif style == "around":
        out += mine + past + undo
    else:
        half = big.inside()[: len(big.inside()) // 2]
        keep = [line("addb", "yq", "h" + b) for b in half]
        out += keep + mine + [line("process", "yq", dt, 1)]
        out += [line("remb", "yq", "h" + b) for b in half]
        q = [j for j in s.joints]
        r.shuffle(q)
        if q and r.random() < 0.7:      # take some joints out, advance, put them back
            out += [line("remj", "yq", "q" + j) for j in q[:2]] + [line("process", "yq", dt, 2)]
            out += [line("addj", "yq", "q" + j) for j in q[:2]]
        if s.gens and r.random() < 0.5:
            out += [line("remg", "yq", "qf0"), line("process", "yq", dt, 1), line("addg", "yq", "qf0")]
    if share:
        # another system goes through the same solver and integrator
        out += [line("sys", "yr", "nsv", "sq", "-") if kind == "nsv" else line("sys", "yr", "gen", "sq", "oq")]
        other = m.scene(r.choice([2, 5]), r.choice([1, 3]), 1, 0, cond=100.0)
        out += other.declare("o_") + other.adds("yr", "o_") + [line("process", "yr", dt, 1)]
    if r.random() < 0.7:
        out += detour(r, m, s, "yq", "q", dt)
    out += s.state("q")
    out += [line("process", "yq", dt, k), s.tag("past", "q"), line("same", "C02", "fresh", "past", fine)]
    # one with its members in another order
    out += rig(m, kind, sv, s, "yu", "su", "ou", ode, beta)
    out += s.adds("yu", "u", rng=r)
    out += [line("process", "yu", dt, k), s.tag("order", "u"), line("same", "C02", "fresh", "order", fine)]
    # the one with another order trades places and values without changing its size, and is put right again
    out += detour(r, m, s, "yu", "u", dt) + s.state("u")
    out += [line("process", "yu", dt, k), s.tag("order2", "u"), line("same", "C02", "fresh", "order2", fine)]
    # and the one with a past keeps agreeing
    out += [line("process", "yp", dt, k), s.tag("fresh2", "p"), line("process", "yq", dt, k), s.tag("past2", "q"),
            line("same", "C02", "fresh2", "past2", 10 * fine)]
    return out


def long_past(r, out, dt):
    """many calls, or many members that come and go, before anything else"""
    out += [line("body", "lb", 0.0, 0.0, 0.0, 0.25, 0.0, 0.5, 1.0, 1.0), line("joint", "lj", "fric", "lb", "-", -0.5, 0.5, 0.0, 0.0),
            line("gen", "lg", "static", "lb", "-", 0.0, 0.0, 0.0, 0.0)]
    o = ["addb yq lb", "addj yq lj", "addg yq lg"]
    if r.random() < 0.6:
        o.append(line("runs", "yq", dt, r.choice([1, 2]), r.choice([40, 130, 300, 650])))
    else:
        for _ in range(r.choice([40, 70, 140])):
            o += ["remj yq lj", "addj yq lj"] + (["remb yq lb", "addb yq lb"] if r.random() < 0.3 else []) + \
                (["remg yq lg", "addg yq lg"] if r.random() < 0.3 else [])
        o.append(line("process", "yq", dt, r.choice([1, 70])))
    return o + ["remj yq lj", "remg yq lg", "remb yq lb"]


def detour(r, m, s, y, pre, dt):
    """other masses, parameters, steps and places for a call or two, then the old values (but not the old places) again"""
    out, back = [], []
    ins = s.inside()
    for b in ins:
        if r.random() < 0.5:
            v = s.bodies[b]
            f = r.choice([0.5, 2.0, 1.5])
            out.append(line("bmass", pre + b, v[6] * f, v[7] * f))
            back.append(line("bmass", pre + b, v[6], v[7]))
    for g, (kind, bs, p) in s.gens.items():
        if r.random() < 0.5:
            out.append(line("gset", pre + g, *[x * 0.5 for x in p]))
            back.append(line("gset", pre + g, *p))
    for j, (kind, bs, p) in s.joints.items():
        if r.random() < 0.5:
            q = list(p)
            q[-1], q[-2] = 0.5, 3.0
            out.append(line("jset", pre + j, *q))
            back.append(line("jset", pre + j, *p))
    n = r.choice([1, 1, 2])
    for i in range(n):
        if i or r.random() < 0.7:       # not far from the pose that is known to be well conditioned
            out += s.state(pre)
        out.append(line("process", y, dt * r.choice([0.5, 1.0, 2.0]), r.choice([1, 2, 3])))
    trade = []
    for b in r.sample(ins, min(len(ins), r.choice([1, 2, 2]))):
        trade += [line("remb", y, pre + b), line("addb", y, pre + b)]
    for j in r.sample(list(s.joints), min(len(s.joints), r.choice([0, 1, 2]))):
        trade += [line("remj", y, pre + j), line("addj", y, pre + j)]
    out += trade
    if r.random() < 0.3:
        out += s.state(pre) + [line("process", y, dt, 1)]
    r.shuffle(back)
    return out + back


def C16(r, n):
    out = []
    for i in range(n):
        if i % 4 == 3:
            out.append(dynamics(r, i, "C16", loads=(0, 4)))
            continue
        kind = r.choice(["nsv", "gen"])
        m = Maker(r, 0.6)
        sv = r.choice(["ge", "ge", "gs"])
        nb, nj, ng = r.randint(1, 4), r.randint(0, 3), r.randint(0, 3)
        s = m.scene(nb, nj, ng, 0, cond=100.0)
        for g, (k, bs, p) in s.gens.items():
            if k == "motor":
                p[1] = 0.0
        ode, beta = method(r), r.choice([None, 0.3])
        dt, k = r.choice([0.01, 0.02, 0.03]), r.choice([2, 3, 4, 8])
        o = header(i, "C16") + s.declare("p") + s.declare("q")
        o += rig(m, kind, sv, s, "yp", "sp", "op", ode, beta) + rig(m, kind, sv, s, "yq", "sq", "oq", ode, beta)
        o += s.adds("yp", "p") + s.adds("yq", "q")
        if i % 12 == 0:     # many of them
            k = r.choice([65, 100, 130])
        for turn_ in range(2 if k < 50 else 1):
            o += [line("process", "yp", dt, k), s.tag("one%d" % turn_, "p")]
            for c in range(k):
                o.append(line("process", "yq", dt / k, 1) + (" - x" if r.random() < 0.3 else ""))
            o += [s.tag("many%d" % turn_, "q"), line("same", "C16", "one%d" % turn_, "many%d" % turn_, 1e-6)]
        o += [line("obs", "yp"), line("obs", "yq")]
        if kind == "nsv":
            o += [line("runs", "yp", 0.0078125, 2, r.choice([5, 40])), line("obs", "yp")]
        out.append(o)
    return out


def C18(r, n):
    out = []
    for i in range(n):
        kind = r.choice(["nsv", "gen"])
        m = Maker(r, 0.6)
        sv = r.choice(["ge", "ge", "gs", "cg"])
        m.limited = kind == "nsv" and sv == "gs" and r.random() < 0.4
        turned = r.random() < 0.75
        nb, nj, ng = r.randint(1, 4), r.randint(0, 4), r.randint(0, 3)
        s = m.scene(nb, nj, ng, r.choice([0, 0, 1]), cond=60.0 if sv == "ge" else 30.0,
                    loadkinds=["static", "spring", "motor"] + ([] if turned else ["gravity"]))
        for k, bs, p in s.joints.values():
            if k == "link":
                p[4] = HUGE         # a finite limit bounds each world axis
        phi = r.choice([math.pi / 2, 1.0, -2.2, 0.3, 5.0]) if turned else 0.0
        d = r.choice([(0.0, 0.0), (2.5, -1.0), (-7.0, 3.0), (100.0, 40.0)]) if turned else r.choice([(2.5, -1.0), (-30.0, 3.0)])
        if r.random() < 0.25:
            d = r.choice([(2e3, -1.5e3), (-3e4, 1e4), (0.0, 7e4), (-1.2e6, 0.3)])
        t = s.moved(phi, d)
        ode, beta = method(r), r.choice([None, 0.3])
        dt, k = even_step(r), r.choice([1, 2, 3]) if sv == "ge" else 1
        o = header(i, "C18") + s.declare("p") + t.declare("q")
        o += rig(m, kind, sv, s, "yp", "sp", "op", ode, beta) + rig(m, kind, sv, s, "yq", "sq", "oq", ode, beta)
        o += s.adds("yp", "p") + t.adds("yq", "q")
        for c in range(2):
            o += [line("process", "yp", dt, k), line("process", "yq", dt, k), s.tag("one%d" % c, "p"), t.tag("two%d" % c, "q"),
                  line("same", "C18", "one%d" % c, "two%d" % c, 1e-5 if sv == "ge" else 1e-4, phi, d[0], d[1])]
        out.append(o)
    return out


# ------------------------------------------------------------------------------------------ momentum
def C15(r, n):
    out = []
    for i in range(n):
        q = i % 4
        if q == 0:
            # internal joints and loads only
            out.append(dynamics(r, i, "C15", ("nsv",), kindset=["link", "link", "clutch"], loadkinds=["spring0", "motor"],
                                outside=0, joints=(0, 4), loads=(0, 3), solver=r.choice(["ge", "gs"])))
        elif q == 1:
            # no load, no bias: joints of every kind
            m = Maker(r)
            m.limited = r.random() < 0.5
            s = m.scene(r.randint(1, 5), r.randint(1, 5), 0, r.choice([0, 0, 1]), cond=200.0)
            for k, bs, p in s.joints.values():
                if k == "crot":
                    p[0] = 0.0
                lo = {"clutch": 0, "fric": 0, "crot": 1}.get(k)
                if lo is not None:
                    p[lo], p[lo + 1] = min(p[lo], 0.0), max(p[lo + 1], 0.0)
            o = header(i, "C15") + s.declare()
            o += rig(m, "nsv", "gs" if m.limited else r.choice(["ge", "gs", "cg"]), s, beta=0.0) + s.adds("y", rng=r)
            for c in range(3):
                o.append(line("process", "y", step(r), r.choice([1, 2])))
            o += [line("energy", b) for b in s.bodies]
            out.append(o)
        elif q == 2:
            out.append(energy_case(r, i))
        else:
            out.append(apply_case(r, i, "C15", ["spring0"]))
    return out


def energy_case(r, i):
    m = Maker(r)
    s = m.scene(3, 0, 0, r.choice([0, 1, 2]))
    for k in range(4):
        s.gens["f%d" % k] = m.load(s, "spring")
    o = header(i, "C15") + s.declare() + rig(m, "nsv", "ge", s) + s.adds("y")
    for c in range(2):
        o += [line("energy", b) for b in s.bodies] + [line("springobs", g) for g in s.gens]
        o += [line("bset", b, *m.body()[:6]) for b in s.bodies] + [line("bmass", b, m.mass(), m.mass()) for b in s.bodies]
    o += [line("energy", b) for b in s.bodies] + [line("springobs", g) for g in s.gens]
    return o


_load = Maker.load


def load(self, s, kind):
    if kind != "spring0":
        return _load(self, s, kind)
    k, bs, p = _load(self, s, "spring")
    p[6] = 0.0
    return (k, bs, p)


Maker.load = load


# ------------------------------------------------------------------------------------------ integrators
def C11(r, n):
    out = []
    for i in range(n):
        if i % 4 == 3:
            out.append(dynamics(r, i, "C11"))
            continue
        m = Maker(r)
        o = header(i, "C11")
        meth = r.choice(["euler", "nsv", "rk4", "rk4"])
        size, nc = r.choice([(1, 0), (1, 1), (2, 3), (4, 1), (0, 0), (3, 2)])
        if i % 16 == 14:
            size, nc = r.choice([(17, 9), (34, 3), (9, 34), (66, 2)])
        o += [line("ode", "o", meth), "st q", line("stresize", "q", size, nc), line("stfill", "q", 0.5)]
        stages = 4 if meth == "rk4" else 1
        if r.random() < 0.3:        # the same integrator first advances another state
            o += ["st z", line("stresize", "z", size + 2, nc + 1), line("stfill", "z", 1.5), line("ostart", "o", "z", 0.25)]
            for c in range(stages):
                o += [line("ostep", "o", "z"), line("osolve", "o", "z")]
            o.append("oend o")
        for a in range(r.choice([1, 2, 3])):
            for k in range(size):
                o.append(line("stset", "q", k, *m.body()[:6]))
            h = r.choice([0.1, 0.5, 1.0, 0.003, -0.25, 0.0, 3.0, 10.0 ** r.uniform(-7, 2), 10.0 ** r.uniform(-7, -3)])
            o.append(line("ostart", "o", "q", h))
            for c in range(stages):
                o.append(line("ostep", "o", "q"))
                for k in range(size):
                    o.append(line("stacc", "q", k, m.val(4), m.val(4), m.val(4)))
                for k in range(2 * nc):
                    o.append(line("streact", "q", k, m.val(4), m.val(4), m.val(4)))
                o.append(line("osolve", "o", "q"))
            o.append("oend o")
        out.append(o)
    return out


# ------------------------------------------------------------------------------------------ dense
class Dense:
    """keeps track of the shapes, so that every operation asked for is defined"""

    def __init__(self, r, i, prop, small=4):
        self.r, self.o, self.shape, self.full = r, header(i, prop), {}, {}
        self.n, self.small = 0, small

    def val(self):
        r = self.r
        return r.choice([0.0, 1.0, -1.0, 0.5, r.uniform(-3, 3), r.uniform(-3, 3), r.uniform(-1e3, 1e3)])

    def dim(self):
        r = self.r
        return r.choice([1, 1, 2, 3, 4, self.small, r.randint(1, 6), 0 if r.random() < 0.3 else 2,
                         r.choice([7, 8, 9, 13, 17, 20, r.randint(7, 24), 33 if r.random() < 0.5 else 16]) if r.random() < 0.5 else 5])

    def new(self, w=None, h=None):
        r = self.r
        n = "m%d" % self.n
        self.n += 1
        w = self.dim() if w is None else w
        h = self.dim() if h is None else h
        q = r.random()
        if q < 0.3:
            self.o.append(line("mat", n))
            self.shape[n], self.full[n] = (0, 0), True
            if r.random() < 0.6:
                self.redim(n, w, h)
        elif q < 0.6:
            self.o.append(line("mat", n, w, h))
            self.shape[n], self.full[n] = (w, h), True
        else:
            self.o.append(line("mat", n, w, h, self.val()))
            self.shape[n], self.full[n] = (w, h), True
        return n

    def redim(self, n, w, h):
        r = self.r
        q = r.random()
        if q < 0.4:
            if self.shape[n] != (w, h):
                self.full[n] = w == 0 or h == 0
            self.o.append(line("mresize", n, w, h))
        elif q < 0.7:
            self.o.append(line("minit", n, w, h))
            self.full[n] = True
        else:
            self.o.append(line("minit", n, w, h, self.val()))
            self.full[n] = True
        self.shape[n] = (w, h)

    def fill(self, n):
        w, h = self.shape[n]
        if w * h > 0:
            self.o.append(line("mdata", n, *[self.val() for _ in range(w * h)]))
        self.full[n] = True

    def past(self, n):
        """a history for n: shapes it had before, rows exchanged, destroyed and used again"""
        r = self.r
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            q = r.random()
            if q < 0.3:
                self.redim(n, self.dim(), self.dim())
            elif q < 0.45:
                self.o.append(line("mdestroy", n))
                self.shape[n], self.full[n] = (0, 0), True
            elif q < 0.6:
                self.fill(n)
            elif self.shape[n][1] > 0 and self.full[n]:
                h = self.shape[n][1]
                self.o.append(line("mswap", n, r.randrange(h), r.randrange(h)))

    def swaps(self, n):
        h = self.shape[n][1]
        if h > 1 and self.full[n] and self.shape[n][0] > 0:
            for _ in range(self.r.choice([0, 0, 1, 2, 3])):
                self.o.append(line("mswap", n, self.r.randrange(h), self.r.randrange(h)))

    def operand(self, w, h):
        r = self.r
        fit = [n for n in self.shape if self.shape[n] == (w, h) and self.full[n]]
        if fit and r.random() < 0.4:
            return r.choice(fit)
        old = list(self.shape)
        n = r.choice(old) if old and r.random() < 0.5 else self.new()
        self.past(n)
        if self.shape[n] != (w, h):
            self.redim(n, w, h)
        if r.random() < 0.3:
            self.swaps(n)
        self.fill(n)
        self.swaps(n)
        return n

    def target(self, avoid, w, h):
        r = self.r
        old = [n for n in self.shape if n not in avoid]
        n = r.choice(old) if old and r.random() < 0.7 else self.new()
        self.past(n)
        return n

    def op(self):
        r = self.r
        q = r.choice(["mul", "mul", "tmul", "cmul", "lscale", "rscale", "scale", "sub", "add", "neg", "transpose", "madd",
                      "pmadd", "dot", "mag", "eq", "cell", "addc", "copy", "swap", "free", "past"])
        w, h, k = self.dim(), self.dim(), self.dim()
        if q == "free":
            if self.shape:
                n = r.choice(list(self.shape))
                self.o.append(line("mdestroy", n))
                self.o.append(line("mfree", n))
                del self.shape[n], self.full[n]
            return
        if q == "past":
            if self.shape:
                self.past(r.choice(list(self.shape)))
            return
        if q in ("dot", "mag", "eq"):
            if q == "eq" and w * h > 0 and r.random() < 0.5:
                # one entry differs, now here and now there, by more or less than what is allowed
                a, b = self.operand(w, h), self.operand(w, h)
                if a != b:
                    self.o.append(line("mcopy", a, b))
                    self.shape[a], self.full[a] = self.shape[b], True
                    self.o.append(line("mval", "eq", a, b))
                    err = r.choice([1e-2, 1e-5, 0.5])
                    for (i, j) in {(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1), (r.randrange(w), r.randrange(h))}:
                        d = err * r.choice([4.0, -4.0, 4.0, -4.0, 0.25, -0.25])
                        self.o += [line("maddc", a, i, j, d), line("mval", "eq", *r.choice([(a, b), (b, a)]), err),
                                   line("mcopy", a, b)]
                    return
            if q == "eq":
                a, b = self.operand(w, h), self.operand(w if r.random() < 0.8 else w + 1, h)
                if r.random() < 0.6 and self.shape[a] == self.shape[b] and a != b and w * h > 0:
                    e = r.choice([0.0, 1e-7, 1e-3])
                    self.o.append(line("mcopy", a, b))
                    self.shape[a], self.full[a] = self.shape[b], True
                    if e:
                        self.o.append(line("maddc", a, r.randrange(w), r.randrange(h), r.choice([e, -e])))
                self.o.append(line("mval", "eq", a, b, *([r.choice([1e-2, 1e-5, 0.5])] if r.random() < 0.6 else [])))
            else:
                a = self.operand(1, h)
                b = self.operand(1, h)
                self.o.append(line("mval", q, a, b if q == "dot" else "-"))
            return
        if q in ("cell", "addc", "swap"):
            w, h = max(w, 1), max(h, 1)
            a = self.operand(w, h)
            if q == "swap":
                self.o.append(line("mswap", a, r.randrange(h), r.randrange(h)))
            else:
                self.o.append(line("mcell" if q == "cell" else "maddc", a, r.randrange(w), r.randrange(h), self.val()))
            return
        if q == "copy":
            a = self.operand(w, h)
            t = self.target({a}, w, h)
            self.o.append(line("mcopy", t, a))
            self.shape[t], self.full[t] = (w, h), True
            return
        a = self.operand(w, h)
        if q in ("madd", "pmadd"):
            b = self.operand(w, h)
            if a == b:
                return
            self.o.append(line("mop", q, a, b, "-", self.val()))
            return
        shape = (w, h)
        b = "-"
        if q == "mul":
            b, shape = self.operand(k, w), (k, h)
        elif q == "tmul":
            b, shape = self.operand(k, h), (k, w)
        elif q in ("cmul", "sub", "add"):
            b = self.operand(w, h)
        elif q == "lscale":
            b = self.operand(1, h)
        elif q == "rscale":
            b = self.operand(1, w)
        elif q == "transpose":
            shape = (h, w)
        if not (self.full[a] and self.shape[a] == (w, h)):
            return
        t = self.target({a, b}, *shape)
        self.o.append(line("mop", q, a, self.val() if q == "scale" else b, t))
        self.shape[t], self.full[t] = shape, True


def C13(r, n):
    out = []
    for i in range(n):
        d = Dense(r, i, "C13")
        for _ in range(14):
            d.op()
        out.append(d.o)
    return out


# ------------------------------------------------------------------------------------------ sparse
class SparseGen:
    def __init__(self, r, i, prop):
        self.r, self.d = r, Dense(r, i, prop)
        self.sp = {}            # name -> [s, e, w, h, blocks{(i,k): b}]
        self.n = 0
        self.defined = {}

    def new(self, s, e):
        n = "a%d" % self.n
        self.n += 1
        self.d.o.append(line("sp", n, s, e))
        self.sp[n] = [s, e, 0, 0, {}]
        self.defined[n] = True
        return n

    def init(self, n, blocks, h):
        s, e = self.sp[n][:2]
        r = self.r
        w = s * blocks
        if r.random() < 0.75 or (self.sp[n][2], self.sp[n][3]) == (w, h):
            self.d.o.append(line("spinit", n, w, h))
            self.defined[n] = True
        else:
            # an entry has to be set to a block or to empty before it is used
            self.d.o.append(line("spresize", n, w, h))
            self.defined[n] = False
        self.sp[n][2:] = [w, h, {}]

    def fill(self, n, density=None):
        s, e, w, h, b = self.sp[n]
        r = self.r
        density = r.choice([0.3, 0.7, 1.0]) if density is None else density
        nb = w // s
        for i in range(h):
            free = list(range(nb))
            r.shuffle(free)
            for k in range(e):
                if free and r.random() < density:
                    blk = free.pop()
                    self.d.o.append(line("spblock", n, i, k, blk, *[self.d.val() for _ in range(s)]))
                    b[(i, k)] = blk
                elif not self.defined[n] or r.random() < 0.15:
                    self.d.o.append(line("spempty", n, i, k))
                    b.pop((i, k), None)
        self.defined[n] = True

    def past(self, n):
        r = self.r
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            q = r.random()
            if q < 0.35:
                self.d.o.append(line("spdestroy", n))
                self.sp[n][2:] = [0, 0, {}]
                self.defined[n] = True
            else:
                self.init(n, r.choice([0, 1, 2, 4, 7]), r.choice([0, 1, 2, 5, 8]))
                if r.random() < 0.7:
                    self.fill(n)
                elif not self.defined[n]:
                    self.fill(n)

    def operand(self, s, e, blocks, h):
        fit = [n for n in self.sp if self.sp[n][:2] == [s, e]]
        n = self.r.choice(fit) if fit and self.r.random() < 0.6 else self.new(s, e)
        self.past(n)
        self.init(n, blocks, h)
        self.fill(n)
        if self.r.random() < 0.4 and h > 0:         # change some entries again
            b = self.sp[n][4]
            for (i, k) in self.r.sample(sorted(b), min(2, len(b))):
                if self.r.random() < 0.5:
                    self.d.o.append(line("spempty", n, i, k))
                    del b[(i, k)]
                else:
                    self.d.o.append(line("spblock", n, i, k, b[(i, k)], *[self.d.val() for _ in range(s)]))
        return n

    def op(self):
        r, d = self.r, self.d
        s, e = r.choice([(3, 2), (3, 2), (3, 2), (1, 2), (2, 2), (4, 2), (2, 1), (3, 3), (1, 4)])
        blocks = r.choice([1, 2, 3, 5, 0 if r.random() < 0.3 else 2, 9])
        h = r.choice([1, 2, 3, 6, 0 if r.random() < 0.3 else 1, r.choice([7, 11, 17]) if r.random() < 0.4 else 4])
        a = self.operand(s, e, blocks, h)
        w = s * blocks
        q = r.choice(["expand", "texpand", "mult", "mult", "tmulv", "mul", "mul", "lscale", "rscale", "get"])
        if q == "get":
            d.o.append(line("spget", a))
            return
        if q in ("expand", "texpand"):
            t = d.target(set(), w, h)
            d.o.append(line("spop", q, a, "-", t))
            d.shape[t], d.full[t] = ((w, h) if q == "expand" else (h, w)), True
        elif q == "mult":
            h2 = r.choice([h, 1, 2, 4])
            b = a if r.random() < 0.2 else self.operand(s, e, blocks, h2)
            if self.sp[a][2:4] != [w, h]:
                return
            if b == a:
                h2 = h
            t = d.target(set(), h2, h)
            d.o.append(line("spop", q, a, b, t))
            d.shape[t], d.full[t] = (self.sp[b][3], h), True
        elif q == "tmulv":
            v = d.operand(1, h)
            t = d.target({v}, 1, w)
            d.o.append(line("spop", q, a, v, t))
            d.shape[t], d.full[t] = (1, w), True
        elif q == "mul":
            k = r.choice([1, 1, 2, 3])
            v = d.operand(k, w)
            t = d.target({v}, k, h)
            d.o.append(line("spop", q, a, v, t))
            d.shape[t], d.full[t] = (k, h), True
        else:
            v = d.operand(1, h if q == "lscale" else w)
            fit = [n for n in self.sp if self.sp[n][:2] == [s, e] and n != a]
            t = r.choice(fit) if fit and r.random() < 0.6 else self.new(s, e)
            self.past(t)
            d.o.append(line("spop", q, a, v, t))
            self.sp[t][2:] = [w, h, dict(self.sp[a][4])]
            self.defined[t] = True
            if r.random() < 0.5:
                d.o.append(line("spget", t))


def C14(r, n):
    out = []
    for i in range(n):
        g = SparseGen(r, i, "C14")
        for _ in range(6):
            g.op()
        if i % 10 == 4:         # many rows
            a, h = g.new(3, 2), r.choice([40, 70, 130])
            g.d.o.append(line("spinit", a, 12, h))
            for row in range(h):
                if row % 5 != 3:
                    g.d.o.append(line("spblock", a, row, row % 2, row % 4, 1.0 + row, -2.0, 0.5))
            v = g.d.operand(1, h)
            g.d.o.append(line("mat", "tall"))
            for q in (("mult", a), ("tmulv", v), ("expand", "-"), ("texpand", "-")):
                if q[0] != "mult" or h < 100:
                    g.d.o.append(line("spop", q[0], a, q[1], "tall"))
            b = g.new(3, 2)
            g.d.o.append(line("spop", "lscale", a, v, b))
        if i % 10 == 9:         # many columns: block numbers beyond 8 bits
            a = g.new(3, 2)
            g.d.o.append(line("spinit", a, 3 * 400, 4))
            for row, (x, y) in enumerate([(0, 255), (254, 399), (256, 127), (128, 383)]):
                g.d.o.append(line("spblock", a, row, 0, x, 1.0, 2.0, float(row)))
                g.d.o.append(line("spblock", a, row, 1, y, -1.0, 0.5, 3.0))
            g.d.o.append(line("mat", "wide"))
            g.d.o.append(line("spop", "mult", a, a, "wide"))
            g.d.o.append(line("spop", "expand", a, "-", "wide"))
        out.append(g.d.o)
    return out


# ------------------------------------------------------------------------------------------ solvers
def C12(r, n):
    import numpy as np
    out = []
    for i in range(n):
        g = SparseGen(r, i, "C12")
        d = g.d
        kinds = ["ge", "gs", "cg"]
        tight = r.random() < 0.75
        d.o.append(line("solver", "sge", "ge"))
        d.o.append(line("solver", "sgs", "gs", 100000 if r.random() < 0.8 else r.choice([1, 5, 30]), r.choice([1e-9, 1e-9, 1e-4, 1e-1])))
        cgs = r.choice([[1e-8, 1e-8], [1e-8, 1e-8], [1e-3, 1e-6], [1e-2, 1e-3], [0.0, 1e-7]])
        d.o.append(line("solver", "scg", "cg", 20000 if r.random() < 0.8 else r.choice([1, 2]), *cgs))
        for f, nm in (("gs", "dgs"), ("cg", "dcg")):
            d.o.append("solver %s %s - -" % (nm, f) + (" -" if f == "cg" else ""))
        d.o.append("mat x")
        size = 0
        held = None
        large = i == n - 1
        for _ in range(2 if large else r.choice([3, 5, 7])):
            h = r.choice([1, 2, 3, 5, 8, 0 if r.random() < 0.5 else 4, size, 12 if r.random() < 0.5 else 6])
            if r.random() < 0.06:
                h = r.choice([17, 24, 33])
            if large:
                h = r.choice([40, 60, 66, 80])
            blocks = max(1, r.choice([h, h + 1, (h + 1) // 2 + 1, 12]))
            mode = r.choice(["free", "free", "dominant", "dominant", "single", "singular"])
            late = 0
            if h >= 2 and r.random() < (0.6 if large else 0.15):   # only the rows from here on hang together
                mode, late, blocks = "late", r.randrange(1, h) if h < 34 else r.randrange(h // 2, h - 5), max(h, blocks)
            a = "J%d" % g.n
            g.n += 1
            d.o.append(line("sp", a, 3, 2))
            d.o.append(line("spinit", a, 3 * blocks, h))
            D = np.zeros((h, 3 * blocks))
            for row in range(h):
                two = mode != "single" and r.random() < 0.6 and blocks > 1
                if mode in ("dominant", "single") and row < blocks:
                    b1 = row
                else:
                    b1 = r.randrange(blocks)
                b2 = r.choice([b for b in range(blocks) if b != b1]) if two else None
                v = [r.uniform(-2, 2) for _ in range(3)]
                if mode == "late":
                    b1, two, b2 = row, row >= late, row - 1
                    v = [r.choice([1.0, 0.8, -1.2]) for _ in range(3)]
                if mode == "dominant":
                    v = [x + math.copysign(1.5, x) for x in v]
                if mode == "singular" and row == h - 1:
                    if r.random() < 0.5 or row == 0:
                        v = [0.0, 0.0, 0.0]
                        two = False
                    else:
                        continue            # a row without blocks
                swap = r.random() < 0.3
                d.o.append(line("spblock", a, row, 1 if swap else 0, b1, *v))
                D[row, 3 * b1:3 * b1 + 3] = v
                if two:
                    u = [r.uniform(-1, 1) * (0.2 if mode == "dominant" else 1.5) for _ in range(3)]
                    if mode == "late":
                        u = [x * r.choice([0.9, 0.8, 0.7]) for x in last]
                    d.o.append(line("spblock", a, row, 0 if swap else 1, b2, *u))
                    D[row, 3 * b2:3 * b2 + 3] = u
                last = v
            w = [r.choice([1.0, r.uniform(0.1, 3), r.uniform(0.1, 3)]) for _ in range(3 * blocks)]
            scale = r.choice([1.0, 1.0, 20.0, 1e3])
            unit = r.random() < 0.2         # other units: very small or large coefficients, solutions beyond 1e308
            if unit:                        # (the specification's numbers are multiples of 2^-128)
                f = 10.0 ** r.choice([r.uniform(-17, 0), r.uniform(0, 25)])
                scale = f * 10.0 ** r.uniform(-6, 12)
                if r.random() < 0.15:
                    f, scale = 1e-15, 1e300
                w = [f * x for x in w]
            b = [r.choice([0.0, r.uniform(-1, 1), r.uniform(-1, 1)]) * scale for _ in range(h)]
            if r.random() < 0.1:
                b = [0.0] * h
            d.o.append(line("mat", "W%d" % g.n, 1, 3 * blocks))
            d.o.append(line("mdata", "W%d" % g.n, *w))
            d.o.append(line("mat", "b%d" % g.n, 1, h))
            if h:
                d.o.append(line("mdata", "b%d" % g.n, *b))
            # starting guesses: none, the previous result, something arbitrary, of another size
            guess = r.choice(["-", "x", "x", "p", "p"])
            if guess == "p":
                k = r.choice([h, h, h + 1, 1])
                wide = 1 if r.random() < 0.9 else 2     # a guess of another shape is no guess
                d.o.append(line("minit", "p", wide, k, r.uniform(-5, 5)) if held else line("mat", "p", wide, k, r.uniform(-5, 5)))
                held = True
                if k and r.random() < 0.6:
                    d.o.append(line("mdata", "p", *[r.uniform(-1, 1) * r.choice([1, 10, 1e4]) for _ in range(k * wide)]))
            if r.random() < 0.15:       # a result that held something else before
                d.o.append(line("minit", "x", r.choice([2, 1, 3]), r.choice([h, h, h + 1, 2]), r.uniform(-5, 5)))
            which = r.choice(["sge", "sgs", "sgs", "scg", "scg", "dgs", "dcg"])
            if unit:
                which = r.choice(["sge", "sge", "sge", "sgs"])
            if large:
                which = r.choice(["sgs", "sgs", "scg", "sge"])
            J, W, B = a, "W%d" % g.n, "b%d" % g.n
            if which in ("sgs", "dgs") and r.random() < 0.6:
                lims = []
                for _k in range(h):
                    t = r.choice([0.0, 0.05, 0.5, 3.0, 1e6]) * scale
                    lims += r.choice([[-t, t], [-t, t], [0.0, t], [-t, 0.0], [t / 2, t], [-HUGE, HUGE]])
                d.o.append(line("mat", "L%d" % g.n, 2, h))
                if h:
                    d.o.append(line("mdata", "L%d" % g.n, *lims))
                d.o.append(line("lsolve", which, J, W, B, "L%d" % g.n, guess, "x"))
            else:
                d.o.append(line("solve", which, J, W, B, guess, "x"))
            size = h
        out.append(d.o)
    return out


# ------------------------------------------------------------------------------------------ large
def C17(r, n):
    out = []
    for i in range(n):
        m = Maker(r, 0.3)
        s = Scene()
        nb = r.choice([257, 300, 260, 512, 280, 330]) if i % 3 else r.choice([130, 64, 200, 400]) if i % 6 else 66
        for k in range(nb):
            s.bodies["b%d" % k] = m.body(20.0)
        kind = r.choice(["nsv", "gen"])
        sv = r.choice(["ge", "gs", "cg"])
        if kind == "nsv" and nb < 257:
            sv = "gs"
            m.limited = True
        special = [x for x in (0, 1, 63, 64, 126, 127, 128, 129, 254, 255, 256, 257, 258, 383, 511, nb - 1, nb - 2) if x < nb]
        nj = r.choice([10, 14, 20]) if not m.limited else r.choice([40, 60])
        used = set()
        for k in range(nj):
            kk = r.choice(["clutch", "fric", "crot", "gear"] if m.limited and r.random() < 0.7 else ["pin", "rot", "link", "link", "clutch", "gear", "fric", "roll", "line", "crot"])
            need = 2 if kk in ("link", "clutch", "gear", "roll") else 1
            bs = []
            while len(bs) < need:
                x = "b%d" % (r.choice(special) if r.random() < (0.2 if m.limited else 0.75) else r.randrange(nb))
                if x not in bs:
                    bs.append(x)
            if any(b in used for b in bs) and r.random() < 0.7:
                continue
            name = "j%d" % k
            s.joints[name] = (kk, bs, m.joint(s, kk, bs))
            if s.condition() > 100:
                del s.joints[name]
            else:
                used.update(bs)
        for k in range(3):
            g = m.load(s, r.choice(["static", "spring", "motor"]))
            g = (g[0], ["b%d" % x for x in r.sample(special, len(g[1]))], g[2])
            s.gens["f%d" % k] = g
        if r.random() < 0.6:
            s.gens["fg"] = ("gravity", [], [9.81])
        if nb == 66:
            for k in range(r.choice([70, 140, 260])):
                g = m.load(s, "static")
                s.gens["fm%d" % k] = (g[0], ["b%d" % r.randrange(nb)], g[2])
        o = header(i, "C17") + s.declare() + rig(m, kind, sv, s, ode=r.choice(["euler", "nsv", "rk4"]) if 66 < nb < 300 else "nsv")
        o += [line("addb", "y", b) for b in s.bodies]
        rest = [line("addj", "y", j) for j in s.joints] + [line("addg", "y", g) for g in s.gens]
        r.shuffle(rest)
        o += rest
        o.append(line("process", "y", 0.01, r.choice([1, 1, 2]) if 66 < nb < 300 else 1))
        if r.random() < 0.4:
            # a body goes, the last one takes its place
            idle = [b for b in s.bodies if not any(b in x[1] for x in list(s.joints.values()) + list(s.gens.values()))]
            for b in r.sample(idle, min(3, len(idle))):
                o.append(line("remb", "y", b))
            o.append(line("process", "y", 0.01, 1))
        out.append(o)
    # a crowd without joints
    for q in range(1 if r.random() < 0.3 else 0):
        m = Maker(r, 0.3)
        s = Scene()
        nb = r.choice([1030, 1030, 1100])
        for k in range(nb):
            s.bodies["b%d" % k] = m.body(20.0)
        for k in range(3):
            g = m.load(s, r.choice(["static", "spring", "motor"]))
            s.gens["f%d" % k] = (g[0], ["b%d" % x for x in r.sample([0, 1023, 1024, nb - 1], len(g[1]))], g[2])
        s.joints["j0"] = ("rot", ["b%d" % (nb - 1)], m.joint(s, "rot", ["b%d" % (nb - 1)]))
        o = header(3 * n + q, "C17") + s.declare() + rig(m, r.choice(["nsv", "gen"]), "ge", s, ode="euler")
        o += [line("addb", "y", b) for b in s.bodies] + ["addj y j0"] + [line("addg", "y", g) for g in s.gens]
        o.append(line("process", "y", 0.01, 1))
        out.append(o)
    # a hub: rows that are far apart share a body
    for q in range(max(1, n // 6)):
        nb = r.choice([60, 90, 110])
        m = Maker(r, 0.3)
        s = Scene()
        for k in range(nb):
            s.bodies["b%d" % k] = m.body(20.0)
        hub = "b%d" % r.choice([0, nb - 1, nb // 2])
        s.bodies[hub][6] = s.bodies[hub][7] = float(nb)
        others = [b for b in s.bodies if b != hub]
        r.shuffle(others)
        for k, b in enumerate(others):
            if r.random() < 0.9:
                kk = r.choice(["clutch", "clutch", "gear", "link", "link"])
                bs = [hub, b] if r.random() < 0.5 else [b, hub]
                s.joints["j%d" % k] = (kk, bs, m.joint(s, kk, bs))
        kind = r.choice(["nsv", "nsv", "gen"])
        o = header(2 * n + q, "C17") + s.declare() + rig(m, kind, r.choice(["gs", "gs", "cg"]), s, ode="nsv")
        rest = [line("addb", "y", b) for b in s.bodies]
        r.shuffle(rest)
        o += rest + [line("addj", "y", j) for j in s.joints]
        o.append(line("process", "y", 0.01, 1))
        out.append(o)
    # chains: more rows than any block of 8 bits counts
    for q in range(max(1, n // 6)):
        nb = r.choice([140, 180])
        m = Maker(r, 0.3)
        s = Scene()
        for k in range(nb):
            s.bodies["b%d" % k] = [2.0 * k + r.uniform(-0.02, 0.02), r.uniform(-0.02, 0.02), r.uniform(-0.01, 0.01), m.val(0.3), m.val(0.3), m.val(0.3), m.mass(), m.mass()]
        for k in range(nb - 1):
            if r.random() < 0.8:
                s.joints["j%d" % k] = ("link", ["b%d" % k, "b%d" % (k + 1)], [1.0, 0.0, -1.0, 0.0, HUGE, 10.0, 1.0])
        s.gens["f0"] = ("gravity", [], [9.81])
        o = header(n + q, "C17") + s.declare() + rig(m, r.choice(["nsv", "gen"]), "ge", s, ode="euler")
        o += [line("addb", "y", b) for b in s.bodies] + [line("addj", "y", j) for j in s.joints] + ["addg y f0"]
        o.append(line("process", "y", 0.01, 1))
        out.append(o)
    return out


# ------------------------------------------------------------------------------------------ storage
def C19(r, n):
    out = []
    for i in range(n):
        q = i % 5
        if q in (0, 1):
            out.append(states_case(r, i))
        elif q == 4:
            # solvers of every kind and what they were given to work on
            o = [x for x in C12(r, 1)[0] if not x.startswith("scenario")]
            o = header(i, "C19") + o
            subst = []
            for x in o:
                w = x.split()
                if w[0] == "solver":
                    subst.append([line("delsolver", w[1])])
                elif w[0] in ("mat", "sp"):
                    subst.append([line("mdestroy" if w[0] == "mat" else "spdestroy", w[1]),
                                  line("mfree" if w[0] == "mat" else "spfree", w[1])])
            r.shuffle(subst)
            out.append(o + sum(subst, []) + ["heap"])
        elif q == 2:
            # systems, solvers, matrices: made, used, destroyed; nothing is left
            o = registry_case(r, i, "C19", r.choice([10, 30]), 2)
            subst = []
            for y in ("y0", "y1"):
                subst.append(line("delsys", y))
            for k in range(2):
                subst.append(line("delsolver", "s%d" % k))
                if any(x.startswith("ode o%d " % k) for x in o):
                    subst.append(line("delode", "o%d" % k))
            r.shuffle(subst)
            # (a system does not touch its solver while it is destroyed)
            o += subst + ["heap"]
            out.append(o)
        else:
            g = SparseGen(r, i, "C19")
            for _ in range(6):
                if r.random() < 0.5:
                    g.op()
                else:
                    g.d.op()
            # a matrix that was not destroyed is destroyed with its object
            names = [("mfree", k) for k in g.d.shape] + [("spfree", k) for k in g.sp]
            r.shuffle(names)
            for c, k in names:
                if r.random() < 0.4:
                    g.d.o.append(line("mdestroy" if c == "mfree" else "spdestroy", k))
                    if r.random() < 0.3:
                        g.d.o.append(line("minit" if c == "mfree" else "spinit", k, 12, 2))
                elif c == "spfree":
                    pass
                if c == "spfree" or True:
                    g.d.o.append(line("mdestroy" if c == "mfree" else "spdestroy", k))
                g.d.o.append(line(c, k))
            g.d.o.append("heap")
            out.append(g.d.o)
    return out


def states_case(r, i):
    o = header(i, "C19")
    names = ["qa", "qb", "qc"]
    size = {}       # room asked for: there may be more
    for k in names:
        o.append(line("st", k))
        size[k] = (0, 0)
    live = {k: False for k in names}
    for _ in range(r.choice([6, 10, 16])):
        k = r.choice(names)
        c = r.random()
        if c < 0.4:
            n, nc = r.choice([0, 1, 2, 5, 9, 17]), r.choice([0, 1, 2, 4, 8, 33])
            if r.random() < 0.04:
                n, nc = r.choice([(70, 2), (130, 70), (3, 130), (300, 1)])
            o.append(line("stresize", k, n, nc))
            size[k] = (n, nc)
            o.append(line("stfill", k, r.uniform(-5, 5)))
            for i in range(nc if r.random() < 0.4 else 0):      # as a system numbers its rows
                o.append(line("stmap", k, i, i))
            live[k] = True
        elif c < 0.8:
            j = r.choice([x for x in names if x != k])
            if live[j]:
                o.append(line("stcopy", k, j))
                live[k] = True
                size[k] = size[j]
                if r.random() < 0.4:        # one thing changes; copied again, either way
                    g = r.choice([x for x in (j, k) if size[x] != (0, 0)] or [None])
                    if g is not None:
                        n, nc = size[j] if g == j else size[k]
                        v = [r.uniform(-3, 3) for _ in range(6)]
                        b, w = r.randrange(max(n, 1)), r.randrange(max(nc, 1))
                        some = [line("stset", g, b, *v), line("stacc", g, b, *v[:3]), line("stload", g, b, *v[:4])] if n else []
                        some += [line("stmap", g, w, r.randint(-1, 40))] * 2 if nc else []
                        some += [line("streact", g, r.randrange(2 * nc), *v[:3])] if nc else []
                        o.append(r.choice(some))
                        o.append(line("stcopy", k, j))
        elif c < 0.9:
            o.append(line("stdestroy", k))
            live[k] = False
            size[k] = (0, 0)
        elif live[k]:
            o.append(line("stget", k))
    for k in names:
        if r.random() < 0.8:
            o.append(line("stdestroy", k))
        if r.random() < 0.3:
            o.append(line("stdestroy", k))
        else:
            o.append(line("stdestroy", k))
    for k in names:
        o.append(line("stfree", k))
    o.append("heap")
    return o


# ------------------------------------------------------------------------------------------ profile
def C20(r, n):
    out = []
    for i in range(n):
        m = Maker(r, 0.3)
        kind = "nsv" if i % 2 else "gen"
        s = Scene()
        for k in range(r.randint(1, 3)):
            s.bodies["b%d" % k] = m.body()
            s.bodies["b%d" % k][3] += 0.37      # it moves
            s.joints["j%d" % k] = ("rot", ["b%d" % k], [s.bodies["b%d" % k][2], 0.0, 0.0])
            s.gens["f%d" % k] = ("static", ["b%d" % k], [1.0, 1.0, 0.0, 0.0])
        if i % 3 == 0:
            s.joints = {}
        o = header(i, "C20") + s.declare() + rig(m, kind, "ge", s, ode=method(r))
        o += s.adds("y") + [line("profile", "y")]
        q = r.random()
        counts = r.choice([[1, 1, 3], [598, 1, 1, 1, 2], [600, 1], [700], [5, 600, 300], [1200, 1], [350, 350], [10, 20, 30]])
        steps = r.choice([1, 1, 2, 3])
        for k in counts:
            o.append(line("cost", *[r.choice([0, 3, 100, 7, 1000, r.randint(1, 5000), r.randint(10 ** 6, 2 * 10 ** 7)])
                                     for _ in range(4)]))
            if k <= 3:
                for _ in range(k):
                    o.append(line("process", "y", 1e-5, steps))
            else:
                o.append(line("runs", "y", 1e-5, steps, k))
            o.append(line("profile", "y"))
        out.append(o)
    return out


def main():
    prop, seed, count, path = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    r = random.Random("%s/%s" % (prop, seed))
    scenarios = globals()[prop](r, count)
    with open(path, "w") as f:
        for s in scenarios:
            f.write("\n".join(s) + "\n")


if __name__ == "__main__":
    main()
