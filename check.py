#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's current working tree
check.py --replay PROPERTY FILE         run one recorded script again and show the violated clauses

1. The design: TLC explores the models of mc/ that belong to the property.
2. The binding: the driver, built from /repo's working tree, performs generated (and, where a model
   enumerates them, model-generated) histories on the real library; TLC then checks every recorded step
   against the specification (spec/Trace.tla).

Exit 0: held on everything explored; 1 with a VIOLATION line: broken; 2: the check itself failed.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
PY = "/opt/veriftools/pyvenv/bin/python3"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CLASSES = os.path.join(HERE, "build", "java")
OVERRIDES = "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:scs.RealOverrides"

sys.path.insert(0, HERE)
from plan import PLAN, MODELS                       # noqa: E402


class Broken(Exception):
    """the check could not do its work"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_overrides():
    src = os.path.join(HERE, "java", "scs", "RealOverrides.java")
    cls = os.path.join(CLASSES, "scs", "RealOverrides.class")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return
    os.makedirs(CLASSES, exist_ok=True)
    p = sh(["javac", "-cp", JARS, "-d", CLASSES, src])
    if p.returncode:
        raise Broken("javac failed\n" + p.stdout)


def build_driver(out):
    p = sh(["bash", os.path.join(HERE, "harness", "build.sh"), out], env=dict(os.environ, REPO=REPO))
    if p.returncode:
        raise Broken("the driver does not build against %s\n%s" % (REPO, p.stdout[-3000:]))
    return os.path.join(out, "driver")


def java(work, cfg, module, env, timeout, opts=(), workers="1", heap="2500m"):
    os.makedirs(work, exist_ok=True)
    e = dict(os.environ)
    e.update(env)
    cmd = ["java", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap,
           "-DTLA-Library=" + os.path.join(HERE, "spec") + ":" + os.path.join(HERE, "mc"), OVERRIDES,
           "-cp", CLASSES + ":" + JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", workers,
           "-metadir", os.path.join(work, "states"), *opts, "-config", cfg, module]
    try:
        p = sh(cmd, env=e, timeout=timeout, cwd=work)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        raise Broken("TLC took more than %d s on %s" % (timeout, module)) from x
    shutil.rmtree(os.path.join(work, "states"), ignore_errors=True)
    return rc, out


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def run_model(name, tier, work, tour):
    """explore one model of mc/; a design that breaks its own property is an error of ours"""
    path = os.path.join(HERE, "mc")
    cfg = os.path.join(path, "%s.%s.cfg" % (name, tier))
    if not os.path.exists(cfg):
        cfg = os.path.join(path, name + ".cfg")
    module = os.path.join(path, re.sub(r"_.*", "", name) + ".tla")
    t = time.time()
    w = os.path.join(work, "mc-" + name)
    rc, out = java(w, cfg, module, {"PROP": "ALL", "TRACE": "/dev/null"}, 840,
                   workers="1" if tour else "2", heap="3g")
    gen, distinct = counts(out)
    if rc != 0 or "No error has been found" not in out:
        raise Broken("the model %s does not have its properties\n%s" % (name, out[-4000:]))
    return {"model": name, "generated": gen, "distinct": distinct, "s": round(time.time() - t, 1), "out": out}


def lay_tours(model, kind, seed, shards, work):
    """scripts that take every transition of a model that TLC has explored"""
    edges = os.path.join(work, "mc-" + model["model"], "edges.txt")
    with open(edges, "w") as f:
        f.write("".join(ln + "\n" for ln in model["out"].splitlines() if ln.startswith('"EDGE|')))
    out = os.path.join(work, "tour-%s-%s" % (model["model"], kind))
    shards *= 1 + model["out"].count('\n"EDGE|') // 60000
    p = sh([PY, os.path.join(HERE, "gen", "tours.py"), kind, edges, str(seed), str(shards), out], cwd=os.path.join(HERE, "gen"))
    if p.returncode:
        raise Broken("no tours through %s\n%s" % (model["model"], p.stdout[-3000:]))
    model["edges"] = int(p.stdout.split()[-1])
    return [x for x in ("%s-%d.txt" % (out, i) for i in range(shards)) if os.path.getsize(x)]


def drive(driver, script, trace):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:malloc_fill_byte=255:max_malloc_fill_size=1000000000:max_allocation_size_mb=2000:"
                                        "allocator_may_return_null=0:handle_abort=0")
    try:
        p = sh([driver, script, trace], env=env, timeout=700)
    except subprocess.TimeoutExpired as x:
        raise Broken("the driver took too long on " + script) from x
    if p.returncode != 0:
        raise Broken("the driver refused %s (%d)\n%s" % (script, p.returncode, p.stdout[-2000:]))


REJECT = re.compile(r'^"REJECT\|(\d+)\|([^|]*)\|(.*)"$', re.M)


def validate(trace, prop, work, timeout=800):
    """-> (rejections [(line, event, clause)], lines consumed, lines)"""
    n = sum(1 for _ in open(trace))
    if n == 0:
        return [], 0, 0
    rc, out = java(work, os.path.join(HERE, "spec", "Trace.cfg"), os.path.join(HERE, "spec", "Trace.tla"),
                   {"TRACE": trace, "PROP": prop}, timeout)
    seen = []
    for m in REJECT.finditer(out):
        r = (int(m.group(1)), m.group(2), m.group(3).replace('\\"', '"'))
        if r not in seen:
            seen.append(r)
    gen, _ = counts(out)
    if "No error has been found" in out and gen == n + 1:
        return seen, n, n
    if "OutOfMemory" in out or "StackOverflow" in out or gen == 0:
        raise Broken("TLC failed on %s\n%s" % (trace, out[-3000:]))
    # the recorded line is outside what the specification can take a step on
    at = max(1, gen)
    why = re.search(r"(?:Error: |exception was a )[^\n]*(?:\n[^\n]*){0,4}", out)
    seen.append((at, "?", "the line is no step of the specification: " + (why.group(0)[:400].replace("\n", " ") if why else "")))
    return seen, at, n


def scenarios(script):
    """the scenarios of a script, in order: (id, text)"""
    out = []
    for ln in open(script):
        if ln.startswith("scenario "):
            out.append([ln.split()[1], []])
        out[-1][1].append(ln)
    return [(a, "".join(b)) for a, b in out]


def scenario_at(trace, line):
    """which scenario of the trace a line belongs to (0-based), and where it starts"""
    k, start = -1, 1
    with open(trace) as f:
        for i, ln in enumerate(f, 1):
            if i > line:
                break
            if ln.startswith('{"e":"scenario"'):
                k, start = k + 1, i
    return k, start


def known_findings():
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    for ln in open(path):
        m = re.match(r"KNOWN property=(\S+) clause=\"([^\"]*)\" scenario=(\S+)\s*(.*)", ln)
        if m:
            out.append(m.groups())
    return out


def shard(job):
    prop, driver, script, work = job
    os.makedirs(work, exist_ok=True)
    trace = os.path.join(work, "trace.nd")
    drive(driver, script, trace)
    t = time.time()
    rejects, done, n = validate(trace, prop, work)
    return {"script": script, "trace": trace, "rejects": rejects, "lines": n, "s": time.time() - t, "work": work}


def generate(prop, seed, count, path):
    p = sh([PY, os.path.join(HERE, "gen", "stimuli.py"), prop, str(seed), str(count), path],
           cwd=os.path.join(HERE, "gen"))
    if p.returncode:
        raise Broken("the generator failed\n" + p.stdout[-3000:])


def tally(trace):
    c = {}
    with open(trace) as f:
        for ln in f:
            m = re.match(r'\{"e":"(\w+)"', ln)
            if m:
                c[m.group(1)] = c.get(m.group(1), 0) + 1
    return c


def confirm(prop, driver, res, work, out_dir):
    """run each rejected scenario again by itself -> list of (replay path, clauses, text)"""
    found = []
    sc = scenarios(res["script"])
    by = {}
    for line, ev, clause in res["rejects"]:
        k, start = scenario_at(res["trace"], line)
        by.setdefault(k, []).append((line - start, ev, clause))
    for k in sorted(by)[:4]:
        ident, text = sc[k]
        path = os.path.join(out_dir, "%s-%s.txt" % (prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
        w = os.path.join(work, "confirm-%d" % k)
        os.makedirs(w, exist_ok=True)
        one = os.path.join(w, "s.txt")
        open(one, "w").write(text)
        drive(driver, one, os.path.join(w, "t.nd"))
        again, _, _ = validate(os.path.join(w, "t.nd"), prop, w)
        clauses = sorted({c for _, _, c in (again or by[k])})
        head = "# property %s, scenario %s; replay: ./check.py --replay %s FILE\n" % (prop, ident, prop)
        head += "".join("# violated: %s\n" % c for c in clauses)
        head += "".join("# line %d (%s): %s\n" % x for x in by[k][:20])
        if not again:
            head += "# seen only in the run of all scenarios of this shard, not when repeated alone\n"
        os.makedirs(out_dir, exist_ok=True)
        open(path, "w").write(head + text)
        found.append((path, clauses, ident))
    return found


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = PLAN[prop]
    per, rounds = plan[tier]
    width = 8
    work = os.path.join(HERE, "work", "%s-%s-%d" % (prop, tier, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    evidence = os.path.join(HERE, "evidence")
    os.makedirs(evidence, exist_ok=True)
    try:
        compile_overrides()
        with cf.ThreadPoolExecutor(width) as pool:
            models = [(pool.submit(run_model, m, tier, work, tour), tour) for m, tour in MODELS[tier].get(prop, [])]
            driver = build_driver(os.path.join(work, "drv"))
            results, mc = [], []
            tours = []
            for m, tour in models:
                mc.append(m.result())
                if tour:
                    tours += lay_tours(mc[-1], tour, seed, width, work)
                del mc[-1]["out"]
            for k in range(rounds):
                if k > 0 and time.time() - t0 > 600:
                    break
                jobs = []
                for i in range(width):
                    s = os.path.join(work, "s-%d-%d.txt" % (k, i))
                    jobs.append((s, "%d.%d.%d" % (seed, k, i), per))
                list(pool.map(lambda j: generate(prop, j[1], j[2], j[0]), jobs))
                scripts = [j[0] for j in jobs] + (tours if k == 0 else [])
                for res in pool.map(shard, [(prop, driver, s, os.path.join(work, "w-%d-%d" % (k, i)))
                                            for i, s in enumerate(scripts)]):
                    res["n"] = len(scenarios(res["script"]))
                    res["events"] = tally(res["trace"])
                    results.append(res)
                if any(r["rejects"] for r in results):
                    break
                if k + 1 < rounds:
                    for r in results:
                        if os.path.exists(r["trace"]) and r is not results[0]:
                            os.unlink(r["trace"])
            found = []
            for res in results:
                if res["rejects"] and len(found) < 4:
                    found += confirm(prop, driver, res, res["work"], os.path.join(evidence, "replay"))
    finally:
        if os.environ.get("KEEP") != "1":
            first = None
            try:
                first = scenarios(os.path.join(work, "s-0-0.txt"))[0][1]
                first_trace = open(os.path.join(work, "w-0-0", "trace.nd")).read(3000)
            except Exception:
                first_trace = ""
            shutil.rmtree(work, ignore_errors=True)

    known = known_findings()
    fresh = []
    for path, clauses, ident in found:
        if all(any(prop == p and c == cl and ident == sc for p, cl, sc, _ in known) for c in clauses):
            print("KNOWN-FINDING: property=%s %s in %s" % (prop, "; ".join(clauses), ident))
        else:
            fresh.append((path, clauses, ident))

    events = {}
    for r in results:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
    lines = sum(r["lines"] for r in results)
    data = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(m["distinct"] for m in mc) + lines + len(results),
            "transitions": sum(m["generated"] for m in mc) + lines,
            "traces_validated_against_impl": sum(r["n"] for r in results),
            "trace_lines_checked": lines,
            "events": events,
            "models": mc,
            "samples": [{"script": (first or "")[:3000], "recorded": first_trace}] if os.environ.get("KEEP") != "1" else [{}],
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(fresh),
    }
    with open(os.path.join(evidence, prop + ".json"), "w") as f:
        json.dump(data, f, indent=1)
    for path, clauses, ident in fresh:
        for c in clauses:
            print("  %s: %s" % (ident, c))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: %d scenarios, %d recorded steps, %d model states, %.1f s: %s" % (
        prop, tier, data["coverage"]["traces_validated_against_impl"], lines, sum(m["distinct"] for m in mc),
        data["wall_s"], "broken" if fresh else "held"))
    return 1 if fresh else 0


def replay(prop, path):
    work = os.path.join(HERE, "work", "replay-%d" % os.getpid())
    os.makedirs(work)
    try:
        compile_overrides()
        driver = build_driver(os.path.join(work, "drv"))
        drive(driver, path, os.path.join(work, "t.nd"))
        rejects, done, n = validate(os.path.join(work, "t.nd"), prop, work)
        lines = open(os.path.join(work, "t.nd")).read().splitlines()
        for line, ev, clause in rejects:
            print("%s\n   %s" % (clause, lines[line - 1][:600]))
        if rejects:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if rejects else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    try:
        if sys.argv[1] == "--setup":
            compile_overrides()
            return 0
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2], os.path.abspath(sys.argv[3]))
        return check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    except Broken as x:
        print("ERROR: %s" % x)
        return 2


if __name__ == "__main__":
    sys.exit(main())
