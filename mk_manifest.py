#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and plan.py"""
import json, os
from plan import PLAN, MODELS
here = os.path.dirname(os.path.abspath(__file__))
checks = []
for ln in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(ln)
    i = p["id"]
    ms = list(dict.fromkeys(m for m, _ in MODELS["quick"].get(i, [])))
    tours = any(t for _, t in MODELS["quick"].get(i, []))
    checks.append({
        "property": i,
        "quick_cmd": "./check.py %s quick" % i,
        "thorough_cmd": "./check.py %s thorough" % i,
        "technique": "TLA+ specification; TLC checks recorded runs of the real code against it"
                     + (" and explores the design models " + ", ".join(ms) if ms else ""),
        "level": "model_checking",
        "level_note": ("Every step the real library takes on generated histories (quick: %d, thorough: up to %d) is checked by TLC "
                       "against the TLA+ specification in exact fixed-point arithmetic" %
                       (PLAN[i]["quick"][0] * 8 * PLAN[i]["quick"][1], PLAN[i]["thorough"][0] * 8 * PLAN[i]["thorough"][1]))
                      + ("; TLC explores the design within the bounds of %s" % ", ".join(ms) if ms else "")
                      + ("; every transition or case of the models that have a tour is driven through the real library" if tours else "")
                      + ". Trusts TLC with the Java module override for real arithmetic, the driver that records, g++ and ASan; "
                        "beyond the models' transitions, histories are sampled, not enumerated, on the implementation side.",
    })
out = {
    "version": 1,
    "setup_cmd": "./check.py --setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: the driver observes through public interfaces and derived classes.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
