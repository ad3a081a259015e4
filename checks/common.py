"""Runner shared by every check: floors, known findings, evidence, verdict."""
import collections
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import front
from front import Broken
import sim

KNOWN = os.path.join(front.VERIF, "known_findings.txt")


class Result:
    def __init__(self):
        self.violations = []      # dict(file, function, line, message, ...)
        self.stats = {}
        self.samples = []
        self.functions = set()
        self.obligations = 0
        self.notes = []
        self.broken = []

    def floor(self, what, have, least):
        """an analysis that matched (almost) nothing is broken, not green"""
        self.stats[what] = have
        if have < least:
            self.broken.append("floor: %s is %d, expected at least %d" % (what, have, least))

    def add(self, fn, line, message, file=None, **kw):
        v = {"file": file or fn.file, "function": fn.name if fn is not None else "", "line": line, "message": message}
        v.update(kw)
        self.violations.append(v)

    def add_rule(self, rule):
        self.violations += list(rule.found.values())

    def add_sim(self, s, label):
        self.stats[label + ": functions analysed"] = len(s.fns)
        self.stats[label + ": function summaries"] = len(s.done)
        self.stats[label + ": abstract block states"] = s.steps
        self.functions |= s.fns
        self.violations += list(s.rule.found.values())


def load_known(pid):
    res = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if not ln.startswith("KNOWN-FINDING property=%s " % pid):
                continue
            rest = ln.split("key=", 1)[1]
            key, _, desc = rest.partition(" -- ")
            res[key.strip()] = desc.strip()
    return res


def vkey(v):
    return "%s:%s:%s" % (v["file"], v["function"], v["message"])


def main(pid, level, check, technique, assumptions=()):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    res = Result()
    try:
        prog = front.build_model()
        ix = sim.Index(prog)
        check(prog, ix, res, tier)
    except Broken as e:
        res.broken.append(str(e))
    except Exception:
        traceback.print_exc()
        print("analysis-broken: property=%s internal error" % pid)
        return 2
    if res.broken and not res.violations:
        print("analysis-broken: property=%s %s" % (pid, "; ".join(res.broken)))
        return 2
    known = load_known(pid)
    new, old = {}, {}
    for v in res.violations:
        k = vkey(v)
        (old if k in known else new).setdefault(k, []).append(v)
    os.makedirs(os.path.join(front.VERIF, "evidence"), exist_ok=True)
    cov = {
        "explanation": technique,
        "translation_units": len(prog.tus),
        "functions_in_program": len(prog.funcs),
        "functions_analysed": len(res.functions),
        "measured": res.stats,
        "samples": res.samples[:40],
    }
    if level == "proof":
        pass
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": cov, "assumptions": list(assumptions) + res.notes,
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
        "known_findings": sorted(old),
    }
    with open(os.path.join(front.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for k in sorted(old):
        v = old[k][0]
        print("KNOWN-FINDING: property=%s %s:%d %s: %s" % (pid, v["file"], v["line"], v["function"], v["message"]))
    if not new:
        print("OK property=%s %s" % (pid, " ".join("%s=%s;" % x for x in sorted(res.stats.items()))))
        return 0
    rp = os.path.join(front.VERIF, "evidence", pid + ".violation.json")
    with open(rp, "w") as f:
        json.dump([v for vs in new.values() for v in vs], f, indent=1, sort_keys=True)
    for k in sorted(new):
        v = new[k][0]
        print("%s:%d: %s: %s" % (v["file"], v["line"], v["function"], v["message"]))
        if v.get("via"):
            print("    via " + " > ".join(v["via"][-6:]))
        if v.get("path"):
            print("    branches at lines " + " ".join(map(str, v["path"][-24:])))
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1
