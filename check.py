#!/usr/bin/env python3
"""check.py <property id>: decide one property from the current source of /repo."""
import gc
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
gc.disable()


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                head, _, desc = l[len("known: "):].partition(" :: ")
                f = dict(x.split("=", 1) for x in head.split(" ", 1))
                out.append((f["property"], f["key"], desc))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    evf = os.path.join(ev, pid + ".json")
    from lb import facts
    from lb.ctx import Ctx, Result
    from rules import RULES
    r = Result(pid)
    rc = 0
    try:
        RULES[pid](Ctx(tier), r)
    except facts.CannotDecide as e:
        print("cannot decide %s: %s" % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    kn = {(p, k): d for p, k, d in known()}
    new = [v for v in r.violations if (pid, v["key"]) not in kn]
    old = [v for v in r.violations if (pid, v["key"]) in kn]
    cov = {"explanation": r.explain, "tier": tier, "violations": r.violations, "undecided": r.undecided, "known": [v["key"] for v in old],
           "repo": facts.REPO, "source_key": facts.last_key(), "samples": r.samples}
    cov.update(r.counts)
    out = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 2)}
    with open(evf, "w") as f:
        json.dump(out, f, indent=1, sort_keys=True, default=str)
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[(pid, v["key"])] or v["what"]))
    if new:
        rp = os.path.join(ev, "replay-%s.json" % pid)
        with open(rp, "w") as f:
            json.dump({"property": pid, "rule": r.explain, "violations": new, "how": "python3 check.py %s re-derives this from the source" % pid}, f, indent=1, default=str)
        for v in new:
            w = v.get("where") or {}
            print("%s%s" % (v["what"], (" [%s %s:%s]" % (w.get("function"), w.get("file"), w.get("line"))) if w else ""))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    elif rc == 0:
        print("%s: held on everything analysed (%s)%s" % (pid, ", ".join("%s %s" % (v, k) for k, v in sorted(r.counts.items())),
                                                          "; undecided: %d" % len(r.undecided) if r.undecided else ""))
        for u in r.undecided:
            print("undecided: " + u[:400])
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
