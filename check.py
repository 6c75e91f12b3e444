#!/usr/bin/env python3
"""check.py ID : decide one property from the current source of /repo; writes evidence/<ID>.json."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(30000)
import threading
threading.stack_size(512 * 1024 * 1024)
REPO = os.environ.get("SA_REPO", "/repo")


def main():
    pid = sys.argv[1]
    only = sys.argv[2:] if len(sys.argv) > 2 else None
    from sa import rules
    t0 = time.time()
    res = rules.check(pid, REPO, HERE, only)
    wall = time.time() - t0
    viol = [r for r in res["results"] if r.verdict == "D"]
    unk = [r for r in res["results"] if r.verdict == "U"]
    known = rules.known_findings(HERE, pid)
    kf = [r for r in viol if r.name in known]
    viol = [r for r in viol if r.name not in known]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replay = os.path.join(HERE, "evidence", pid + ".violation.txt")
    ok = [r for r in res["results"] if r.verdict == "="]
    ev = {
        "property": pid,
        "tier": os.environ.get("VERIF_TIER", "quick"),
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": res["explanation"],
            "obligations": len(res["results"]),
            "discharged": [r.name for r in ok],
            "undecided": [{"obligation": r.name, "why": r.msg[:300]} for r in unk],
            "violated": [{"obligation": r.name, "what": r.msg[:600]} for r in viol],
            "functions_analysed": sorted(res["functions"]),
            "statements_analysed": res["nodes"],
            "details": {r.name: r.info for r in res["results"]},
        },
        "wall_s": round(wall, 2),
        "assumptions": res.get("assumptions", []),
        "violations": len(viol),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in res["results"]:
        print("%s %-28s %6.2fs %s" % ({"=": "ok  ", "D": "FAIL", "U": "??  "}[r.verdict], r.name, r.info.get("seconds", 0), r.msg[:1500]))
    for r in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, r.msg[:300]))
    if viol:
        with open(replay, "w") as f:
            for r in viol:
                f.write("%s\n  %s\n" % (r.name, r.msg))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if os.path.exists(replay):
        os.remove(replay)
    print("held: %d obligations discharged, %d undecided, %.1fs" % (len(ok), len(unk), wall))
    return 0


if __name__ == "__main__":
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    # signals (time limits) need the main thread, so the work runs there when the stack allows it
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except (ValueError, OSError):
        pass
    sys.exit(main())
