"""Builds seeded/<id>/ from tools/seeds/*.py and confirms each one in a scratch copy of /repo.
usage: mkseeds.py [id ...]     (with no argument: every seed that is missing)"""
import os, subprocess, sys, shutil, json, glob, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}


def seed(sid, prop, file, edits, demo, needs, breaks):
    assert sid not in SEEDS, sid
    SEEDS[sid] = (prop, file, edits, demo, needs, breaks)


DEMO = '''#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
cd_repo="$PWD"
PYTHONPATH="$cd_repo" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$t" SCRATCH="$t" /opt/venv/bin/python "$d/demo.py"
rc=$?
rm -rf "$t"
exit $rc
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build(sid):
    prop, file, edits, demo, needs, breaks = SEEDS[sid]
    w = tempfile.mkdtemp(prefix="seed_")
    r = w + "/repo"
    shutil.copytree("/repo", r, symlinks=True)
    try:
        p = r + "/" + file
        s = open(p).read()
        for old, new in edits:
            if s.count(old) != 1:
                return "edit text occurs %d times: %r" % (s.count(old), old[:60])
            s = s.replace(old, new)
        d = H + "/seeded/" + sid
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(demo.lstrip("\n"))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        x = sh("bash %s/demo.sh" % d, r)
        if x.returncode:
            return "demo fails on the unchanged tree:\n" + x.stdout[-600:]
        open(p, "w").write(s)
        x = sh("git diff", r)
        open(d + "/patch.diff", "w").write(x.stdout)
        x = sh("bash %s/demo.sh" % d, r)
        if x.returncode == 0:
            return "demo passes with the patch"
        why = x.stdout.strip().split("\n")[-1]
        if "Error" in why and "AssertionError" not in why:
            print("   note:", why[:150])
        x = sh("PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -4", r)
        if "failed" in x.stdout or "66 passed" not in x.stdout:
            return "tests: " + x.stdout[-400:]
        return None
    finally:
        shutil.rmtree(w)


for f in sorted(glob.glob(H + "/tools/seeds/*.py")):
    exec(compile(open(f).read(), f, "exec"), {"seed": seed})
if __name__ == "__main__":
    ids = sys.argv[1:] or [s for s in SEEDS if not os.path.exists(H + "/seeded/%s/patch.diff" % s)]
    for sid in ids:
        e = build(sid)
        if e:
            shutil.rmtree(H + "/seeded/" + sid, ignore_errors=True)
        print(sid, "OK" if not e else "DROPPED " + e)
