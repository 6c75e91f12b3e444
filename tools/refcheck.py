"""Runs the checks on edits that keep the behaviour (tools/refactors/*.py): each has to stay quiet.
usage: refcheck.py [-t] [-c C01,C02] [name-prefix ...]     (-t also runs the repository's tests on each edit)"""
import ast, glob, json, os, re, shutil, subprocess, sys, tempfile, textwrap
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}


def refactor(name, file, *edits):
    """edits: (qualified function, new source) or (old text, new text) pairs"""
    assert name not in R, name
    R[name] = (file, edits)


def span(src, q):
    node = ast.parse(src)
    for part in q.split("."):
        node = [x for x in node.body if isinstance(x, (ast.ClassDef, ast.FunctionDef)) and x.name == part][-1]
    return node.lineno - 1 - len(node.decorator_list), node.end_lineno, node.col_offset


def loosely(src, a, b):
    """old text matched line by line, without indentation, blank lines and comments"""
    want = [x.strip() for x in a.split("\n") if x.strip()]
    lines = src.split("\n")
    have = [(i, x.strip()) for i, x in enumerate(lines) if x.strip() and not x.strip().startswith("#")]
    for k in range(len(have)):
        if [x for _, x in have[k:k + len(want)]] == want:
            i, j = have[k][0], have[k + len(want) - 1][0]
            old = lines[i][:len(lines[i]) - len(lines[i].lstrip())]
            return "\n".join(lines[:i] + [textwrap.indent(textwrap.dedent(b).strip("\n"), old)] + lines[j + 1:])
    raise AssertionError("not found: " + a)


def apply(src, edits):
    for a, b in edits:
        if re.fullmatch(r"[\w.]+", a):
            i, j, col = span(src, a)
            lines = src.split("\n")
            new = textwrap.indent(textwrap.dedent(b).strip("\n"), " " * col)
            src = "\n".join(lines[:i] + [new] + lines[j:])
        elif a in src and not b.startswith("\n"):
            src = src.replace(a, b, 1)
        else:
            src = loosely(src, a, b)
    ast.parse(src)
    return src


def load():
    for f in sorted(glob.glob(H + "/tools/refactors/*.py")):
        exec(compile(open(f).read(), f, "exec"), {"refactor": refactor})


def check(repo, c):
    p = subprocess.run([sys.executable, "check.py", c], cwd=H, env=dict(os.environ, SA_REPO=repo, SA_DEBUG="1", SA_JOBS="2"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    m = re.search(r"(\d+) undecided", p.stdout)
    bad = [l[:int(os.environ.get("W", "230"))] for l in p.stdout.split("\n") if l.startswith("FAIL") or "Error" in l and not l.startswith(("ok", "??"))]
    und = [l[:int(os.environ.get("W", "230"))] for l in p.stdout.split("\n") if l.startswith("??")]
    return c, p.returncode, bad, und


def functions(src):
    out = {}
    for c in ast.parse(src).body:
        for f in c.body if isinstance(c, ast.ClassDef) else [c]:
            if isinstance(f, ast.FunctionDef):
                out[(c.name + "." if c is not f else "") + f.name] = ast.dump(f)
    return out


def concerned(c, a, b):
    """does the check analyse a function that differs"""
    fa, fb = functions(a), functions(b)
    d = {n for n in fa if fa[n] != fb.get(n)}
    try:
        e = json.load(open(H + "/evidence/%s.json" % c))
    except OSError:
        return True
    return bool(d & set(e["coverage"].get("functions_analysed", d)))


def main():
    a = sys.argv[1:]
    tests = "-t" in a
    a = [x for x in a if x != "-t"]
    checks = [c["property"] for c in json.load(open(H + "/MANIFEST.json"))["checks"]]
    if "-c" in a:
        i = a.index("-c")
        checks = a[i + 1].split(",")
        a = a[:i] + a[i + 2:]
    load()
    names = [n for n in R if not a or any(n.startswith(x) for x in a)]
    with ThreadPoolExecutor(4) as ex:
        base = {c: set(x.split()[1] for x in u) for c, _, _, u in ex.map(lambda c: check("/repo", c), checks)}
    for n in names:
        file, edits = R[n]
        w = tempfile.mkdtemp(prefix="ref_")
        try:
            shutil.copytree("/repo", w + "/repo", ignore=shutil.ignore_patterns(".git") if not tests else None)
            p = w + "/repo/" + file
            s = apply(open(p).read(), edits)
            open(p, "w").write(s)
            msg = ""
            if tests:
                t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], cwd=w + "/repo",
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                msg = t.stdout.strip().split("\n")[-1]
            sel = [c for c in checks if c in ("C34", "C35", "C36") or concerned(c, open("/repo/" + file).read(), s)]
            with ThreadPoolExecutor(4) as ex:
                rs = list(ex.map(lambda c: check(w + "/repo", c), sel))
            alarms = [r for r in rs if r[1] != 0]
            und = {r[0]: [x for x in r[3] if x.split()[1] not in base[r[0]]] for r in rs}
            print("%s %s %s" % ("ALARM" if alarms else "quiet", n, msg))
            for c, rc, bad, _ in alarms:
                print("   %s rc=%s %s" % (c, rc, " | ".join(bad[:3])))
            for c, u in und.items():
                for x in u[:3]:
                    print("   %s new undecided: %s" % (c, x))
            sys.stdout.flush()
        finally:
            shutil.rmtree(w)


if __name__ == "__main__":
    main()
