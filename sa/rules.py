"""Per-property configuration: specification modules and rule-based parts."""
import os
import os
import pickle
import select
import traceback
from .oblig import Runner, Result

EXPL = ("Value-graph comparison: each probe (client code using the public API) and its specification are turned into "
        "guarded value graphs (all paths merged, loops summarised as sums/quantifiers/sequences over symbolic ranges) "
        "and compared after normalisation; conditions are binary decision diagrams.")


def known_findings(here, pid):
    out = set()
    p = os.path.join(here, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % pid):
                out.add(l.split("construct=")[1].split()[0])
    return out


def work(repo, spec, name):
    r = Runner(repo, spec)
    x = r.one(name, int(r.opts.get("LIMIT", 240)))
    return x, r.analysed, r.nodes


def forked(jobs):
    """one process per obligation, so that none is affected by the tables or limits of another"""
    width = int(os.environ.get("SA_JOBS", 0) or min(6, os.cpu_count() or 1))
    if os.environ.get("SA_DEBUG") == "2":
        return [work(*j) for j in jobs]
    out = [None] * len(jobs)
    todo, live = list(range(len(jobs)))[::-1], {}
    while todo or live:
        while todo and len(live) < width:
            i = todo.pop()
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(rd)
                    r, fs, nn = work(*jobs[i])
                    data = pickle.dumps((r.name, r.verdict, str(r.msg), r.info, sorted(fs), nn))
                    with os.fdopen(wr, "wb") as f:
                        f.write(data)
                    code = 0
                except BaseException:
                    if os.environ.get("SA_DEBUG"):
                        traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(wr)
            live[rd] = (i, pid, [])
        for rd in select.select(list(live), [], [])[0]:
            b = os.read(rd, 1 << 20)
            if b:
                live[rd][2].append(b)
                continue
            i, pid, parts = live.pop(rd)
            os.close(rd)
            os.waitpid(pid, 0)
            try:
                n, v, m, info, fs, nn = pickle.loads(b"".join(parts))
                out[i] = (Result(n, v, m, info), set(fs), nn)
            except Exception:
                out[i] = (Result(jobs[i][2], "U", "the analysis of this obligation ended early"), set(), 0)
    return out


def check(pid, repo, here, only=None):
    results, fns, nodes = [], set(), 0
    spec = os.path.join(here, "spec", pid.lower() + ".py")
    if os.path.exists(spec):
        names = [n for n in Runner(repo, spec).names() if not only or n in only]
        for r, fs, nn in forked([(repo, spec, n) for n in names]):
            results.append(r)
            fns |= fs
            nodes += nn
    from . import extra
    f = getattr(extra, "rule_" + pid, None)
    if f is not None:
        rs, fs, nn = f(repo, here, only)
        results += rs
        fns |= fs
        nodes += nn
    return {"results": results, "functions": fns, "nodes": nodes, "explanation": EXPL}
