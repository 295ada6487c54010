#!/usr/bin/env python3
"""Measures false alarms of the rules: applies the edits of refactor.py one
at a time, in memory, and prints what a rule says about the module.

refactor_rules.py [every-nth]
"""
import multiprocessing
import os
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import refactor as F                  # noqa: E402
from sa import rules as R             # noqa: E402
from sa import specs as S             # noqa: E402
from sa.repo import Repo              # noqa: E402


def one(job):
    kname, target, k = job
    repo0 = F.G["repo"]
    fi = repo0.func(target)
    try:
        res = F.KINDS[kname](fi.node, F.context(fi))
        src = F.apply(fi, res[k])
        F.ast.parse(src)
    except Exception as e:
        return job, "bad", []
    repo = Repo(overlay={fi.module.rel: src})
    out = []
    for name, props, floor, text, fn in R.load_all():
        if name in ("released", "value"):
            continue
        try:
            rep = fn(repo) if fn.__code__.co_argcount == 1 else fn(repo, "P21")
        except Exception as e:
            out.append((name, "engine", "%s %s" % (type(e).__name__, e)))
            continue
        if len(rep.instances) < floor:
            out.append((name, "floor", len(rep.instances)))
        for f in rep.findings:
            out.append((name, f.construct, f.text))
    out = [x for x in out if x not in F.G.get("known", ())]
    return job, "ok", out


def main():
    repo = Repo()
    S.load(repo)
    F.G["repo"] = repo
    # what the rules say of the tree as it is
    known = []
    for name, props, floor, text, fn in R.load_all():
        if name in ("released", "value"):
            continue
        rep = fn(repo) if fn.__code__.co_argcount == 1 else fn(repo, "P21")
        known += [(name, f.construct, f.text) for f in rep.findings]
    F.G["known"] = known
    nth = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    jobs = []
    for s in S.load(repo):
        fi = repo.func(s.target)
        if fi is None or getattr(fi, "ghost", False) or \
                fi.module.name == "cxx":
            continue
        for kn, fn in sorted(F.KINDS.items()):
            try:
                res = fn(fi.node, F.context(fi))
            except Exception as e:
                continue
            jobs += [(kn, s.target, i) for i in range(len(res))]
    jobs = jobs[::nth]
    print(len(jobs), "edits", flush=True)
    n = {}
    with multiprocessing.get_context("fork").Pool(
            7, maxtasksperchild=50) as pool:
        for job, st, out in pool.imap_unordered(one, jobs, 4):
            w = st if not out else "ALARM"
            n[w] = n.get(w, 0) + 1
            for o in out:
                print(job, o, flush=True)
    print(n)


if __name__ == "__main__":
    main()
