#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decide one property of the
tree in /repo from its source.

exit 0: no violation found; exit 1: 'VIOLATION property=.. replay=..' lines;
anything else: the analysis itself could not run."""
import argparse
import ast
import json
import multiprocessing
import os
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa import specs as S            # noqa: E402
from sa.repo import Repo, mangle             # noqa: E402
from sa import closure as C          # noqa: E402
from sa import rules as R            # noqa: E402

KNOWN_FILE = os.path.join(HERE, "KNOWN_FINDINGS")
_STATE = {}


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if not line.startswith("known: "):
                continue
            parts = line[7:].split(" ", 2)
            if parts[0] == "property=" + prop:
                out[parts[1][len("key="):]] = parts[2]
    return out


EFFECTS = {
    "P18": "changes an argument, or the object it is called on,",
    "P19": "sets or leaves the error indicator",
    "P20": "owns or drops a reference",
    "P22": "leaves a changed global, class or argument behind",
}
NOFAST = bool(os.environ.get("XBOA_NOFAST"))


def run_spec(job):
    import threading
    i, minlevel = job
    box = {}
    sp = _STATE["specs"][i]

    def work():
        t0 = time.time()
        try:
            v = S.check_spec(_STATE["repo"], sp, nodes=_STATE["nodes"],
                             secs=_STATE["secs"], fast=_STATE["fast"],
                             minlevel=minlevel)
        except Exception as e:       # the engine, not the repository
            v = S.Verdict(sp, "undecided", "engine: %s: %s" % (
                type(e).__name__, e), sp.target, sp.target)
        v.secs = time.time() - t0
        box["v"] = v
    threading.stack_size(256*1024*1024)
    t = threading.Thread(target=work)
    t.start()
    t.join()
    v = box["v"]
    return i, v.status, v.detail, v.where, v.secs, v.nodes, \
        getattr(v, "inlined", []), getattr(v, "level", None), \
        getattr(v, "kept", []), v.aspects


def check_specs(repo, prop, tier):
    every = S.load(repo)
    mine = [i for i, s in enumerate(every) if prop in s.props]
    quick = tier == "quick"
    _STATE.update(specs=every, repo=repo, nodes=400000 if quick else 1500000,
                  secs=40 if quick else 200, fast=quick and not NOFAST)
    if not mine:
        return every, [], [], [], 0
    S.private_vocab(repo)
    res = run_jobs([(i, 0) for i in range(len(every))])
    # a private helper may change together with its callers: what counts is
    # what the functions that use it do
    bad = [r for r in res if r[1] == "differs" and
           S.private(every[r[0]].target)]
    if bad:
        users = {}
        for r in bad:
            q = every[r[0]].target
            users[r[0]] = callers(repo, every, q)
        jobs = sorted(set(u for us in users.values() for u in us))
        again = {r[0]: r for r in run_jobs([(u, 1) for u in jobs])}
        out = []
        for r in res:
            us = users.get(r[0])
            if us and all(again[u][1] == "equal" and
                          every[r[0]].target not in again[u][8]
                          for u in us):
                r = r[:1] + ("benign", "changed together with its callers: "
                             + ", ".join(every[u].target.split(":")[1]
                                         for u in us)) + r[3:]
            out.append(r)
        res = out
    ours = sorted(r for r in res if r[0] in mine)
    # what an effect breaks wherever it is
    side = [(every[r[0]].target, r[3], text) for r in res
            if r[1] == "differs" and r[0] not in mine
            for pr, text in r[9] if pr == prop]
    failing = {every[r[0]].target: r for r in res
               if r[1] == "differs" and r[0] not in mine}
    through = reached(repo, every, failing, ours) if failing else []
    return every, ours, through, side, len(res)


def reached(repo, every, failing, ours):
    """functions of the property that show the change of a failing one"""
    near = C.coarse(repo, every, failing)
    mine = [r[0] for r in ours if every[r[0]].target in near]
    if not mine:
        return []
    idx = {every[i].target: i for i in range(len(every))}
    graph = dict(run_jobs([("calls", idx[q]) for q in near]))
    back = {}
    for q, cs in graph.items():
        for c in cs:
            back.setdefault(c, set()).add(q)

    def above(q):
        seen, stack = {q}, [q]
        while stack:
            for u in back.get(stack.pop(), ()):
                if u not in seen:
                    seen.add(u)
                    stack.append(u)
        return seen

    def below(q):
        seen, stack = {q}, [q]
        while stack:
            for u in graph.get(stack.pop(), ()):
                if u not in seen:
                    seen.add(u)
                    stack.append(u)
        return seen
    jobs = []
    for g in failing:
        up = above(g)
        for i in mine:
            f = every[i].target
            if f in up:
                path = frozenset((up & below(f)) - {f})
                jobs.append(("effect", i, g, path))
    return [r for r in run_jobs(jobs) if r[2]]


def closure_job(job):
    import threading
    box = {}
    vocab = S.default_vocab(_STATE["repo"]) | \
        S.private_vocab(_STATE["repo"])
    sp = _STATE["specs"][job[1]]

    def work():
        try:
            if job[0] == "calls":
                box["r"] = (sp.target, C.callees(_STATE["repo"], sp, vocab))
            else:
                box["r"] = (job[1], job[2], C.effect(
                    _STATE["repo"], sp, set(job[3]), {job[2]}, vocab))
        except Exception:
            box["r"] = (sp.target, set()) if job[0] == "calls" else \
                (job[1], job[2], None)
    threading.stack_size(256*1024*1024)
    t = threading.Thread(target=work)
    t.start()
    t.join()
    return box["r"]


def any_job(job):
    return closure_job(job) if isinstance(job[0], str) else run_spec(job)


def run_jobs(jobs):
    res = []
    if not jobs:
        return res
    n = min(8, len(jobs))
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(n, maxtasksperchild=50) as pool:
        for r in pool.imap_unordered(any_job, jobs, 2):
            res.append(r)
    return res


def callers(repo, every, qual):
    """contracts of public functions that use a private one, directly or
    through other private ones (by name, in the same module)"""
    mod = qual.split(":")[0]
    names = {qual.split(".")[-1].split(":")[-1]}
    idx = {i: repo.func(s.target) for i, s in enumerate(every)
           if s.target.startswith(mod + ":")}
    out = set()
    changed = True
    while changed:
        changed = False
        for i, t in idx.items():
            if t is None or i in out:
                continue
            if getattr(t, "ghost", False):
                continue
            used = set()
            for n in ast.walk(t.node):
                if isinstance(n, ast.Name):
                    used.add(n.id)
                elif isinstance(n, ast.Attribute):
                    used.add(mangle(n.attr, t.cls.name) if t.cls and
                             n.attr.startswith("__") else n.attr)
            if not (used & names):
                continue
            if S.private(every[i].target):
                nm = t.name
                if nm not in names:
                    names.add(nm)
                    changed = True
            else:
                out.add(i)
                changed = True
    return sorted(out)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    repo = Repo(os.environ.get("XBOA_REPO"))
    known = known_findings(prop)
    findings = []         # (key, where, text)
    undecided = []
    analysed = []
    rules_used = []
    counts = {}
    inlined = set()
    # 1. contracts compared as value graphs
    specs, res, through, side, n_all = check_specs(repo, prop, tier)
    n_eq = n_nodes = n_same = 0
    for i, status, detail, where, secs, nodes, inl, level, _k, _a in res:
        sp = specs[i]
        n_nodes += nodes
        inlined |= set(inl)
        if a.v:
            print("  %-9s %5.1fs %s %s" % (status, secs, sp.target,
                                           "" if status == "equal" else
                                           detail[:300]))
        if status == "equal":
            n_eq += 1
            n_same += level == -1
            analysed.append("contract " + sp.target)
        elif status == "differs":
            analysed.append("contract " + sp.target)
            findings.append(("contract:" + sp.target, where, detail))
        elif status == "benign":
            analysed.append("contract " + sp.target)
            undecided.append(("contract:" + sp.target, detail))
        elif status == "missing":
            if S.private(sp.target):
                undecided.append(("contract:" + sp.target,
                                  "no such function any more"))
            else:
                findings.append(("contract:" + sp.target, sp.target,
                                 "the public function is gone"))
        else:
            undecided.append(("contract:" + sp.target, detail))
    for i, g, text in through:
        findings.append(("contract:%s through %s" % (specs[i].target, g),
                         repo.func(g).where + " " + g, text))
    for q, where, text in side:
        findings.append(("effect:" + q, where, text))
    if prop in EFFECTS:
        rules_used.append("effect: no function of the library " +
                          EFFECTS[prop] + " where its reference does not")
        counts["functions_effects"] = n_all
    if res:
        rules_used.append("contract: the value graph of the function equals "
                          "the value graph of its reference")
        counts["contracts"] = len(res)
        counts["contracts_same_text"] = n_same
        counts["contracts_proved_equal"] = n_eq
        counts["value_graph_nodes"] = n_nodes
        counts["helpers_expanded"] = len(inlined)
        if n_eq == 0 and not findings:
            print("ANALYSIS-BROKEN property=%s no contract decided" % prop)
            for k, w in undecided[:20]:
                print("  %s: %s" % (k, w[:200]))
            return 2
    # 2. rule families
    for name, props, floor, text, fn in R.load_all():
        if prop not in props:
            continue
        rep = fn(repo, prop) if fn.__code__.co_argcount > 1 else fn(repo)
        counts["instances_" + name.replace("-", "_")] = len(rep.instances)
        rules_used.append("%s: %s" % (name, " ".join(text.split())))
        analysed += ["%s %s" % (name, c) for c in rep.instances]
        for f in rep.findings:
            findings.append((name + ":" + f.construct, f.where, f.text))
        for c, why in rep.undecided:
            undecided.append((name + ":" + c, why))
        if a.v:
            print("  rule %-24s %4d instances %3d findings %3d undecided" % (
                name, len(rep.instances), len(rep.findings),
                len(rep.undecided)))
        if len(rep.instances) + len(rep.undecided) < floor and \
                not rep.findings:
            print("ANALYSIS-BROKEN property=%s rule %s found %d instances "
                  "(at least %d are in the tree)" % (
                      prop, name, len(rep.instances), floor))
            return 2
    # 3. report
    findings.sort()
    new = []
    for key, where, text in findings:
        key = key.replace(" ", "_")
        if key in known:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, key,
                                                         known[key]))
        else:
            new.append((key, where, text))
    for key, why in sorted(undecided):
        print("UNDECIDED %s: %s" % (key, why[:160]))
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join("evidence", prop + ".violations.txt")
    rp = os.path.join(HERE, replay)
    if new:
        with open(rp, "w") as f:
            for key, where, text in new:
                f.write("%s\n  at %s\n  %s\n\n" % (key, where, text))
    elif os.path.exists(rp):
        os.remove(rp)
    secs = time.time() - t0
    ev = {
        "property": prop, "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": dict(counts, explanation=(
            "Static analysis of the source of /repo as it is now; nothing "
            "is executed. Rules: " + "; ".join(rules_used)),
            analysed=sorted(analysed),
            undecided=[{"construct": k, "why": w[:300]}
                       for k, w in sorted(undecided)],
            n_analysed=len(analysed)),
        "violations": [{"construct": k, "where": w, "detail": t[:1500]}
                       for k, w, t in new],
        "wall_s": round(secs, 2),
    }
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d constructs analysed, %d undecided, %d violations, %.1f s"
          % (prop, len(analysed), len(undecided), len(new), secs))
    for r in rules_used:
        print("  rule " + r[:200])
    for key, where, text in new:
        print("  %s at %s: %s" % (key, where, text[:400]))
    for key, where, text in new[:40]:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
