#!/usr/bin/env python3
"""Measures detection: plants one small fault at a time (in memory) into every
function that has a reference and prints the faults no contract notices.

mutate.py [-k kind,...] [-p pattern] [-n every-nth] [-o file]
"""
import ast
import copy
import multiprocessing
import os
import sys
import time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.setrecursionlimit(20000)
from sa import specs as S            # noqa: E402
from sa.repo import Repo             # noqa: E402
from refactor import apply           # noqa: E402

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE,
       ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.Mod: ast.FloorDiv,
       ast.FloorDiv: ast.Div}


def sites(f):
    """(kind, description, edit) with edit(copy's node list index)"""
    nodes = list(ast.walk(f))
    local = set(a.arg for a in f.args.args)
    for n in nodes:
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            local.add(n.id)
    local = sorted(local - {"self"})
    out = []

    def add(kind, i, fn, text):
        out.append((kind, i, fn, text))
    doc = f.body[0].value if f.body and isinstance(f.body[0], ast.Expr) and \
        isinstance(f.body[0].value, ast.Constant) else None
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for c in CMP.get(type(n.ops[0]), []):
                add("cmp", i, lambda x, c=c: x.ops.__setitem__(0, c()),
                    "%s -> %s" % (ast.unparse(n), c.__name__))
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            if not (isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod)
                    and isinstance(n.left, ast.Constant)):
                c = BIN[type(n.op)]
                add("bin", i, lambda x, c=c: setattr(x, "op", c()),
                    "%s -> %s" % (ast.unparse(n)[:60], c.__name__))
        if isinstance(n, ast.BoolOp):
            c = ast.Or if isinstance(n.op, ast.And) else ast.And
            add("bool", i, lambda x, c=c: setattr(x, "op", c()),
                ast.unparse(n)[:80])
            add("boolarg", i, lambda x: x.values.pop(),
                ast.unparse(n)[:80])
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub,
                                                            ast.Not)):
            add("unary", i, "operand", ast.unparse(n)[:80])
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add("negate", i, lambda x: setattr(
                x, "test", ast.UnaryOp(ast.Not(), x.test)),
                ast.unparse(n.test)[:80])
        if isinstance(n, ast.Constant) and n is not doc:
            if isinstance(n.value, bool):
                add("const", i, lambda x: setattr(x, "value", not x.value),
                    repr(n.value))
            elif isinstance(n.value, (int, float)):
                add("const", i, lambda x: setattr(x, "value", x.value + 1),
                    repr(n.value))
            elif isinstance(n.value, str) and n.value:
                add("str", i, lambda x: setattr(x, "value", "z" + x.value),
                    repr(n.value)[:60])
            elif n.value is None:
                add("const", i, lambda x: setattr(x, "value", 0), "None")
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred)
                                            for a in n.args[:2]) and \
                    ast.dump(n.args[0]) != ast.dump(n.args[1]):
                def sw(x):
                    x.args[0], x.args[1] = x.args[1], x.args[0]
                add("argswap", i, sw, ast.unparse(n)[:80])
            if n.keywords:
                add("dropkw", i, lambda x: x.keywords.pop(),
                    ast.unparse(n)[:80])
            if len(n.args) >= 2:
                add("droparg", i, lambda x: x.args.pop(),
                    ast.unparse(n)[:80])
            if isinstance(n.func, ast.Name) and n.func.id in (
                    "float", "int", "list", "abs", "str", "dict", "copy",
                    "deepcopy", "sorted", "set", "tuple", "round", "min",
                    "max", "reversed") and len(n.args) == 1 or \
                    isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "copy", "deepcopy") and len(n.args) == 1:
                add("uncall", i, "arg", ast.unparse(n)[:80])
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                n.id in local and len(local) > 1:
            o = local[(local.index(n.id) + 1) % len(local)]
            add("var", i, lambda x, o=o: setattr(x, "id", o),
                "%s -> %s" % (n.id, o))
        if isinstance(n, ast.Slice):
            for w in ("lower", "upper"):
                if getattr(n, w) is not None:
                    add("slice", i, lambda x, w=w: setattr(x, w, None),
                        ast.unparse(n))
        if isinstance(n, (ast.Break,)):
            add("break", i, "continue", "break -> continue")
        if isinstance(n, ast.Continue):
            add("break", i, "break", "continue -> break")
        if isinstance(n, ast.Return) and n.value is not None:
            add("return", i, lambda x: setattr(x, "value", None),
                ast.unparse(n)[:80])
        for b in ("body", "orelse", "finalbody"):
            lst = getattr(n, b, None)
            if isinstance(lst, list):
                for j, s in enumerate(lst):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign,
                                      ast.Raise, ast.Delete)) and not (
                            isinstance(s, ast.Expr) and
                            isinstance(s.value, ast.Constant)):
                        add("drop", i, lambda x, b=b, j=j: getattr(
                            x, b).__setitem__(j, ast.Pass()),
                            ast.unparse(s)[:80])
                    if j + 1 < len(lst) and isinstance(s, (
                            ast.Expr, ast.Assign, ast.AugAssign)) and \
                            isinstance(lst[j+1], (ast.Expr, ast.Assign,
                                                  ast.AugAssign)):
                        w = set(x.id for x in ast.walk(s) if isinstance(
                            x, ast.Name) and isinstance(x.ctx, ast.Store))
                        r = set(x.id for x in ast.walk(lst[j+1])
                                if isinstance(x, ast.Name))
                        if w & r and isinstance(s, ast.AugAssign):
                            def so(x, b=b, j=j):
                                q = getattr(x, b)
                                q[j], q[j+1] = q[j+1], q[j]
                            add("order", i, so, ast.unparse(s)[:80])
        if isinstance(n, (ast.For, ast.While)):
            last = n.body[-1]
            if not isinstance(last, (ast.Break, ast.Continue, ast.Return,
                                     ast.Raise)):
                add("endbreak", i, lambda x: x.body.append(ast.Break()),
                    "break at the end of the body")
            if isinstance(n, ast.For):
                for w in ("[1:]", "[:-1]", "[::-1]"):
                    def cut(x, w=w):
                        x.iter = ast.parse("list(%s)%s" % (
                            ast.unparse(x.iter), w), mode="eval").body
                    add("range", i, cut, ast.unparse(n.iter)[:60] + w)
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) \
                and n.value.id == "self" and isinstance(n.ctx, ast.Load):
            other = sorted(set(
                x.attr for x in nodes if isinstance(x, ast.Attribute) and
                isinstance(x.value, ast.Name) and x.value.id == "self"))
            if len(other) > 1:
                o = other[(other.index(n.attr) + 1) % len(other)]
                add("attrswap", i, lambda x, o=o: setattr(x, "attr", o),
                    "self.%s -> self.%s" % (n.attr, o))
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            add("exctype", i, lambda x: setattr(
                x, "type", ast.Name("ZeroDivisionError", ast.Load())),
                ast.unparse(n.type))
        for b in ("body", "orelse", "finalbody"):
            lst = getattr(n, b, None)
            if not isinstance(lst, list):
                continue
            for j, st in enumerate(lst):
                if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign)) \
                        and not (isinstance(st, ast.Expr) and
                                 isinstance(st.value, ast.Constant)):
                    def sw(x, b=b, j=j):
                        q = getattr(x, b)
                        q[j] = ast.Try([q[j]], [ast.ExceptHandler(
                            ast.Name("Exception", ast.Load()), None,
                            [ast.Pass()])], [], [])
                    if isinstance(st, ast.Expr) or not isinstance(
                            getattr(st, "targets", [st.value])[0], ast.Name):
                        add("swallow", i, sw, ast.unparse(st)[:80])
                if isinstance(st, (ast.For, ast.While)) and \
                        len(st.body) > 1 and isinstance(
                            st.body[-1], (ast.Expr, ast.Assign,
                                          ast.AugAssign)):
                    def lo(x, b=b, j=j):
                        q = getattr(x, b)
                        q.insert(j + 1, q[j].body.pop())
                    add("loopout", i, lo, ast.unparse(st.body[-1])[:80])
                if isinstance(st, (ast.For, ast.While)) and \
                        j + 1 < len(lst) and isinstance(
                            lst[j + 1], (ast.Expr, ast.Assign, ast.AugAssign,
                                         ast.Return)):
                    def li(x, b=b, j=j):
                        q = getattr(x, b)
                        q[j].body.append(q.pop(j + 1))
                    add("loopin", i, li, ast.unparse(lst[j + 1])[:80])
                if isinstance(st, ast.If) and len(st.body) > 1 and \
                        isinstance(st.body[-1], (ast.Expr, ast.Assign,
                                                 ast.AugAssign)):
                    def io(x, b=b, j=j):
                        q = getattr(x, b)
                        q.insert(j + 1, q[j].body.pop())
                    add("ifout", i, io, ast.unparse(st.body[-1])[:80])
    return out


def mutants(f):
    return [(k, t) for k, _i, _fn, t in sites(f)]


def build(f, idx):
    g = copy.deepcopy(f)
    kind, i, fn, text = sites(f)[idx]
    node = list(ast.walk(g))[i]
    if fn in ("operand", "arg", "continue", "break"):
        new = {"operand": lambda: node.operand, "arg": lambda: node.args[0],
               "continue": ast.Continue, "break": ast.Break}[fn]()

        class R(ast.NodeTransformer):
            def visit(self, n):
                if n is node:
                    return new
                return self.generic_visit(n)
        R().visit(g)
    else:
        fn(node)
    return ast.fix_missing_locations(g), kind, text


G = {}


def one(job):
    import threading
    target, idx = job
    box = {}

    def work():
        repo0 = G["repo"]
        fi = repo0.func(target)
        try:
            g, kind, text = build(fi.node, idx)
            src = apply(fi, g)
            compile(src, "x", "exec")
        except Exception as e:
            box["r"] = (job, "bad", str(e), "", 0)
            return
        t0 = time.time()
        repo = Repo(overlay={fi.module.rel: src})
        sp = S.load(repo)
        S.private_vocab(repo)
        st, why = "equal", ""
        # the function itself first, then the others of its module
        todo = [s for s in sp if s.target == target] + [
            s for s in sp if s.target != target and
            s.target.split(":")[0] == fi.module.name]
        for s in todo:
            try:
                v = S.check_spec(repo, s, fast=True, secs=40)
                r = v.status
            except Exception as e:
                r, v = "engine", None
                why = "%s: %s" % (type(e).__name__, e)
            if r == "differs" or r == "missing":
                st = "differs"
                break
            if r != "equal" and st == "equal":
                st = r
                why = why or v.detail
        box["r"] = (job, st, kind, text + " || " + why[:80],
                    time.time() - t0)
    threading.stack_size(256*1024*1024)
    t = threading.Thread(target=work)
    t.start()
    t.join()
    return box.get("r", (job, "bad", "crash", "", 0))


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("-k", default="")
    ap.add_argument("-p", default="")
    ap.add_argument("-n", type=int, default=1)
    ap.add_argument("-s", type=int, default=0)
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-o", default="")
    a = ap.parse_args()
    repo = Repo()
    G["repo"] = repo
    jobs = []
    for s in S.load(repo):
        fi = repo.func(s.target)
        if fi is None or getattr(fi, "ghost", False) or \
                s.target.startswith("cxx:") or a.p and \
                not any(q in s.target for q in a.p.split(",")):
            continue
        for k, (kind, _t) in enumerate(mutants(fi.node)):
            if not a.k or kind in a.k.split(","):
                jobs.append((s.target, k))
    jobs = jobs[a.s::a.n]
    print(len(jobs), "mutants", flush=True)
    out = open(a.o, "w") if a.o else sys.stdout
    tot = {}
    with multiprocessing.get_context("fork").Pool(
            a.j, maxtasksperchild=20) as pool:
        for job, st, kind, text, secs in pool.imap_unordered(one, jobs, 4):
            d = tot.setdefault(kind if st != "bad" else "bad", {})
            d[st] = d.get(st, 0) + 1
            if st not in ("differs", "bad"):
                out.write("%-9s %-8s %s#%d  %s\n" % (st, kind, job[0],
                                                   job[1], text))
                out.flush()
    for k, v in sorted(tot.items()):
        print("%-10s %s" % (k, v))


if __name__ == "__main__":
    main()
