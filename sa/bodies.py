"""Module and class level values against the reviewed ones.

The statements of a module or class body that bind values are evaluated like
a function body; every name of the reviewed body must get the same value.
Tables may grow: a dictionary is compared entry by entry, and further entries
are nobody's violation."""
import ast
import os
from . import terms as T
from . import specs as S
from .pyeval import Frame, State
from .repo import mangle


class Entry(object):
    def __init__(self, qual, name, props):
        self.qual, self.name, self.props = qual, name, props


def load(repo):
    m = repo.modules.get("$spec_bodies")
    if m is None:
        m = repo.add_module("$spec_bodies", os.path.join(
            S.HERE, "specs", "bodies.py"))
    pm, out = {}, []
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and st.targets[0].id == "PROPMAP":
            pm = ast.literal_eval(st.value)
        if isinstance(st, ast.FunctionDef):
            q = ast.literal_eval(st.decorator_list[0].args[0])
            out.append((q, st, pm.get(q, {"*": "P21"})))
    return out


def keep(s):
    """the same statements as in the reviewed body"""
    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import,
                      ast.ImportFrom, ast.If)):
        return False
    if isinstance(s, ast.Expr):
        return isinstance(s.value, ast.Call)
    return True


class Fake(object):
    pass


def evaluate(repo, module, cls, body):
    ev = S.make_eval(repo, S.default_vocab(repo), S.PRIMS, None)
    T._level[0] = 0
    fn = Fake()
    fn.node = ast.Module(body=body, type_ignores=[])
    fr = Frame(None, module, cls)
    st = State()
    if cls is not None:
        for n, f in cls.methods.items():
            if not getattr(f, "ghost", False):
                st.env[f.name] = ev.newroot(st, T.mk("fn", f.qual))
    fr.locals_module = True
    out = ev.block(body, st, fr)
    vals = {}
    if out is None:
        return ev, None
    for n, r in out.env.items():
        vals[n] = ev.read(out, r)
    vals["$io"] = out.heap.get("$io", T.mk("list", ()))
    return ev, vals


def targets(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


def loop_names(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.For):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        out.add(x.id)
    return out


def renamed(repo, x, y):
    """a function the reviewed core does not have stands for one that is no
    longer there"""
    if x.op in ("tuple", "list") and x.op == y.op and \
            len(x.args[0]) == len(y.args[0]):
        return any(renamed(repo, a, b)
                   for a, b in zip(x.args[0], y.args[0]))
    return x.op == y.op == "fn" and x is not y and \
        repo.func(y.args[0]) is None and x.args[0].startswith("cxx:")


def compare(x, y, repo=None):
    """None, or (kind, text): kind 'bad' or 'unknown'"""
    if T.equal(x, y):
        return None
    if repo is not None and renamed(repo, x, y):
        return "unknown", "%s in the place of %s" % (T.show(x), T.show(y))
    if x.op == "dict" and y.op == "dict":
        dx, dy = dict(x.args[0]), dict(y.args[0])
        diffs = []
        for k, v in dy.items():
            if k not in dx:
                diffs.append("entry %s is gone" % T.show(k))
            else:
                r = compare(dx[k], v, repo)
                if r is not None:
                    if r[0] == "unknown":
                        return r
                    diffs.append("%s: %s" % (T.show(k), r[1]))
        if not diffs:
            return None
        return "bad", "; ".join(diffs[:6])
    if any(T.has_opaque(t) or T.any_op(t, ("closure", "raises", "while"))
           for t in (x, y)):
        return "unknown", "not analysable: %s" % T.show(x)[:200]
    return "bad", "is %s, reviewed value %s" % (T.show(x, 0, 5)[:200],
                                                T.show(y, 0, 5)[:200])


def check(repo, prop):
    """yields (construct, where, kind, text); kind ok / bad / unknown"""
    for q, node, pm in load(repo):
        names = sorted(targets(node.body) - loop_names(node.body))
        if any(isinstance(s, ast.Expr) for s in node.body):
            names.append("$io")
        mine = [n for n in names if prop in pm.get(n, pm.get("*", "")).split()]
        if not mine:
            continue
        mod, _, cn = q.partition(":")
        m = repo.modules.get(mod)
        if mod == "cxx" and (m is None or repo.cxx_error):
            yield q, q, "unknown", "the core could not be read"
            continue
        cls = m.classes.get(cn) if m is not None and cn else None
        if m is None or (cn and cls is None):
            yield q, q, "bad", "is gone"
            continue
        src = m.tree if cls is None else cls.node
        body = [s for s in src.body if keep(s)]
        ref = [s for s in node.body]
        where = "%s:%d" % (m.rel, getattr(src, "lineno", 1))
        try:
            T.budget(400000, 60)
            ev, got = evaluate(repo, m, cls, body)
            ev2, want = evaluate(repo, m, cls, ref)
        except (T.Blowup, OverflowError, RecursionError) as e:
            yield q, where, "unknown", "budget: %s" % e
            continue
        for n in mine:
            c = "%s%s%s" % (q, "." if cn else ":", n)
            if got is None or want is None:
                yield c, where, "unknown", "the body always raises"
                continue
            if n not in want:
                continue
            w = where
            for s in body:
                if n in targets([s]):
                    w = "%s:%d" % (m.rel, s.lineno)
                    break
            real = m.wheres.get(n)
            if real:
                w = "%s:%d" % real
            if n in m.failed:
                yield c, w, "unknown", m.failed[n]
                continue
            if n not in got and mod == "cxx":
                yield c, w, "unknown", "no such name any more"
                continue
            if n not in got:
                if n.startswith("_") and not n.endswith("__"):
                    yield c, w, "unknown", "no such name any more"
                else:
                    r = repo.member(m, n) if not cn else ("missing",)
                    if r[0] != "missing":
                        yield c, w, "unknown", "bound in another way"
                    else:
                        yield c, w, "bad", "is gone"
                continue
            x, y = got[n], want[n]
            if n in ("__all__", "all") and x.op == y.op == "list":
                gone = [T.show(t) for t in y.args[0] if t not in x.args[0]]
                if gone:
                    yield c, w, "bad", "no longer lists " + " ".join(gone)
                else:
                    yield c, w, "ok", ""
                continue
            r = compare(x, y, repo)
            if r is None:
                yield c, w, "ok", ""
            else:
                yield c, w, r[0], r[1]
