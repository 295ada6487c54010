"""use of an object after its last reference was given up (C++ core)"""
import ast
import re
from . import rule, Report

KEEPS = re.compile(r"Set|Append|Insert|Add|Store|Pack|Build")


def text(n):
    return ast.unparse(n)


class Walk(object):
    """forward dataflow over one lowered function: `gone` maps the text of
    an object to the line that gave it up on every path so far"""

    def __init__(self, fn):
        self.fn = fn
        self.found = []
        self.seen = 0
        self.alias = {}
        self.kept = set()

    def run(self):
        self.block(self.fn.body, {})
        return self

    def root(self, t):
        m = re.match(r"\w+", t)
        r = m.group(0) if m else t
        k = 0
        while r in self.alias and k < 20:
            t = self.alias[r] + t[len(r):]
            r = re.match(r"\w+", t).group(0)
            k += 1
        return t

    def uses(self, n, gone):
        if n is None:
            return
        for x in ast.walk(n):
            if isinstance(x, ast.Call):
                nm = text(x.func)
                if KEEPS.search(nm):
                    for a in x.args:
                        self.kept.add(self.root(text(a)))
            if not gone:
                continue
            if isinstance(x, (ast.Name, ast.Subscript, ast.Attribute)) and \
                    isinstance(x.ctx, ast.Load):
                t = self.root(text(x))
                if t not in gone and isinstance(x, ast.Attribute):
                    t = "*" + self.root(text(x.value))
                elif t not in gone and isinstance(x, ast.Subscript):
                    t = "*" + self.root(text(x.value))
                if t in gone:
                    self.found.append((t, gone[t], x.lineno, text(n)))

    def kill(self, tgt, gone):
        t = text(tgt)
        for d in (gone, self.alias):
            for k in list(d):
                b = k.lstrip("*")
                if b == t or b.startswith(t + "[") or b.startswith(t + "."):
                    del d[k]
        for k in list(self.alias):
            if re.match(r"\w+", self.alias[k]).group(0) == t:
                del self.alias[k]
        self.kept = set(k for k in self.kept if k != t and not
                        k.startswith((t + "[", t + ".")))

    def block(self, body, gone):
        """-> state after the block, or None where it does not fall
        through"""
        for s in body:
            gone = self.stmt(s, gone)
            if gone is None:
                return None
        return gone

    def stmt(self, s, gone):
        self.seen += 1
        if isinstance(s, ast.Assign):
            c = self.count(s)
            if c:
                sign, obj = c
                self.uses(obj, gone)
                t = self.root(text(obj))
                if sign > 0:
                    self.kept.add(t)
                elif t not in self.kept:
                    gone = dict(gone)
                    gone[t] = s.lineno
                return gone
            self.uses(s.value, gone)
            gone = dict(gone)
            for tgt in s.targets:
                if not isinstance(tgt, ast.Name):
                    self.uses(getattr(tgt, "value", None), gone)
                    t = "*" + self.root(text(getattr(tgt, "value", tgt)))
                    if t in gone:
                        self.found.append((t, gone[t], s.lineno, text(s)))
                self.kill(tgt, gone)
                if isinstance(tgt, ast.Name) and isinstance(
                        s.value, (ast.Name, ast.Subscript)) and re.match(
                            r"\w+(\[0\])?$", text(s.value)) and \
                        text(s.value) != tgt.id:
                    self.alias[tgt.id] = text(s.value)
            return gone
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                text(s.value.func) == "capi.delete":
            a = s.value.args[0]
            self.uses(a, gone)
            gone = dict(gone)
            gone["*" + self.root(text(a))] = s.lineno
            return gone
        if isinstance(s, ast.If):
            self.uses(s.test, gone)
            kept = set(self.kept)
            al = dict(self.alias)
            a = self.block(s.body, dict(gone))
            ka, self.kept, self.alias = self.kept, set(kept), dict(al)
            b = self.block(s.orelse, dict(gone))
            self.kept |= ka
            if a is None:
                return b
            if b is None:
                return a
            return {k: v for k, v in a.items() if k in b}
        if isinstance(s, (ast.While, ast.For)):
            self.uses(s.test if isinstance(s, ast.While) else s.iter, gone)
            if isinstance(s, ast.For):
                gone = dict(gone)
                self.kill(s.target, gone)
            out = self.block(s.body, dict(gone))
            if out is not None and not any(
                    isinstance(x, (ast.Break, ast.Continue))
                    for x in ast.walk(s)):
                if isinstance(s, ast.For):
                    self.kill(s.target, out)
                self.block(s.body, out)
            return gone
        if isinstance(s, ast.Try):
            a = self.block(s.body, dict(gone))
            for h in s.handlers:
                self.block(h.body, dict(gone))
            return gone if a is not None else gone
        if isinstance(s, (ast.Return, ast.Raise)):
            self.uses(s.value if isinstance(s, ast.Return) else s.exc, gone)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        for x in ast.iter_child_nodes(s):
            self.uses(x, gone)
        return gone

    @staticmethod
    def count(s):
        v = s.value
        if isinstance(s.targets[0], ast.Name) and \
                s.targets[0].id == "PYREF" and isinstance(v, ast.BinOp) and \
                isinstance(v.right, ast.Call) and \
                text(v.right.func) == "capi.ref":
            return (1 if isinstance(v.op, ast.Add) else -1), v.right.args[0]
        return None


def findings(fn):
    w = Walk(fn).run()
    out = {}
    for t, l0, l1, ctx in w.found:
        out.setdefault(t, (l0, l1, ctx))
    return w, out


SELFTEST = [
    ("def f(a):\n x = g(a)\n PYREF = PYREF - capi.ref(x)\n h(x)\n", 1),
    ("def f(a):\n x = g(a)\n h(x)\n PYREF = PYREF - capi.ref(x)\n", 0),
    ("def f(a):\n x = g(a)\n capi.PyList_Append(a, x)\n"
     " PYREF = PYREF - capi.ref(x)\n h(x)\n", 0),
    ("def f(a):\n capi.delete(a)\n a.b = None\n", 1),
    ("def f(a):\n for i in a:\n  h(x)\n  PYREF = PYREF - capi.ref(x)\n", 1),
]


@rule("released", "P20", 20, "no path uses an object after it gave up its "
      "reference to it (delete, Py_DECREF) unless a container or another "
      "reference keeps it")
def released(repo):
    rep = Report()
    for src, n in SELFTEST:
        if len(findings(ast.parse(src).body[0])[1]) != n:
            raise AssertionError("self test of the rule: " + src)
    m = repo.modules.get("cxx")
    if m is None or repo.cxx_error:
        rep.unknown("cxx", repo.cxx_error or "no module")
        return rep
    for name, f in sorted(m.functions.items()):
        if getattr(f, "ghost", False):
            continue
        src = ast.unparse(f.node)
        if "capi.delete" not in src and "PYREF" not in src:
            continue
        w, bad = findings(f.node)
        if not bad:
            rep.ok("%s: %d statements" % (name, w.seen))
        where = m.wheres.get(name)
        for t, (_l0, _l1, ctx) in sorted(bad.items()):
            rep.bad("%s/%s" % (name, t), "%s:%d" % where if where else name,
                    "%s uses %s after giving it up: %s" % (
                        name, t.lstrip("*"), ctx))
    return rep
