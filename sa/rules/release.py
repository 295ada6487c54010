"""acquired files, pools and locks are released on every path"""
import ast
from . import rule, Report

CLOSERS = {"close", "Close", "terminate", "release", "__exit__", "shutdown",
           "cleanup"}
# library calls that open something the caller has to close
OPENERS = {"open", "io.open", "codecs.open", "gzip.open", "bz2.open",
           "lzma.open", "tarfile.open", "zipfile.ZipFile", "os.fdopen",
           "tempfile.TemporaryFile", "tempfile.NamedTemporaryFile",
           "multiprocessing.Pool", "multiprocessing.pool.Pool",
           "multiprocessing.pool.ThreadPool", "socket.socket",
           "concurrent.futures.ProcessPoolExecutor",
           "concurrent.futures.ThreadPoolExecutor", "ROOT.TFile",
           "ROOT.TFile.Open"}
HANDOVER = {"enter_context", "closing", "callback", "push"}
# these do not raise (for arguments of their type)
CALM = {"len", "range", "isinstance", "list", "dict", "tuple", "str", "type",
        "io.StringIO", "io.BytesIO", "StringIO", "BytesIO", "print"}


def dotted(e, m):
    """the full name of what an expression names, through the imports"""
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    root = m.imports.get(e.id, e.id)
    if e.id in m.functions or e.id in m.classes or e.id in m.assigns:
        root = m.name + "." + e.id
    return ".".join([root] + parts[::-1])


class Summary(object):
    """functions of the repository that return something they opened"""

    def __init__(self, repo):
        self.repo = repo
        self.returns = {}

    def opener(self, call, m, cls, fn):
        """what the call opens, or None"""
        if not isinstance(call, ast.Call):
            return None
        d = dotted(call.func, m)
        if d in OPENERS:
            return d
        f = self.target(call, m, cls)
        if f is not None and f.node is not fn and self.gives(f):
            return f.qual
        return None

    def target(self, call, m, cls):
        d = dotted(call.func, m)
        if d is None:
            return None
        p = d.split(".")
        if cls is not None and p[0] in ("self", "cls") and len(p) == 2:
            return self.repo.find_method(cls, p[1])
        if "." not in d:
            r = self.repo.member(m, d)
        else:
            r = self.repo.resolve(d)
        return r[1] if r[0] == "func" else None

    def gives(self, f):
        q = f.qual
        if q not in self.returns:
            self.returns[q] = False
            opened = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and self.opener(
                        n.value, f.module, f.cls, f.node):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            opened.add(t.id)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    if isinstance(n.value, ast.Name) and \
                            n.value.id in opened or self.opener(
                                n.value, f.module, f.cls, f.node):
                        self.returns[q] = True
        return self.returns[q]


def raises(s):
    """may the statement (its own expressions) raise?"""
    if s is None:
        return False
    for n in ast.walk(s):
        if isinstance(n, ast.Call) and ast.unparse(n.func) not in CALM:
            return True
        if isinstance(n, (ast.Raise, ast.Assert)):
            return True
    return False


def own(s):
    """the expressions evaluated by a compound statement itself"""
    if isinstance(s, (ast.If, ast.While)):
        return [s.test]
    if isinstance(s, ast.For):
        return [s.iter]
    if isinstance(s, ast.With):
        return [x.context_expr for x in s.items]
    if isinstance(s, ast.Try):
        return []
    return [s]


class Flow(object):
    """open handles along the paths of one function.  A state is a frozenset
    of (name, line) pairs; the set of states at a point is the union over the
    paths; the exceptional exits of a block are kept apart."""

    def __init__(self, f, summ):
        self.f, self.m, self.summ = f, f.module, summ
        self.sites = 0
        self.leaks = {}
        self.whats = {}

    def run(self):
        out, exc, ret, loopx = self.block(self.f.node.body, {frozenset()})
        for st in out | ret:
            for h in st:
                self.leaks.setdefault(h, "where it returns")
        for st in exc:
            for h in st:
                self.leaks.setdefault(h, "where a statement in between fails")
        return self

    def block(self, body, states):
        exc, ret, lx = set(), set(), set()
        for s in body:
            if not states:
                break
            states, e, r, x = self.stmt(s, states)
            exc |= e
            ret |= r
            lx |= x
        return states, exc, ret, lx

    def drop(self, states, name):
        return set(frozenset(h for h in st if h[0] != name) for st in states)

    def effects(self, s, states):
        """(states after, states where it raised) of a simple statement or
        of the header of a compound one"""
        before = states
        closed = set()
        for top in own(s):
            for n in ast.walk(top):
                if isinstance(n, ast.Call):
                    fn = n.func
                    if isinstance(fn, ast.Attribute) and fn.attr in CLOSERS \
                            and isinstance(fn.value, ast.Name):
                        closed.add(fn.value.id)
                    if isinstance(fn, ast.Attribute) and fn.attr in HANDOVER \
                            or isinstance(fn, ast.Name) and \
                            fn.id in HANDOVER:
                        for a in n.args:
                            if isinstance(a, ast.Name):
                                closed.add(a.id)
        after = states
        for c in closed:
            after = self.drop(after, c)
        exc = set()
        if any(raises(x) for x in own(s)):
            # a failing close counts as closed
            exc = set(after) if closed else set(before)
        return after, exc

    def stmt(self, s, states):
        if isinstance(s, ast.If) and isinstance(s.test, ast.Constant):
            return self.block(s.body if s.test.value else s.orelse, states)
        if isinstance(s, ast.If):
            st, exc = self.effects(s, states)
            yes, no = self.none_test(s.test)
            a = self.block(s.body, self.drop(st, yes) if yes else st)
            b = self.block(s.orelse, self.drop(st, no) if no else st)
            return a[0] | b[0], exc | a[1] | b[1], a[2] | b[2], a[3] | b[3]
        if isinstance(s, (ast.For, ast.While)):
            st, exc = self.effects(s, states)
            inn = set(st)
            ret = set()
            for _ in range(4):
                o, e, r, x = self.block(s.body, inn)
                exc |= e
                ret |= r
                new = inn | o | x
                if new == inn:
                    break
                inn = new
            if isinstance(s, ast.While) and isinstance(
                    s.test, ast.Constant) and s.test.value:
                inn = x
            o, e, r, x2 = self.block(s.orelse, inn)
            return o | inn, exc | e, ret | r, x2
        if isinstance(s, ast.Try):
            o, e, r, x = self.block(s.body, states)
            if s.orelse:
                o, e2, r2, x2 = self.block(s.orelse, o)
                r |= r2
                x |= x2
            else:
                e2 = set()
            out, exc = set(o), set(e2)
            allcaught = False
            for h in s.handlers:
                ho, he, hr, hx = self.block(h.body, set(e))
                out |= ho
                exc |= he
                r |= hr
                x |= hx
                if h.type is None or dotted(h.type, self.m) in (
                        "Exception", "BaseException"):
                    allcaught = True
            if not allcaught:
                exc |= e
            if s.finalbody:
                fo = self.block(s.finalbody, out)
                fe = self.block(s.finalbody, exc)
                fr = self.block(s.finalbody, r)
                fx = self.block(s.finalbody, x)
                return (fo[0], fe[0] | fo[1] | fe[1] | fr[1] | fx[1],
                        fr[0] | fo[2] | fe[2] | fr[2] | fx[2],
                        fx[0] | fo[3])
            return out, exc, r, x
        if isinstance(s, ast.With):
            st, exc = states, set()
            names = []
            for it in s.items:
                c = it.context_expr
                w = self.summ.opener(c, self.m, self.f.cls, self.f.node)
                if w:
                    self.sites += 1
                if isinstance(c, ast.Name):
                    names.append(c.id)
                if raises(c):
                    exc |= st
                for n in ast.walk(c):
                    if isinstance(n, ast.Name):
                        if any(isinstance(k, ast.Call) and k is c and
                               n in k.args for k in [c]):
                            names.append(n.id)
            for n in names:
                st = self.drop(st, n)
            o, e, r, x = self.block(s.body, st)
            return o, exc | e, r, x
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return states, set(), set(), set()
        st, exc = self.effects(s, states)
        if isinstance(s, ast.Return):
            if s.value is not None:
                for n in ast.walk(s.value):
                    if isinstance(n, ast.Name):
                        st = self.drop(st, n.id)
                self.inline(s.value, s)
            return set(), exc, st, set()
        if isinstance(s, ast.Raise):
            return set(), exc | st, set(), set()
        if isinstance(s, (ast.Break, ast.Continue)):
            return set(), set(), set(), st
        if isinstance(s, ast.Assign):
            w = self.summ.opener(s.value, self.m, self.f.cls, self.f.node)
            t = s.targets[0]
            if w and isinstance(t, ast.Name):
                self.sites += 1
                # rebound while open: the old handle is lost
                for x in st:
                    for h in x:
                        if h[0] == t.id:
                            self.leaks.setdefault(
                                h, "where the name is bound again")
                h = (t.id, s.lineno)
                self.whats[h] = w
                st = set(frozenset(x | {h}) for x in self.drop(st, t.id))
                return st, exc, set(), set()
            if w:
                self.sites += 1
                return st, exc, set(), set()
            if isinstance(s.value, ast.Name) and isinstance(t, ast.Name):
                # another name for it
                st = set(frozenset((t.id, h[1]) if h[0] == s.value.id else h
                                   for h in x) for x in st)
                for x in st:
                    for h in x:
                        self.whats.setdefault(h, "open")
            elif not isinstance(t, ast.Name):
                # stored somewhere that outlives the call
                for n in ast.walk(s.value):
                    if isinstance(n, ast.Name):
                        st = self.drop(st, n.id)
            else:
                if isinstance(s.value, (ast.Tuple, ast.List, ast.Dict)):
                    for n in ast.walk(s.value):
                        if isinstance(n, ast.Name):
                            st = self.drop(st, n.id)
                self.inline(s.value, s)
            return st, exc, set(), set()
        if isinstance(s, (ast.Expr, ast.AugAssign)):
            v = s.value
            if isinstance(v, (ast.Yield, ast.YieldFrom)) and v.value:
                for n in ast.walk(v.value):
                    if isinstance(n, ast.Name):
                        st = self.drop(st, n.id)
            if isinstance(v, ast.Call) and isinstance(
                    v.func, ast.Attribute) and v.func.attr in (
                        "append", "add", "insert", "setdefault", "extend"):
                for a in v.args:
                    if isinstance(a, ast.Name):
                        st = self.drop(st, a.id)
            self.inline(v, s)
        return st, exc, set(), set()

    @staticmethod
    def none_test(t):
        """(name that is not open where the test holds, where it fails)"""
        if isinstance(t, ast.Name):
            return None, t.id
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and \
                isinstance(t.operand, ast.Name):
            return t.operand.id, None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
                t.left, ast.Name) and isinstance(
                    t.comparators[0], ast.Constant) and \
                t.comparators[0].value is None:
            if isinstance(t.ops[0], (ast.Is, ast.Eq)):
                return t.left.id, None
            if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
                return None, t.left.id
        return None, None

    def inline(self, e, s):
        """a method called on what was just opened, and nothing else holds
        it"""
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr not in CLOSERS:
                w = self.summ.opener(n.func.value, self.m, self.f.cls,
                                     self.f.node)
                if w:
                    self.sites += 1
                    h = ("", s.lineno)
                    self.whats[h] = w
                    self.leaks.setdefault(h, "where it returns")


SELFTEST = [
    ("def f(n):\n h = open(n)\n x = h.read()\n h.close()\n return x\n", 1),
    ("def f(n):\n h = open(n)\n try:\n  return h.read()\n finally:\n"
     "  h.close()\n", 0),
    ("def f(n):\n with open(n) as h:\n  return h.read()\n", 0),
    ("def f(n):\n return open(n)\n", 0),
    ("def f(n):\n return open(n).read()\n", 1),
    ("def f(n):\n h = open(n)\n if g(n):\n  return None\n with h:\n"
     "  return h.read()\n", 1),
    ("def f(n):\n h = open(n)\n try:\n  h.write('a')\n except Exception:\n"
     "  h.close()\n  raise\n return h\n", 0),
    ("def f(n):\n h = open(n)\n try:\n  h.write('a')\n except IOError:\n"
     "  h.close()\n  raise\n return h\n", 1),
]


@rule("release", "P22", 8, "what a function opens (a file, a pool of "
      "workers) is closed, returned or handed over on every path, also where "
      "a statement in between fails")
def release(repo):
    from ..repo import Repo, ModuleInfo, FunctionInfo   # noqa: F401
    for src, n in SELFTEST:
        m = ModuleInfo("selftest", "selftest.py", "selftest.py", source=src)
        f = list(m.functions.values())[0]
        fl = Flow(f, Summary(repo)).run()
        if (1 if fl.leaks else 0) != n:
            raise AssertionError("self test of the rule: " + src)
    rep = Report()
    summ = Summary(repo)
    for f in repo.all_functions():
        if f.module.name == "cxx":
            continue
        fl = Flow(f, summ).run()
        if not fl.sites:
            continue
        if not fl.leaks:
            rep.ok("%s: %d opened" % (f.qual, fl.sites))
        for h, how in sorted(fl.leaks.items()):
            rep.bad("%s/%s" % (f.qual, h[0] or "unnamed"),
                    "%s:%d" % (f.module.rel, h[1]),
                    "%s opens %s (%s) and leaves it open %s" % (
                        f.qual, h[0] or "a file", fl.whats.get(h, "open"),
                        how))
    return rep
