"""names, attributes and arguments exist where they are used"""
import ast
import builtins
import json
import os
import re
from . import rule, Report

EXTERNAL = json.load(open(os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "external.json")))
MODULES = {k: set(v) for k, v in EXTERNAL["modules"].items()}
MEMBERS = set(EXTERNAL["members"]) | set(EXTERNAL.get("instances", ()))

GONE = {
    "string": "join split atof atoi letters lowercase uppercase replace strip "
              "maketrans find lower upper zfill",
    "sys": "maxint setdefaultencoding exc_clear exc_type exc_value",
    "os": "getcwdu errno popen2 popen3",
    "itertools": "izip imap ifilter izip_longest ifilterfalse",
    "types": "StringType ListType DictType IntType FloatType TupleType "
             "NoneType_ InstanceType ClassType UnicodeType",
    "time": "clock",
    "math": "",
    "collections": "Mapping MutableMapping Sequence Iterable Callable",
    "inspect": "getargspec",
}
GONE = {k: set(v.split()) for k, v in GONE.items()}
GONE_METHODS = {"has_key", "iteritems", "itervalues", "iterkeys"}
BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__",
                                "__path__", "__package__", "__spec__",
                                "__loader__", "__builtins__", "__class__"}
OBJECT = set(dir(type)) | set(dir(object))


def params(node):
    a = node.args
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


def body_of(node):
    return node.body if isinstance(node.body, list) else [
        ast.Expr(node.body)]


SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
COMPS = (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)


def bound_in(stmts):
    """names a list of statements may bind in its own scope"""
    out = set()
    stack = list(stmts)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            out.add(n.name)
            stack += n.decorator_list
            if not isinstance(n, ast.ClassDef):
                stack += n.args.defaults
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, COMPS):
            # only the walrus binds outside
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split(".")[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        stack += list(ast.iter_child_nodes(n))
    return out


def globals_in(stmts):
    out, non = set(), set()
    stack = list(stmts)
    while stack:
        n = stack.pop()
        if isinstance(n, SCOPES):
            continue
        if isinstance(n, ast.Global):
            out |= set(n.names)
        elif isinstance(n, ast.Nonlocal):
            non |= set(n.names)
        stack += list(ast.iter_child_nodes(n))
    return out, non


class Checker(object):
    def __init__(self, repo, m, rep):
        self.repo, self.m, self.rep = repo, m, rep
        self.out = []
        self.n = {"names": 0, "attributes": 0, "calls": 0}
        self.ownglobals = bound_in(m.tree.body)
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Global):
                self.ownglobals |= set(x.names)
        self.open = False
        for s in m.stars:
            if s in repo.modules:
                self.ownglobals |= bound_in(repo.modules[s].tree.body)
            else:
                self.open = True

    def bad(self, scope, node, text):
        self.out.append((scope, node.lineno, text))

    # ------------------------------------------------------------- names
    def scope(self, node, name, outer, cls):
        """outer: names of the enclosing function scopes"""
        stmts = body_of(node)
        gl, nl = globals_in(stmts)
        local = (set(params(node)) if not isinstance(node, ast.ClassDef)
                 else set()) | (bound_in(stmts) - gl - nl)
        inner = outer | (local if not isinstance(node, ast.ClassDef)
                         else set())
        self.flow(stmts, name, local, outer, inner, cls,
                  set(params(node)) if not isinstance(node, ast.ClassDef)
                  else set(), isinstance(node, ast.ClassDef))

    def known(self, nm):
        return nm in self.ownglobals or nm in BUILTIN or self.open

    def flow(self, stmts, name, local, outer, inner, cls, start, isclass):
        def use(e, have, extra=frozenset()):
            if e is None:
                return
            if isinstance(e, ast.Name):
                if not isinstance(e.ctx, ast.Store):
                    self.n["names"] += 1
                    if e.id in extra:
                        return
                    if e.id in local:
                        if e.id not in have and not (
                                isclass and (e.id in outer or
                                             self.known(e.id))):
                            self.bad(name, e, "%s is used before anything "
                                     "is assigned to it" % e.id)
                    elif e.id not in outer and not self.known(e.id):
                        self.bad(name, e, "nothing defines %s" % e.id)
                else:
                    have.add(e.id)
                return
            if isinstance(e, ast.Lambda):
                for d in e.args.defaults + [
                        x for x in e.args.kw_defaults if x]:
                    use(d, have, extra)
                self.scope(e, name, inner | set(extra), cls)
                return
            if isinstance(e, COMPS):
                ex = set(extra)
                for k, g in enumerate(e.generators):
                    use(g.iter, have, frozenset(ex))
                    for t in ast.walk(g.target):
                        if isinstance(t, ast.Name) and isinstance(
                                t.ctx, ast.Store):
                            ex.add(t.id)
                    for c in g.ifs:
                        use(c, have, frozenset(ex))
                if isinstance(e, ast.DictComp):
                    use(e.key, have, frozenset(ex))
                    use(e.value, have, frozenset(ex))
                else:
                    use(e.elt, have, frozenset(ex))
                return
            for c in ast.iter_child_nodes(e):
                use(c, have, extra)

        def block(body, have):
            """have: names that may have been assigned; None: unreachable"""
            for s in body:
                if have is None:
                    return None
                have = stmt(s, have)
            return have

        def join(*hs):
            hs = [h for h in hs if h is not None]
            if not hs:
                return None
            return set().union(*hs)

        def stmt(s, have):
            have = set(have)
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in s.decorator_list + s.args.defaults + [
                        x for x in s.args.kw_defaults if x]:
                    use(d, have)
                have.add(s.name)
                self.scope(s, name + "." + s.name, inner, cls)
                return have
            if isinstance(s, ast.ClassDef):
                for d in s.decorator_list + s.bases:
                    use(d, have)
                have.add(s.name)
                self.scope(s, name + "." + s.name, inner, s)
                return have
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    have.add(a.asname or a.name.split(".")[0])
                return have
            if isinstance(s, ast.If):
                use(s.test, have)
                return join(block(s.body, have), block(s.orelse, have))
            if isinstance(s, (ast.For, ast.AsyncFor)):
                use(s.iter, have)
                h = have | bound_in(s.body)
                use(s.target, h)
                block(s.body, h)
                return join(block(s.orelse, h), h)
            if isinstance(s, ast.While):
                h = have | bound_in(s.body)
                use(s.test, h)
                block(s.body, h)
                return join(block(s.orelse, h), h)
            if isinstance(s, ast.Try):
                a = block(s.body, have)
                mid = have | bound_in(s.body)
                if a is not None:
                    a = block(s.orelse, a)
                outs = [a]
                for h in s.handlers:
                    use(h.type, set(mid))
                    hh = set(mid)
                    if h.name:
                        hh.add(h.name)
                    outs.append(block(h.body, hh))
                o = join(*outs)
                if s.finalbody:
                    f = block(s.finalbody, mid | bound_in(s.orelse) |
                              set().union(*[bound_in(h.body)
                                            for h in s.handlers] or [set()]))
                    if f is None or o is None:
                        return None
                    return o | f
                return o
            if isinstance(s, (ast.With, ast.AsyncWith)):
                for it in s.items:
                    use(it.context_expr, have)
                    use(it.optional_vars, have)
                r = block(s.body, have)
                # a context manager may swallow
                return join(r, have | bound_in(s.body))
            if isinstance(s, ast.Assign):
                use(s.value, have)
                for t in s.targets:
                    use(t, have)
                return have
            if isinstance(s, ast.AugAssign):
                if isinstance(s.target, ast.Name):
                    use(ast.copy_location(ast.Name(s.target.id, ast.Load()),
                                          s.target), have)
                use(s.value, have)
                use(s.target, have)
                return have
            if isinstance(s, ast.AnnAssign):
                use(s.value, have)
                if s.value is not None:
                    use(s.target, have)
                return have
            if isinstance(s, (ast.Return, ast.Raise)):
                for c in ast.iter_child_nodes(s):
                    use(c, have)
                return None
            if isinstance(s, (ast.Break, ast.Continue)):
                return None
            if isinstance(s, ast.Global):
                have |= set(s.names)
                return have
            if isinstance(s, ast.Delete):
                for t in s.targets:
                    use(t, have)
                return have
            if hasattr(ast, "Match") and isinstance(s, ast.Match):
                return have | bound_in([s])
            for c in ast.iter_child_nodes(s):
                use(c, have)
            return have

        block(stmts, set(start))


def stored_attrs(repo):
    """attribute names stored anywhere (also through setattr, __dict__)"""
    out = set()
    dynamic = False
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                out.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                    and n.func.id in ("setattr", "delattr"):
                if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    out.add(n.args[1].value)
                else:
                    dynamic = True
    return out, dynamic


def closed_class(repo, c):
    """every base is known and nothing answers for missing attributes"""
    for k in repo.mro(c):
        if len(repo.bases(k)) != len([b for b in k.bases if b != "object"]):
            return False
        for nm in ("__getattr__", "__getattribute__", "__slots__"):
            if nm in k.methods or nm in k.attrs:
                return False
        if k.node.keywords or k.node.decorator_list:
            return False
    return True


def class_names(repo, c):
    out = set()
    for k in repo.mro(c):
        out |= set(k.methods) | set(k.attrs) | bound_in(k.node.body)
    return out


def below(repo, c):
    """the classes derived from c"""
    out = []
    for m in repo.modules.values():
        for k in m.classes.values():
            if k is not c and c in repo.mro(k):
                out.append(k)
    return out


WORD = re.compile(r"[A-Za-z_][A-Za-z_0-9]*")


def vocabulary(repo):
    """every name an object handled by the library can answer to: what the
    repository defines, stores or spells in a string, what its C++ sources
    spell in a string, what the interpreter and its libraries define"""
    out = set(MEMBERS)
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.keyword) and n.arg:
                out.add(n.arg)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) \
                    and "\n" not in n.value and n.value.count(" ") < 3:
                out |= set(WORD.findall(n.value))
            elif isinstance(n, ast.alias):
                out |= set((n.asname or n.name).split("."))
        out |= set(x.rsplit(".", 1)[-1] for x in [m.name])
    core = os.path.join(getattr(repo, "root", "") or "", "xboa", "core")
    if getattr(repo, "root", None) and os.path.isdir(core):
        for d, _, fs in os.walk(core):
            for f in fs:
                if f.endswith((".cc", ".hh", ".cpp", ".h")):
                    with open(os.path.join(d, f), errors="replace") as h:
                        for x in re.findall(r'"([^"\n]*)"', h.read()):
                            out |= set(WORD.findall(x))
    return out


class Members(object):
    """attributes of modules, classes and self; arguments of calls"""

    def __init__(self, repo):
        self.repo = repo
        self.stored, self.dynamic = stored_attrs(repo)
        self.words = vocabulary(repo) | self.stored
        self.methods = {}
        funcs = set()
        for m in repo.modules.values():
            if m.name == "cxx" or m.name.startswith("$"):
                continue
            funcs |= set(m.functions) | set(m.assigns)
            for c in m.classes.values():
                for k, f in c.methods.items():
                    self.methods.setdefault(k, []).append(f)
                funcs |= set(c.attrs)
        # a stored or module level name may be any callable
        self.several = funcs | self.stored | MEMBERS
        self.out = []
        self.n = {"attributes": 0, "calls": 0}
        self.memo = {}

    def names_of(self, c):
        if c.qual not in self.memo:
            self.memo[c.qual] = (closed_class(self.repo, c),
                                 class_names(self.repo, c))
        return self.memo[c.qual]

    def resolve(self, e, m, cls, local, first):
        """what a name or attribute chain denotes: like Repo.resolve, or
        None"""
        parts = []
        x = e
        while isinstance(x, ast.Attribute):
            parts.append(x.attr)
            x = x.value
        if not isinstance(x, ast.Name):
            return None
        parts.reverse()
        if x.id in local:
            return None
        r = self.repo.member(m, x.id)
        if r[0] == "missing" or len(m.assigns.get(x.id, ())) > 0:
            return None
        for p in parts:
            if r[0] in ("ext", "global", "unknown", "classattr", "missing",
                        "func"):
                return None
            if p.startswith("__") and not p.endswith("__") and cls:
                from ..repo import mangle
                p = mangle(p, cls.name)
            r = self.repo.sub(r, p)
        return r

    def built(self, node, m, cls, local):
        """locals bound once, by the constructor of a class of the library:
        name -> class"""
        where = {}
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                where.setdefault(n.id, []).append(n)
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                for x in n.names:
                    where.pop(x, None)
            elif n is not node and isinstance(
                    n, (ast.FunctionDef, ast.ClassDef)):
                where.pop(n.name, None)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                where.pop(n.name, None)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    where.pop((a.asname or a.name).split(".")[0], None)
            if n is not node and isinstance(n, (ast.FunctionDef, ast.Lambda)):
                for x in params(n):
                    where.pop(x, None)
        for x in params(node):
            where.pop(x, None)
        out = {}
        for n in ast.walk(node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name) and \
                    len(where.get(n.targets[0].id, ())) == 1 and \
                    isinstance(n.value, ast.Call):
                r = self.resolve(n.value.func, m, cls, local, None)
                if r is not None and r[0] == "class" and self.names_of(
                        r[1])[0] and not self.repo.find_method(
                            r[1], "__new__"):
                    out[n.targets[0].id] = r[1]
        return out

    def function(self, f, m, cls):
        node = f.node
        self.types = self.built(node, m, cls, set(params(node)) | bound_in(
            body_of(node)) - globals_in(body_of(node))[0])
        stack = [(node, set(params(node)) | bound_in(body_of(node)) -
                  globals_in(body_of(node))[0])]
        while stack:
            n, local = stack.pop()
            for c in ast.iter_child_nodes(n):
                loc = local
                if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                    loc = local | set(params(c)) | bound_in(body_of(c))
                elif isinstance(c, COMPS):
                    loc = local | set(
                        x.id for g in c.generators
                        for x in ast.walk(g.target)
                        if isinstance(x, ast.Name))
                stack.append((c, loc))
            if isinstance(n, ast.Attribute):
                self.attribute(n, f, m, cls, local)
            elif isinstance(n, ast.Call):
                self.call(n, f, m, cls, local)

    def bad(self, f, n, text):
        self.out.append((f.qual, n.lineno, text))

    def attribute(self, n, f, m, cls, local):
        self.n["attributes"] += 1
        if not isinstance(n.ctx, ast.Load):
            return
        if n.attr in GONE_METHODS and not any(
                n.attr in k.methods for mm in self.repo.modules.values()
                for k in mm.classes.values()):
            self.bad(f, n, "the method %s does not exist in Python 3" %
                     n.attr)
        # self.attr
        if isinstance(n.value, ast.Name) and cls is not None:
            first = f.params()[0] if f.params() and f.kind in (
                "method", "class") else None
            if n.value.id == first and first in ("self", "cls"):
                from ..repo import mangle
                a = mangle(n.attr, cls.name)
                ok, names = self.names_of(cls)
                if not ok or self.dynamic or a in names or \
                        n.attr in names or n.attr in self.stored or \
                        a in self.stored or a in OBJECT:
                    return
                if any(a in self.names_of(k)[1] or not self.names_of(k)[0]
                       for k in below(self.repo, cls)):
                    return
                self.bad(f, n, "%s has no attribute %s" % (cls.name, n.attr))
                return
        if isinstance(n.value, ast.Name) and n.value.id in self.types:
            from ..repo import mangle
            c = self.types[n.value.id]
            a = mangle(n.attr, cls.name) if cls else n.attr
            if self.dynamic and n.attr in self.words or \
                    a in self.names_of(c)[1] or n.attr in self.stored or \
                    a in self.stored or a in OBJECT:
                return
            self.bad(f, n, "%s has no attribute %s" % (c.name, n.attr))
            return
        r = self.resolve(n.value, m, cls, local, f)
        if r is None or r[0] not in ("module", "class"):
            self.elsewhere(n, f, m, cls, local)
            return
        if r[0] == "module":
            mm = r[1]
            if mm.name + "." + n.attr in self.repo.modules or mm.stars or \
                    mm.name.startswith("xboa.core") or mm.is_pkg and \
                    mm.rel.startswith("xboa/core"):
                return
            if n.attr in bound_in(mm.tree.body) or n.attr in self.stored or \
                    n.attr.startswith("__"):
                return
            for x in ast.walk(mm.tree):
                if isinstance(x, ast.Global) and n.attr in x.names:
                    return
            self.bad(f, n, "the module %s has no %s" % (mm.name, n.attr))
        elif r[0] == "class":
            from ..repo import mangle
            a = mangle(n.attr, cls.name) if cls else n.attr
            ok, names = self.names_of(r[1])
            if not ok or a in names or n.attr in names or \
                    n.attr in self.stored or a in OBJECT:
                return
            self.bad(f, n, "the class %s has no %s" % (r[1].name, n.attr))

    def outside(self, n, m, local):
        """the library module a name or attribute chain denotes, or None"""
        parts = []
        x = n
        while isinstance(x, ast.Attribute):
            parts.append(x.attr)
            x = x.value
        if not isinstance(x, ast.Name) or x.id in local or \
                m.assigns.get(x.id):
            return None
        try:
            r = self.repo.member(m, x.id)
        except Exception:
            return None
        if r[0] != "ext":
            return None
        nm = ".".join([r[1]] + parts[::-1])
        return nm if nm in MODULES else None

    def elsewhere(self, n, f, m, cls, local):
        """an attribute of a module of the library or of an object of
        unknown class"""
        nm = self.outside(n.value, m, local)
        if nm is not None:
            if n.attr in GONE.get(nm, ()):
                self.bad(f, n, "%s.%s does not exist in Python 3" % (
                    nm, n.attr))
            elif n.attr not in MODULES[nm] and n.attr not in self.stored \
                    and nm + "." + n.attr not in MODULES and \
                    not n.attr.startswith("__"):
                self.bad(f, n, "the module %s has no %s" % (nm, n.attr))
            return
        if n.attr[:1].isupper() or n.attr.startswith("_"):
            return          # ROOT and MAUS spell their names so
        if n.attr not in self.words:
            self.bad(f, n, "no object has an attribute %s" % n.attr)

    def call(self, n, f, m, cls, local):
        tgt, skip = None, 0
        fn = n.func
        if isinstance(fn, ast.Attribute) and isinstance(
                fn.value, ast.Name) and cls is not None and \
                fn.value.id in ("self", "cls") and f.params() and \
                fn.value.id == f.params()[0] and f.kind in ("method",
                                                            "class"):
            from ..repo import mangle
            a = mangle(fn.attr, cls.name)
            t = self.repo.find_method(cls, a)
            if t is None or a in self.stored or fn.attr in self.stored:
                return
            # an override may take other arguments
            if any(a in k.methods for k in below(self.repo, cls)):
                return
            if t.kind == "method" and f.kind == "class":
                return
            tgt, skip = t, (1 if t.kind in ("method", "class") else 0)
        elif isinstance(fn, ast.Attribute) and isinstance(
                fn.value, ast.Name) and fn.value.id in self.types:
            from ..repo import mangle
            a = mangle(fn.attr, cls.name) if cls else fn.attr
            t = self.repo.find_method(self.types[fn.value.id], a)
            if t is None or a in self.stored or fn.attr in self.stored:
                return
            tgt, skip = t, (1 if t.kind in ("method", "class") else 0)
        else:
            r = self.resolve(fn, m, cls, local, f)
            if r is None:
                if isinstance(fn, ast.Attribute):
                    self.someone(n, f, m, local)
                return
            if r[0] == "func":
                t = r[1]
                tgt = t
                if t.cls is None:
                    skip = 0
                else:
                    skip = 1 if t.kind == "class" else 0
            elif r[0] == "class":
                ok, _ = self.names_of(r[1])
                t = self.repo.find_method(r[1], "__init__")
                if t is None or self.repo.find_method(r[1], "__new__"):
                    return
                if not ok and "__init__" not in r[1].methods:
                    return
                tgt, skip = t, 1
        if tgt is None:
            return
        if set(tgt.decorators) - {"staticmethod", "classmethod"}:
            return
        if any(isinstance(a, ast.Starred) for a in n.args) or any(
                k.arg is None for k in n.keywords):
            return
        self.n["calls"] += 1
        for text in misfits(n, tgt, skip):
            self.bad(f, n, text)

    def someone(self, n, f, m, local):
        """a method of an object of unknown class: one of the methods of
        that name has to take these arguments"""
        fn = n.func
        x = fn.value
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id == "super":
            return
        while isinstance(x, ast.Attribute):
            x = x.value
        if isinstance(x, ast.Name) and x.id not in local and \
                self.repo.member(m, x.id)[0] in ("ext", "class", "module"):
            return
        ts = self.methods.get(fn.attr)
        if not ts or fn.attr in self.several or fn.attr.startswith("__"):
            return
        if any(isinstance(a, ast.Starred) for a in n.args) or any(
                k.arg is None for k in n.keywords):
            return
        if any(set(t.decorators) - {"staticmethod", "classmethod"}
               for t in ts):
            return
        self.n["calls"] += 1
        texts = []
        for t in ts:
            w = misfits(n, t, 1 if t.kind in ("method", "class") else 0)
            if not w:
                return
            texts += w
        self.bad(f, n, texts[0])


def misfits(n, tgt, skip):
    """why the call n does not fit the function tgt"""
    out = []
    a = tgt.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    need = len(a.posonlyargs + a.args) - len(a.defaults) - skip
    kw = [k.arg for k in n.keywords]
    if len(n.args) > len(pos) and a.vararg is None:
        return ["%s takes %d arguments and is given %d" % (
            tgt.qual, len(pos), len(n.args))]
    kwonly = [x.arg for x in a.kwonlyargs]
    for k in kw:
        if k not in pos + kwonly and a.kwarg is None:
            out.append("%s has no argument %s" % (tgt.qual, k))
        elif k in pos[:len(n.args)]:
            out.append("%s is given %s twice" % (tgt.qual, k))
    for p in pos[len(n.args):max(need, 0)]:
        if p not in kw:
            out.append("%s is not given %s" % (tgt.qual, p))
    return out


SELFTEST = [
    ("def f(a):\n    return b\n", 1),
    ("def f(a):\n    if a:\n        b = 1\n    return b\n", 0),
    ("def f(a):\n    c = b\n    b = 1\n    return c\n", 1),
    ("def f(a):\n    for i in a:\n        if i:\n            b = i\n"
     "        c = b\n    return [c for c in a]\n", 0),
    ("def f(a):\n    return xrange(a)\n", 1),
    ("def g(a, b=1):\n    return a\ndef f(a):\n    return g()\n", 1),
    ("def g(a, b=1):\n    return a\ndef f(a):\n    return g(1, c=2)\n", 1),
    ("class C:\n    def h(self):\n        return self.nothing\n", 1),
    ("class C:\n    def __init__(self):\n        self.x = 1\n"
     "    def h(self):\n        return self.x\n", 0),
    ("import numpy\ndef f(a):\n    return numpy.vertical_stack(a)\n", 1),
    ("import numpy\ndef f(a):\n    return numpy.linalg.inv(a).dot(a)\n", 0),
    ("import numpy\ndef f(a):\n    return numpy.linalg.invert(a)\n", 1),
    ("def f(a):\n    return a.appendd(1)\n", 1),
    ("class C:\n    def hopping(self, a):\n        return a\n"
     "def f(a):\n    return a.hopping()\n", 1),
    ("class C:\n    def hopping(self, a):\n        return a\n"
     "def f(a):\n    return a.hopping(1)\n", 0),
    ("class C:\n    def start(self, a):\n        return a\n"
     "def f(a):\n    c = C()\n    return c.start()\n", 1),
    ("class C:\n    def start(self, a):\n        return a\n"
     "def f(a):\n    c = C()\n    return c.close()\n", 1),
    ("class C:\n    def start(self, a):\n        return a\n"
     "def f(a):\n    c = C()\n    if a:\n        c = a\n"
     "    return c.close()\n", 0),
]


def check(repo, m, mem=None):
    from .. import repo as RP
    ch = Checker(repo, m, None)
    ch.scope(ast.FunctionDef(name="", args=ast.arguments(
        posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
        body=m.tree.body, decorator_list=[], lineno=1, col_offset=0),
        "", set(), None)
    mem = mem or Members(repo)
    mem.out = []
    mem.n = {"attributes": 0, "calls": 0}
    done = set()
    for f in m.functions.values():
        mem.function(f, m, None)
    for c in m.classes.values():
        for f in c.methods.values():
            if id(f) not in done:
                done.add(id(f))
                mem.function(f, m, c)
    assert RP
    return ch.out, ch.n, list(mem.out), dict(mem.n)


@rule("names", "P21", 55, "every name, attribute, keyword and number of "
      "arguments used in the library exists; no local is read where nothing "
      "can have assigned it; nothing that Python 3 dropped is used")
def names(repo):
    from ..repo import ModuleInfo
    for src, n in SELFTEST:
        r2 = Small(ModuleInfo("selftest", "selftest.py", "selftest.py",
                              source=src))
        a, _, b, _ = check(r2, r2.modules["selftest"])
        if len(a) + len(b) != n:
            raise AssertionError("self test of the rule: %s %s" % (
                src, a + b))
    rep = Report()
    mem = Members(repo)
    for nm, m in sorted(repo.modules.items()):
        if nm == "cxx" or nm.startswith("$"):
            continue
        a, n1, b, n2 = check(repo, m, mem)
        if not a and not b:
            rep.ok("%s: %d names, %d attributes, %d calls" % (
                nm, n1["names"], n2["attributes"], n2["calls"]))
        for scope, line, text in sorted(set(a)):
            rep.bad("%s%s/%s" % (nm, scope, text), "%s:%d" % (m.rel, line),
                    text)
        for scope, line, text in sorted(set(b)):
            rep.bad("%s/%s" % (scope, text), "%s:%d" % (m.rel, line), text)
    return rep


class Small(object):
    """a repository of one module"""

    def __init__(self, m):
        from ..repo import Repo
        self.modules = {m.name: m}
        for k in ("member", "resolve", "sub", "bases", "mro", "lookup_expr",
                  "find_method", "find_attr"):
            setattr(self, k, getattr(Repo, k).__get__(self))
