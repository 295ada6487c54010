"""what the function bodies rely on: attachment, inheritance, operators,
imported names, and what importing does to other modules"""
import ast
import builtins
from . import rule, Report
from .. import bodies, shape, specs as S, terms as T

ALL = " ".join("P%02d" % i for i in range(1, 35) if i not in (7, 10, 20))


def owners(repo):
    """properties of a function, a class, a module"""
    if not hasattr(repo, "_shape_owners"):
        f, c, m = {}, {}, {}
        for s in S.load(repo):
            if s.target.startswith("cxx:"):
                continue
            f.setdefault(s.target, set()).update(s.props)
            mod, _, rest = s.target.partition(":")
            m.setdefault(mod, set()).update(s.props)
            if "." in rest:
                c.setdefault(mod + ":" + rest.split(".")[0],
                             set()).update(s.props)
        repo._shape_owners = f, c, m
    return repo._shape_owners


def props_of(repo, what):
    """'mod:func', 'mod:Class.func', 'mod:Class' or 'mod'"""
    f, c, m = owners(repo)
    mod, _, rest = what.partition(":")
    got = f.get(what) or c.get(what) or (
        c.get(mod + ":" + rest.split(".")[0]) if "." in rest else None) or \
        m.get(mod)
    if not got:
        # a package: what it hands on
        got = set()
        for k, v in m.items():
            if k.startswith(mod + ".") and mod != "xboa":
                got |= v
    return set(got or ()) | {"P21"}


def calls(kind):
    """parameters bound by a call through (the class, an instance)"""
    return {"plain": (0, 1), "static": (0, 0), "class": (1, 1),
            "property": ("p", "p")}[kind]


def cached(repo, q):
    """why a cache on the function changes what it does, or None"""
    fi = repo.func(q)
    if fi is None:
        return None
    ev = S.make_eval(repo, S.default_vocab(repo), S.PRIMS, None)
    try:
        T.budget(200000, 20)
        r = ev.function(fi, types={})
    except (T.Blowup, OverflowError, RecursionError):
        return None
    if r.heap.get("$io") is not None and \
            r.heap["$io"] is not T.mk("list", ()):
        return "what it does outside happens only once"
    for n, v in r.heap.items():
        if n != "$io" and not n.isdigit() and not T.equal(
                v, ev.rootdefault(n, T.Sym(n))):
            return "what it changes is changed only once"
    for k, v in T.free(r.value):
        if k == "sym" and str(v).startswith(("$g:", "$c:")):
            return "it reads %s, which may have changed since" % v
    ps = fi.params()
    if ps and fi.kind == "method" or fi.kind == "class":
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.value, ast.Name) and n.value.id == ps[0] and \
                    (fi.cls is None or n.attr not in fi.cls.methods):
                return "it reads .%s, which may have changed since" % n.attr
    if r.value.op in ("list", "dict", "set", "comp", "concat", "dcomp"):
        return "every caller gets the same container"
    return None


@rule("attach", ALL, 1, "a reviewed function is still attached to its class "
      "the same way (static, class, plain, property), is not bound again "
      "after its definition, and no cache stands in front of a function "
      "whose result depends on more than its arguments")
def attach(repo, prop):
    rep = Report()
    base = shape.baseline()["functions"]
    now = shape.functions(repo)
    for q, (kind, other) in sorted(base.items()):
        if q not in now or prop not in props_of(repo, q):
            continue
        k, o, where = now[q]
        c = q + " attached"
        if k != kind:
            fi = repo.func(q)
            n = len(fi.params()) if fi else 0
            if S.private(q) and "property" not in (k, kind):
                rep.unknown(c, "was %s, is %s" % (kind, k))
            elif "property" in (k, kind):
                rep.bad(c, where, "was %s, is %s: it is %s now" % (
                    kind, k, "called by being read" if k == "property"
                    else "no longer read as a value"))
            elif shape_arity(repo, q, n, kind, k):
                rep.unknown(c, "was %s, is %s" % (kind, k))
            else:
                rep.bad(c, where, "was %s, is %s: a call binds its "
                        "parameters differently" % (kind, k))
            continue
        new = [x for x in o if x not in other]
        if not new:
            rep.ok(c)
            continue
        done = False
        for x in new:
            nm = x.lstrip("= ").split("(")[0].split(".")[-1]
            inner = set(shape.CACHES) & set(
                x.replace("(", ".").replace(")", ".").replace(" ", ".")
                .split("."))
            if inner:
                why = "each call makes a new one of it" \
                    if not x else cached(repo, q)
                if why:
                    rep.bad(c, where, "is cached (%s), but %s" % (x, why))
                    done = True
            elif x == "del":
                rep.bad(c, where, "is deleted after its definition")
                done = True
            elif x.startswith("= ") and nm and rebinds(repo, q, x[2:]):
                rep.bad(c, where, "is bound to %s after its definition" %
                        x[2:])
                done = True
        if not done:
            rep.unknown(c, "decorated with " + ", ".join(new))
    return rep


def shape_arity(repo, q, n, kind, k):
    """the function gained or lost the bound parameter with the change"""
    for s in S.load(repo):
        if s.target == q:
            m = len(s.fi.params())
            a, b = calls(kind), calls(k)
            inst = n - b[1] == m - a[1]
            if kind == "plain":
                return inst
            return inst and n - b[0] == m - a[0]
    return True


def rebinds(repo, q, text):
    """the new value certainly is not the function, wrapped or not"""
    name = q.split(":")[1].split(".")[-1]
    e = ast.parse(text, mode="eval").body
    if any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(e)):
        return False
    if isinstance(e, ast.Name):
        # another name for it?
        return True
    return isinstance(e, (ast.Constant, ast.List, ast.Dict, ast.Tuple,
                          ast.Lambda))


@rule("inherits", ALL, 1, "a class still inherits from everything it "
      "inherited from, redefines no operator it did not redefine, and no "
      "property hides an attribute its methods store")
def inherits(repo, prop):
    rep = Report()
    base = shape.baseline()["classes"]
    for q, b in sorted(base.items()):
        if prop not in props_of(repo, q):
            continue
        c = repo.cls(q.replace(":", "."))
        if c is None:
            continue           # the contracts report its functions
        where = "%s:%d" % (c.module.rel, c.node.lineno)
        now = shape.linear(repo, c)
        here = q + " inherits"
        lost = [x for x in b["mro"] if x not in now and
                x not in shape.HARMLESS_BASES]
        came = [x for x in now if x not in b["mro"] and
                x not in shape.HARMLESS_BASES]
        outside = [x for x in came if ":" not in x]
        if lost and not came or [x for x in lost if known(repo, x)]:
            rep.bad(here, where, "%s no longer inherits from %s" % (
                q, ", ".join(lost)))
        elif lost:
            rep.unknown(here, "%s in the place of %s" % (came, lost))
        elif [x for x in outside if hasattr(builtins, x) and
              shape.PROTOCOL & set(vars(getattr(builtins, x))) -
              set(vars(object))]:
            rep.bad(here, where, "%s now is a %s" % (q, ", ".join(outside)))
        elif outside:
            rep.unknown(here, "new base %s" % ", ".join(outside))
        else:
            order = [x for x in now if x in b["mro"]]
            if order != [x for x in b["mro"] if x in now]:
                rep.bad(here, where, "%s looks attributes up in another "
                        "order: %s" % (q, ", ".join(order)))
            else:
                rep.ok(here)
        # operators
        new = [x for x in shape.special(repo, c) if x not in b["special"]]
        gone = [x for x in b["special"] if x not in shape.special(repo, c)]
        here = q + " operators"
        for n in new:
            f = repo.find_method(c, n)
            w = f.where if f is not None else where
            rep.bad(here, w, "%s now defines %s: every %s on it means "
                    "something else" % (q, n, meaning(n)))
        for n in gone:
            rep.bad(here, where, "%s no longer defines %s" % (q, n))
        if not new and not gone:
            rep.ok(here)
        # properties over stored attributes
        inst = shape.instance_attrs(repo, c)
        for k in repo.mro(c):
            for st in k.node.body:
                if not isinstance(st, ast.FunctionDef):
                    continue
                kind, _o = shape.attach(k, st.name, st)
                qq = "%s:%s.%s" % (k.module.name, k.name, st.name)
                if kind == "property" and st.name in inst and \
                        qq not in shape_functions(repo) and not any(
                            isinstance(x, ast.FunctionDef) and any(
                                ast.unparse(d) == st.name + ".setter"
                                for d in x.decorator_list)
                            for x in k.node.body):
                    rep.bad(qq, "%s:%d" % (k.module.rel, st.lineno),
                            "the property cannot be stored, and %s stores "
                            "it" % inst[st.name])
    return rep


def shape_functions(repo):
    return shape.baseline()["functions"]


def known(repo, q):
    """the class is still in the library (so it was not renamed)"""
    return ":" in q and repo.cls(q.replace(":", ".")) is not None


def meaning(n):
    return {"__bool__": "test", "__len__": "test and len()",
            "__contains__": "'in'", "__iter__": "loop and 'in'",
            "__eq__": "comparison", "__getattr__": "missing attribute",
            "__setattr__": "store of an attribute",
            "__getitem__": "subscript", "__setitem__": "stored item",
            "__copy__": "copy", "__deepcopy__": "deep copy",
            "__new__": "construction"}.get(n, n.strip("_"))


@rule("bindings", ALL, 1, "an imported name still stands for what it stood "
      "for, and none hides a builtin function")
def bindings(repo, prop):
    rep = Report()
    base = shape.baseline()["bindings"]
    for mn, names in sorted(base.items()):
        m = repo.modules.get(mn)
        if m is None or prop not in props_of(repo, mn):
            continue
        late = late_imports(m)
        for n, want in sorted(names.items()):
            c = "%s:%s imported" % (mn, n)
            got = shape.target(repo.member(m, n))
            if n in late:
                got = "late"
            if got == want:
                rep.ok(c)
            elif want is None:
                if m.imports.get(n, "").split(".")[-1] == n:
                    rep.ok(c)
                else:
                    rep.unknown(c, "imported from elsewhere")
            elif n not in m.imports and n not in m.functions and \
                    n not in m.classes and n not in m.assigns:
                if repo.member(m, n)[0] == "missing" and m.is_pkg and \
                        not n.startswith("_") and \
                        want[0] in "cfg" and prop in props_of(
                            repo, want[2:].split(".")[0] if want[0] == "f"
                            else want[2:]):
                    rep.bad(c, m.rel + ":1", "the package no longer hands "
                            "on %s" % want[2:])
                else:
                    rep.ok(c)
            elif got is None or got[0] == "g" or want[0] == "g":
                rep.unknown(c, "bound in another way")
            elif got[0] == "e" and want[0] == "e":
                a, b = got[2:].split("."), want[2:].split(".")
                if a[-1] == b[-1]:
                    rep.unknown(c, "%s in the place of %s" % (
                        got[2:], want[2:]))
                else:
                    rep.bad(c, where(m, n), "stands for %s, not for %s" % (
                        got[2:], want[2:]))
            elif want[0] in "cfm" and not there(repo, want):
                rep.unknown(c, "%s is not there any more" % want[2:])
            elif got[0] in "cf" and want[0] == got[0] and m.is_pkg is False \
                    and got[2:].split(":")[0] == mn:
                rep.unknown(c, "defined here now")
            else:
                rep.bad(c, where(m, n), "stands for %s, not for %s" % (
                    got[2:], want[2:]))
        for n in m.imports:
            if n in names or not hasattr(builtins, n) or n.startswith("__"):
                continue
            t = shape.target(repo.member(m, n)) or ""
            if t == "e:builtins." + n:
                continue
            if any(isinstance(x, ast.Name) and x.id == n and
                   isinstance(x.ctx, ast.Load) for x in ast.walk(m.tree)):
                rep.bad("%s:%s imported" % (mn, n), where(m, n),
                        "%s hides the builtin function %s in the module" % (
                            t[2:], n))
    return rep


def there(repo, want):
    if want[0] == "m":
        return want[2:] in repo.modules
    if want[0] == "c":
        return repo.cls(want[2:].replace(":", ".")) is not None
    return repo.func(want[2:]) is not None


def where(m, name):
    for st in ast.walk(m.tree):
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                if (a.asname or a.name.split(".")[0]) == name:
                    return "%s:%d" % (m.rel, st.lineno)
    return m.rel + ":1"


def late_imports(m):
    """names a plain import binds again after their definition"""
    last = {}
    for st in m.tree.body:
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            last[st.name] = "def"
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    last[t.id] = "def"
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                n = a.asname or a.name.split(".")[0]
                last[n] = "late" if last.get(n) == "def" else "import"
    return set(n for n, k in last.items() if k == "late")


@rule("onimport", ALL, 1, "importing a module changes no class, table or "
      "setting outside its own names that the reviewed module left alone")
def onimport(repo, prop):
    rep = Report()
    base = shape.baseline()
    for m in shape.library(repo):
        todo = [(m.name, None)]
        todo += [("%s:%s" % (m.name, c.name), c) for c in m.classes.values()]
        mine = prop in props_of(repo, m.name)
        for q, c in todo:
            e = effects(repo, m, c)
            want = base["effects"].get(q, [])
            w = "%s:%d" % (m.rel, c.node.lineno if c else 1)
            if isinstance(e, str) or isinstance(want, str):
                if mine:
                    rep.unknown(q + " on import", str(e))
                continue
            bad = False
            for k in sorted(e):
                if k in want:
                    continue
                if T.has_opaque(e[k]) and k.startswith("outside"):
                    if mine:
                        rep.unknown(q + " on import", k[:100])
                    continue
                if k.startswith("outside: "):
                    if mine:
                        bad = True
                        rep.bad(q + " on import", w, "importing does "
                                + k[9:])
                elif prop in root_props(repo, k):
                    bad = True
                    rep.bad(q + " on import", w, "importing changes %s to "
                            "%s" % (k[3:], T.show(e[k], 0, 4)[:120]))
            if mine and not bad:
                rep.ok(q + " on import")
        for t, attr, st, text in shape.patches(repo, m):
            if text in base["patches"].get(m.name, ()):
                continue
            if t[0] == "e":
                if mine:
                    rep.bad(m.name + " patches", "%s:%d" % (
                        m.rel, st.lineno), "importing binds .%s of %s" % (
                            attr, t[2:]))
            else:
                q = t[2:]
                ps = props_of(repo, q + "." + attr if t[0] == "c" else
                              q + ":" + attr if t[0] == "m" else q)
                if prop in ps:
                    rep.bad(m.name + " patches", "%s:%d" % (
                        m.rel, st.lineno), "importing binds .%s of %s" % (
                            attr, q))
        if mine:
            rep.ok(m.name + " patches")
    return rep


def effects(repo, m, c):
    memo = repo.__dict__.setdefault("_shape_effects", {})
    k = (m.name, c and c.name)
    if k not in memo:
        memo[k] = shape.effects(repo, m, c)
    return memo[k]


def root_props(repo, root):
    """properties of a shared variable: those of its reviewed value, or of
    what it is defined in"""
    kind, name = root[:3], root[3:]
    own, _, attr = name.rpartition(".")
    mod, _, cls = own.rpartition(".")
    q = own if kind == "$g:" else "%s:%s" % (mod, cls)
    for b, node, pm in bodies.load(repo):
        if b == q:
            if attr in pm:
                return set(pm[attr].split()) | {"P21"}
            break
    return props_of(repo, q)


SAMPLE = """
import functools
from math import floor as abs
def g():
    pass
from os import path as g
class A(object):
    @functools.lru_cache(None)
    def f(self):
        return self.x
    def h(x):
        pass
    h = staticmethod(h)
    def k(self):
        pass
    k = None
    def __len__(self):
        return 0
class B(A):
    pass
A.f = g
setattr(B, "h", 1)
if __name__ == "__main__":
    A.z = 1
"""


def selftest():
    """what the rules look for is seen in a sample that has all of it"""
    from ..repo import ModuleInfo
    from .names import Small
    r = Small(ModuleInfo("xboa.selftest", "x.py", "x.py", source=SAMPLE))
    m = r.modules["xboa.selftest"]
    fs = {q.split(":")[1]: v[:2] for q, v in shape.functions(r).items()}
    assert fs == {"g": ("plain", []), "A.__len__": ("plain", []),
                  "A.f": ("plain", ["functools.lru_cache(None)"]),
                  "A.h": ("static", []), "A.k": ("plain", ["= None"])}, fs
    b = m.classes["B"]
    assert shape.linear(r, b) == ["xboa.selftest:B", "xboa.selftest:A",
                                  "object"] or shape.linear(r, b)[:2] == [
        "xboa.selftest:B", "xboa.selftest:A"], shape.linear(r, b)
    assert shape.special(r, b) == ["__len__"]
    got = sorted((t, a) for t, a, _s, _x in shape.patches(r, m))
    assert got == [("c:xboa.selftest:A", "f"), ("c:xboa.selftest:B", "h")], \
        got
    assert late_imports(m) == {"g"}
    assert shape.target(r.member(m, "abs")) == "e:math.floor"
    assert "x" not in shape.instance_attrs(r, b)


selftest()
