"""The shape of the library around its functions: what names are bound to,
how a function is attached to its class, what a class inherits and which
operators it redefines, and what importing a module does to the others.
The contracts compare function bodies; this is what the bodies rely on."""
import ast
import builtins
import json
import os
from . import bodies
from . import specs as S
from . import terms as T
from .repo import mangle

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, "baseline_shape.json")

# redefining one of these changes what an expression of a caller does
PROTOCOL = frozenset("""__bool__ __len__ __iter__ __next__ __contains__
__getattr__ __getattribute__ __setattr__ __delattr__ __getitem__ __setitem__
__delitem__ __eq__ __lt__ __le__ __gt__ __ge__ __new__ __copy__ __deepcopy__
__reduce__ __reduce_ex__ __getstate__ __setstate__ __getnewargs__
__getnewargs_ex__ __del__ __add__ __radd__ __iadd__ __sub__ __rsub__ __isub__
__mul__ __rmul__ __imul__ __truediv__ __rtruediv__ __itruediv__ __neg__
__abs__ __float__ __int__ __index__ __array__ __length_hint__ __reversed__
__missing__ __set_name__ __get__ __set__ __init_subclass__ __instancecheck__
""".split())
CACHES = frozenset("""lru_cache cache cached_property memoize memoise
memoized""".split())
HARMLESS_BASES = frozenset(["object", "abc.ABC"])


def library(repo):
    return [m for n, m in sorted(repo.modules.items())
            if n.split(".")[0] == "xboa" and not n.startswith(
                ("xboa.test", "xboa.examples"))]


def target(r):
    if r[0] == "module":
        return "m:" + r[1].name
    if r[0] == "class":
        return "c:" + r[1].module.name + ":" + r[1].name
    if r[0] == "func":
        return "f:" + r[1].qual
    if r[0] == "global":
        return "g:%s:%s" % (r[1].name, r[2])
    if r[0] == "ext":
        return "e:" + r[1]
    return None


def linear(repo, c, seen=None):
    """the classes an attribute of c is looked up in, by name"""
    out = ["%s:%s" % (c.module.name, c.name)]
    for b in c.bases:
        r = repo.lookup_expr(c.module, b)
        if r and r[0] == "class":
            out += linear(repo, r[1])
        else:
            t = target(r) if r else None
            out.append(t[2:] if t and t.startswith("e:") else b)
    return list(dict.fromkeys(out))


def attach(c, name, node):
    """(kind, [other decorators]) of a function of a class (or of a module,
    c None), after what the rest of the body does to its name"""
    kind, other = "plain", []
    for d in node.decorator_list:
        t = ast.unparse(d)
        f = t.split("(")[0]
        if f in ("staticmethod", "classmethod", "property"):
            kind = {"staticmethod": "static", "classmethod": "class",
                    "property": "property"}[f]
        elif f.endswith((".setter", ".deleter", ".getter")):
            kind = "property"
        else:
            other.append(t)
    return kind, other


def rebound(body, node):
    """what follows the definition and binds its name again"""
    seen = False
    out = []
    for st in body:
        if st is node:
            seen = True
            out = []
            continue
        if not seen:
            continue
        if isinstance(st, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == node.name
                for t in st.targets):
            out.append(st.value)
        elif isinstance(st, ast.Delete) and any(
                isinstance(t, ast.Name) and t.id == node.name
                for t in st.targets):
            out.append(None)
    return out


def functions(repo):
    """qual -> (kind, decorators, where)"""
    out = {}
    for m in library(repo):
        todo = [(None, m.tree.body, m)]
        for c in m.classes.values():
            todo.append((c, c.node.body, m))
        for c, body, m in todo:
            for st in body:
                if not isinstance(st, ast.FunctionDef):
                    continue
                kind, other = attach(c, st.name, st)
                for v in rebound(body, st):
                    if v is None:
                        other.append("del")
                        continue
                    t = ast.unparse(v)
                    if isinstance(v, ast.Call) and isinstance(
                            v.func, ast.Name) and v.func.id in (
                            "staticmethod", "classmethod", "property") and \
                            len(v.args) >= 1 and ast.unparse(
                                v.args[0]) == st.name:
                        kind = {"staticmethod": "static",
                                "classmethod": "class",
                                "property": "property"}[v.func.id]
                    else:
                        other.append("= " + t)
                q = "%s:%s%s" % (m.name, c.name + "." if c else "", st.name)
                out[q] = (kind, other, "%s:%d" % (m.rel, st.lineno))
    return out


def special(repo, c):
    out = set()
    for k in repo.mro(c):
        for n in list(k.methods) + list(k.attrs):
            if n in PROTOCOL:
                out.add(n)
    return sorted(out)


def imports(m):
    """module level import bindings, in order"""
    return dict(m.imports)


def main_guard(st):
    return isinstance(st, ast.If) and "__name__" in ast.unparse(st.test)


def top(m, cls=None):
    src = m.tree if cls is None else cls.node
    return [s for s in src.body if not isinstance(s, (
        ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom))
        and not main_guard(s)
        and not (isinstance(s, ast.Expr) and isinstance(s.value,
                                                        ast.Constant))]


def patches(repo, m):
    """statements run on import that bind or delete a member of an object
    that has its own definition"""
    out = []

    def lib(e):
        """the class, module or function an expression names"""
        n = e
        while isinstance(n, ast.Attribute):
            n = n.value
        if not isinstance(n, ast.Name):
            return None
        try:
            r = repo.lookup_expr(m, ast.unparse(e))
        except (RecursionError, KeyError):
            return None
        if r and r[0] in ("class", "module", "func"):
            return target(r)
        if r and r[0] == "ext":
            return target(r)
        return None

    def walk(body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)) or \
                    main_guard(st):
                continue
            for n in ast.walk(st):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    t = lib(n.value)
                    if t is not None:
                        out.append((t, n.attr, st, ast.unparse(st)))
                elif isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Name) and n.func.id in (
                        "setattr", "delattr") and n.args:
                    t = lib(n.args[0])
                    if t is not None:
                        a = n.args[1] if len(n.args) > 1 else None
                        out.append((t, a.value if isinstance(a, ast.Constant)
                                    else "*", st, ast.unparse(st)))
    walk(m.tree.body)
    for c in m.classes.values():
        walk(c.node.body)
    return out


def effects(repo, m, cls=None):
    """what importing does outside the names of the module: roots of shared
    state with another value than their definition gives them, and the trace
    of outside effects.  {name: shown}, or a reason it is not known"""
    body = top(m, cls)
    if not any(isinstance(n, (ast.Call, ast.Attribute, ast.Subscript))
               for s in body for n in ast.walk(s)):
        return {}
    try:
        T.budget(200000, 20)
        ev, vals, out = evaluate(repo, m, cls, body)
    except (T.Blowup, OverflowError, RecursionError) as e:
        return "budget: %s" % e
    if out is None:
        return "the body always raises"
    got = {}
    for r, v in out.heap.items():
        if r == "$io":
            if v.op == "list":
                for x in v.args[0]:
                    got.setdefault("outside: " + T.show(x, 0, 6)[:200], v)
            else:
                got["outside: " + T.show(v, 0, 6)[:200]] = v
        elif r.startswith(("$g:", "$c:")):
            d = ev.rootdefault(r, T.Sym(r))
            if not T.equal(v, d):
                got[r] = v
    return got


def evaluate(repo, m, cls, body):
    ev = S.make_eval(repo, S.default_vocab(repo), S.PRIMS, None)
    T._level[0] = 0
    fn = bodies.Fake()
    fn.node = ast.Module(body=body, type_ignores=[])
    fr = bodies.Frame(None, m, cls)
    st = bodies.State()
    if cls is not None:
        for n, f in cls.methods.items():
            if not getattr(f, "ghost", False):
                st.env[f.name] = ev.newroot(st, T.mk("fn", f.qual))
    fr.locals_module = True
    out = ev.block(body, st, fr)
    return ev, None, out


def instance_attrs(repo, c):
    """names stored through self in the methods of the class"""
    out = {}
    for k in repo.mro(c):
        for f in k.methods.values():
            ps = f.params()
            if not ps:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Store) and isinstance(
                        n.value, ast.Name) and n.value.id == ps[0]:
                    out.setdefault(n.attr, f.qual)
    return out


def snapshot(repo):
    out = {"bindings": {}, "classes": {}, "functions": {}, "effects": {},
           "patches": {}}
    for m in library(repo):
        out["bindings"][m.name] = {
            n: target(repo.member(m, n)) for n in sorted(imports(m))}
        for c in m.classes.values():
            q = "%s:%s" % (m.name, c.name)
            out["classes"][q] = {"mro": linear(repo, c),
                                 "special": special(repo, c)}
            e = effects(repo, m, c)
            if e:
                out["effects"][q] = e if isinstance(e, str) else sorted(e)
        e = effects(repo, m)
        if e:
            out["effects"][m.name] = e if isinstance(e, str) else sorted(e)
        p = patches(repo, m)
        if p:
            out["patches"][m.name] = sorted(x[3] for x in p)
    for q, (kind, other, _w) in sorted(functions(repo).items()):
        out["functions"][q] = [kind, other]
    return out


def baseline():
    with open(BASE) as f:
        return json.load(f)
