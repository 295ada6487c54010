"""A contract that fails outside the set of a property may still break the
property, through a function of the property that uses the failing one.

For a failing function g and a function f of the property that reaches it by
resolved calls, the reference of f is evaluated twice with the functions on
the way expanded: once with the reference of g, once with g as it is in the
tree. The two graphs differ definitely exactly when g's change reaches what f
does."""
import ast
from . import specs as S
from . import terms as T


class Without(object):
    """the references, but the named functions as they are in the tree"""

    def __init__(self, refmap, drop):
        self.refmap = refmap
        self.drop = drop

    def find(self, qual):
        if qual in self.drop:
            return None
        return self.refmap.find(qual)


def token(qual):
    p = qual.split(":")[1].split(".")
    return p[-2] if p[-1] == "__init__" and len(p) > 1 else p[-1]


def tokens(repo, sp):
    out = set()
    nodes = [sp.fi.node]
    t = repo.func(sp.target)
    if t is not None:
        nodes.append(t.node)
    for node in nodes:
        for n in ast.walk(node):
            if isinstance(n, ast.Name):
                out.add(n.id)
            elif isinstance(n, ast.Attribute):
                out.add(n.attr)
    return out


def coarse(repo, every, goals):
    """contracts whose text names a goal, directly or through others, with
    the users of each"""
    tok = {s.target: tokens(repo, s) for s in every}
    reach = set(goals)
    names = set(token(q) for q in goals)
    changed = True
    while changed:
        changed = False
        for q, ts in tok.items():
            if q not in reach and ts & names:
                reach.add(q)
                names.add(token(q))
                changed = True
    return reach


def types_of(sp):
    types = {k: S.SHORT.get(x, x) for k, x in sp.opts.get("types",
                                                          {}).items()}
    a = sp.fi.node.args
    for p in a.posonlyargs + a.args:
        if p.annotation is not None:
            tx = ast.unparse(p.annotation).strip("'\"")
            types[p.arg] = S.SHORT.get(tx, tx)
    return types


def graph(repo, sp, vocab, refmap):
    o = sp.opts
    prims = [p for p in S.PRIMS if not o.get("noprims")] + \
        list(o.get("prims", ()))
    ev = S.make_eval(repo, vocab, prims, None)
    ev.refmap = refmap
    t = repo.func(sp.target)
    return ev.function(S.SpecFI(repo, sp, t), types=types_of(sp)), ev


def callees(repo, sp, vocab):
    """qualified names of the functions the reference calls"""
    t = repo.func(sp.target)
    if t is None or getattr(t, "ghost", False):
        return set()
    try:
        T.budget(200000, 20)
        r, _ = graph(repo, sp, vocab - {sp.target}, repo.refmap)
    except (T.Blowup, OverflowError, RecursionError):
        return set()
    return set(n.lstrip(".") for n in S.names_of(r) if ":" in n)


def effect(repo, sp, path, bad, vocab):
    """how the change of the functions in bad shows in sp, or None"""
    o = sp.opts
    try:
        T.budget(400000, 40)
        a, e1 = graph(repo, sp, vocab - path - {sp.target},
                      Without(repo.refmap, bad))
        b, e2 = graph(repo, sp, vocab - path - {sp.target}, repo.refmap)
        if not o.get("value", True):
            pairs = []
        elif o.get("noraise"):
            pairs = [("result", S.drop_raise(a.value),
                      S.drop_raise(b.value))]
        else:
            pairs = [("result", a.value, b.value)]
        if o.get("state", True):
            for r in sorted(set(a.heap) | set(b.heap)):
                if r in ("$yield",) or r == "$io" and not o.get("io", True):
                    continue
                x, y = a.heap.get(r), b.heap.get(r)
                if x is None:
                    x = T.mk("list", ()) if r == "$io" else \
                        e1.rootdefault(r, T.Sym(r))
                if y is None:
                    y = T.mk("list", ()) if r == "$io" else \
                        e2.rootdefault(r, T.Sym(r))
                if r == "$io":
                    x, y = T.trace(x), T.trace(y)
                if o.get("noraise"):
                    x, y = S.drop_raise(x), S.drop_raise(y)
                pairs.append(("state " + r, x, y))
        diffs = []
        for nm, x, y in pairs:
            if T.has_opaque(x) or T.has_opaque(y):
                return None
            if not T.equal(x, y):
                diffs.append("%s: %s" % (nm, S.diffshow(x, y)))
        if not diffs:
            return None
        new = S.names_of(a) - S.names_of(b) - S.KNOWN
        if new:
            return None
        return "; ".join(diffs)
    except (T.Blowup, OverflowError, RecursionError):
        return None
