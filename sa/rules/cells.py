"""one container in several places: a list made once, put into another
container on every turn of a loop (or by repetition), and then changed
through one of the places"""
import ast
from . import rule, Report
from .shape import ALL as MOST, props_of

ALL = " ".join(p for p in MOST.split() if p != "P21")

GROW = {"append", "insert", "add", "appendleft"}
CHANGE = {"append", "insert", "extend", "pop", "clear", "update", "sort",
          "remove", "reverse", "add", "discard", "setdefault", "popitem",
          "appendleft", "popleft", "fill"}
MAKERS = {"list", "dict", "set", "numpy.zeros", "numpy.ones", "numpy.empty",
          "numpy.array", "numpy.matrix", "np.zeros", "np.ones", "np.empty",
          "np.array", "np.matrix", "copy.deepcopy", "copy.copy"}


def makes(e):
    """is the expression a container made on the spot?"""
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                      ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        return isinstance(e.left, (ast.List, ast.ListComp)) or \
            isinstance(e.right, (ast.List, ast.ListComp))
    return isinstance(e, ast.Call) and ast.unparse(e.func) in MAKERS


def walk(node):
    """the statements and expressions of one function, no inner functions"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop(0)
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                              ast.AsyncFunctionDef)):
            todo[:0] = list(ast.iter_child_nodes(n))


def stored(node):
    """(name, statement) for every binding of a plain name"""
    for n in walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            yield n.id, n


def text(e):
    return ast.unparse(e)


def changed(node, holds):
    """where an object for which holds(expression) is true is changed in
    place, or None"""
    for n in walk(node):
        if isinstance(n, ast.Subscript) and isinstance(
                n.ctx, (ast.Store, ast.Del)) and holds(n.value):
            return n
        if isinstance(n, ast.AugAssign) and isinstance(
                n.op, ast.Add) and holds(n.target):
            return n
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr in CHANGE and holds(n.func.value):
            return n
    return None


def cell_change(node, whole):
    """an element of the container called `whole` is changed in place"""
    names = set()
    for n in walk(node):
        if isinstance(n, ast.For) and text(n.iter) == whole and isinstance(
                n.target, ast.Name):
            names.add(n.target.id)

    def holds(e):
        if isinstance(e, ast.Subscript) and text(e.value) == whole:
            return not isinstance(e.slice, ast.Constant)
        return isinstance(e, ast.Name) and e.id in names
    return changed(node, holds)


def leaves(stmts, inner):
    """does the block that holds the statement leave the loop after it?"""
    for n in stmts:
        blocks = [getattr(n, f) for f in ("body", "orelse", "finalbody")
                  if isinstance(getattr(n, f, None), list)]
        blocks += [h.body for h in getattr(n, "handlers", ())]
        for b in blocks:
            r = leaves(b, inner)
            if r is not None:
                return r or isinstance(stmts[-1], (ast.Break, ast.Return,
                                                   ast.Raise))
        if n is inner or not blocks and any(x is inner
                                            for x in ast.walk(n)):
            return isinstance(stmts[-1], (ast.Break, ast.Return, ast.Raise))
    return None


def places(loop):
    """(container expression, name put into it, node) in a loop"""
    bound = {n for n, _ in stored(loop)}

    def outer(e):
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, ast.Name) and e.id not in bound

    def names(e):
        if isinstance(e, ast.Name):
            return [e.id]
        if isinstance(e, (ast.Tuple, ast.List)):
            return [x for y in e.elts for x in names(y)]
        return []
    for n in walk(loop):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr in GROW and n.args and outer(n.func.value):
            for x in names(n.args[-1]):
                yield n.func.value, x, n
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                isinstance(n.targets[0], ast.Subscript) and \
                isinstance(n.targets[0].slice, ast.Name) and \
                n.targets[0].slice.id in bound and \
                outer(n.targets[0].value):
            for x in names(n.value):
                yield n.targets[0].value, x, n
        elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and \
                isinstance(n.value, (ast.List, ast.Tuple)) and \
                outer(n.target):
            for x in names(n.value):
                yield n.target, x, n


def look(f):
    """[(name, node, text)] of one function"""
    made = {}
    for n in walk(f):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], ast.Name):
            made.setdefault(n.targets[0].id, []).append(n)
    count = {}
    for n, _ in stored(f):
        count[n] = count.get(n, 0) + 1
    made = {n: v for n, v in made.items()
            if len(v) == count[n] and all(makes(a.value) for a in v)}
    out = []
    for loop in walk(f):
        if not isinstance(loop, (ast.For, ast.While)):
            continue
        bound = {n for n, _ in stored(loop) if not aug(loop, n)}
        for whole, x, at in places(loop):
            if x not in made or x in bound:
                continue
            if leaves(loop.body, at):
                continue
            n = changed(loop, lambda e: isinstance(e, ast.Name) and
                        e.id == x)
            if n is not None and not rebound(loop, text(whole)):
                out.append((x, at, "%s is put into %s on every turn and "
                            "changed on every turn: all places hold the last "
                            "state of it" % (x, text(whole))))
                continue
            if not isinstance(at, ast.Call) or simple(at, x):
                n = cell_change(f, text(whole))
                if n is not None:
                    out.append((x, n, "%s holds %s in every place; what is "
                                "changed in one changes in all" % (
                                    text(whole), x)))
    for n in walk(f):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], (ast.Name, ast.Attribute)):
            v = n.value
            one = None
            if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult):
                for a, b in ((v.left, v.right), (v.right, v.left)):
                    if isinstance(a, ast.List) and len(a.elts) >= 1 and \
                            not (isinstance(b, ast.Constant) and
                                 b.value in (0, 1)):
                        one = a.elts[0]
            elif isinstance(v, ast.ListComp):
                one = v.elt if isinstance(v.elt, ast.Name) else None
            elif isinstance(v, ast.Call) and text(v.func) == \
                    "dict.fromkeys" and len(v.args) == 2:
                one = v.args[1]
            if one is None or not (makes(one) or isinstance(one, ast.Name)
                                   and one.id in made):
                continue
            whole = text(n.targets[0])
            at = cell_change(f, whole)
            if at is not None:
                out.append((whole, at, "every place of %s is the same "
                            "container; what is changed in one changes in "
                            "all" % whole))
    return out


def aug(loop, name):
    """is the name only ever added to in the loop?"""
    for n in walk(loop):
        if isinstance(n, ast.Name) and n.id == name and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            if not any(isinstance(a, ast.AugAssign) and a.target is n
                       for a in walk(loop)):
                return False
    return True


def simple(at, x):
    return isinstance(at.args[-1], ast.Name) and at.args[-1].id == x


def rebound(loop, whole):
    for n in walk(loop):
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(
                n.ctx, ast.Store) and text(n) == whole:
            return True
    return False


def key(q):
    return q + " shared container"


@rule("cells", ALL, 1, "no container is put into several places of another "
      "one and then changed through one of them")
def cells(repo, prop):
    rep = Report()
    for m in list(repo.modules.values()):
        if m.name == "cxx" or ".test" in m.name:
            continue
        fs = list(m.functions.values())
        for c in m.classes.values():
            fs += list(c.methods.values())
        for f in fs:
            if getattr(f, "ghost", False) or prop not in props_of(
                    repo, f.qual):
                continue
            got = look(f.node)
            for x, at, why in got:
                rep.bad("%s/%s" % (key(f.qual), x), "%s:%d" % (
                    m.rel, at.lineno), why)
            if not got:
                rep.ok(key(f.qual))
    return rep


ARRAYS = {"numpy.transpose", "numpy.dot", "numpy.shape", "numpy.linalg.inv",
          "numpy.linalg.det", "numpy.linalg.eig", "np.transpose", "np.dot",
          "np.shape", "scipy.linalg.inv", "numpy.linalg.eigh"}
METHODS = {"dot", "transpose", "getT", "getI", "reshape", "ravel",
           "astype", "tolist"}


def arraylike(f, names):
    """does the function use one of the names as only an array can be?"""
    for n in walk(f):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and \
                    n.func.attr in METHODS and text(n.func.value) in names:
                return True
            if text(n.func) in ARRAYS and any(text(a) in names
                                              for a in n.args):
                return True
        if isinstance(n, ast.Attribute) and n.attr in ("shape", "T", "ndim") \
                and text(n.value) in names:
            return True
        if isinstance(n, ast.Subscript) and isinstance(
                n.slice, ast.Tuple) and text(n.value) in names:
            return True
    return False


def inplace_look(f):
    """[(name, node, text)]: an array of the caller changed by x += ..."""
    ps = [a.arg for a in f.args.posonlyargs + f.args.args +
          f.args.kwonlyargs]
    bound = {}
    for n in walk(f):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], ast.Name):
            bound.setdefault(n.targets[0].id, []).append(n.value)
    plain = {}
    for n in walk(f):
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            plain.setdefault(n.target.id, []).append(n)
    count = {}
    for n, _ in stored(f):
        count[n] = count.get(n, 0) + 1
    out = []
    for x, augs in sorted(plain.items()):
        values = bound.get(x, [])
        if count[x] != len(values) + len(augs):
            continue
        if x in ps and not values:
            src = x
        elif x not in ps and len(values) == 1 and (
                isinstance(values[0], ast.Name) and values[0].id in ps and
                values[0].id not in count or isinstance(
                    values[0], ast.Attribute) and isinstance(
                        values[0].value, ast.Name) and
                values[0].value.id in ps):
            src = text(values[0])
        else:
            continue
        if arraylike(f, {x, src}):
            out.append((x, augs[0], "%s= changes the array %s itself, not a "
                        "copy of it" % (x, src)))
    return out


@rule("inplace", ALL, 1, "no array that belongs to the caller or to an object "
      "is changed by an in-place operator on a local name for it")
def inplace(repo, prop):
    rep = Report()
    for m in list(repo.modules.values()):
        if m.name == "cxx" or ".test" in m.name:
            continue
        fs = list(m.functions.values())
        for c in m.classes.values():
            fs += list(c.methods.values())
        for f in fs:
            if getattr(f, "ghost", False) or prop not in props_of(
                    repo, f.qual) and prop != "P18":
                continue
            c = f.qual + " in place"
            got = inplace_look(f.node)
            for x, at, why in got:
                rep.bad("%s/%s" % (c, x), "%s:%d" % (m.rel, at.lineno), why)
            if not got:
                rep.ok(c)
    return rep


def dropping(f):
    """return, break or continue that leaves a finally clause: whatever was
    raised in the guarded statements is forgotten"""
    out = []

    def rec(stmts, inloop):
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef,
                              ast.AsyncFunctionDef)):
                continue
            if isinstance(s, ast.Return) or not inloop and isinstance(
                    s, (ast.Break, ast.Continue)):
                out.append(s)
            loop = isinstance(s, (ast.For, ast.While))
            for b in ("body", "orelse", "finalbody"):
                rec(getattr(s, b, []) or [], inloop or loop and b == "body")
            for h in getattr(s, "handlers", ()):
                rec(h.body, inloop)
    for n in walk(f):
        if isinstance(n, ast.Try) and n.finalbody:
            rec(n.finalbody, False)
    return out


@rule("dropped", ALL, 1, "no finally clause is left by return, break or "
      "continue, which would forget the exception")
def dropped(repo, prop):
    rep = Report()
    for m in list(repo.modules.values()):
        if m.name == "cxx" or ".test" in m.name:
            continue
        fs = list(m.functions.values())
        for c in m.classes.values():
            fs += list(c.methods.values())
        for f in fs:
            if getattr(f, "ghost", False) or prop not in props_of(
                    repo, f.qual):
                continue
            c = f.qual + " finally"
            got = dropping(f.node)
            for n in got[:1]:
                rep.bad(c, "%s:%d" % (m.rel, n.lineno), "%s in a finally "
                        "clause forgets what was raised before" %
                        type(n).__name__.lower())
            if not got:
                rep.ok(c)
    return rep


BAD = ["""
def f(n):
    row = [0]*n
    out = []
    for i in range(n):
        for j in range(n):
            row[j] = i*j
        out.append(row)
    return out
""", """
def f(n):
    rows = [[0]*n]*n
    for i in range(n):
        rows[i][i] = 1
    return rows
""", """
def f(n):
    empty, k = 1, 2
    e = []
    rows = [e for i in range(n)]
    for i in range(n):
        rows[i].append(i)
    return rows
""", """
def f(n):
    e = []
    rows = {}
    for i in range(n):
        rows[i] = e
    for i in range(n):
        rows[i].append(1)
"""]
GOOD = ["""
def f(n):
    out = []
    for i in range(n):
        row = [0]*n
        for j in range(n):
            row[j] = i*j
        out.append(row)
    return out
""", """
def f(n):
    row = []
    out = []
    for i in range(n):
        row.append(i)
        if i:
            out.append(row)
            row = []
    return out
""", """
def f(n):
    rows = [0]*n
    for i in range(n):
        rows[i] = 1
    row = [1]
    t = [row for i in rows]
    return rows, t
""", """
def f(n):
    row = []
    out = []
    for i in range(n):
        row.append(i)
        if i > 3:
            out.append(row)
            break
    for i in range(n):
        out.append(list(row))
    return out
"""]


ARRAY = """
def f(self, point):
    delta = point
    delta -= self.mean
    return delta.dot(delta)
"""
COPIED = """
def f(self, point):
    delta = point - self.mean
    delta -= 1
    n = point
    n -= 1
    return delta.dot(delta)
"""


DROPS = """
def f(x):
    try:
        x.run()
    finally:
        return 1
"""
RAISES = """
def f(x):
    try:
        x.run()
        return 1
    finally:
        for i in x:
            break
"""


def selftest():
    assert dropping(ast.parse(DROPS).body[0])
    assert not dropping(ast.parse(RAISES).body[0])
    assert inplace_look(ast.parse(ARRAY).body[0])
    assert not inplace_look(ast.parse(COPIED).body[0])
    for s in BAD:
        assert look(ast.parse(s).body[0]), s
    for s in GOOD:
        assert not look(ast.parse(s).body[0]), s


selftest()
