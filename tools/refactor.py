#!/usr/bin/env python3
"""Measures false alarms: applies behaviour-preserving edits to every
function of the repository that has a reference, one at a time, in memory,
and prints the contracts that are not judged equal any more.

refactor.py [-k kind,...] [-p pattern] [-n] (list only) [-u] (print undecided)
"""
import ast
import copy
import multiprocessing
import os
import sys
import time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa import specs as S            # noqa: E402
from sa import terms as T            # noqa: E402
from sa.repo import Repo             # noqa: E402

KINDS = {}


def kind(fn):
    KINDS[fn.__name__] = fn
    return fn


def names_in(n, ctx=None):
    return set(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and
               (ctx is None or isinstance(x.ctx, ctx)))


def locals_of(f):
    out = set()
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    g = set()
    for n in ast.walk(f):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            g |= set(n.names)
    return out - g - set(params(f))


def params(f):
    a = f.args
    r = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    for x in (a.vararg, a.kwarg):
        if x is not None:
            r.append(x.arg)
    return r


def blocks(f):
    for n in ast.walk(f):
        if isinstance(n, (ast.Lambda,)):
            continue
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def nested(f):
    return any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef))
               for n in ast.walk(f) if n is not f)


def is_gen(f):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom))
               for n in ast.walk(f))


def parse(txt):
    return ast.parse(txt).body


def copyf(f):
    return copy.deepcopy(f)


class Fresh(object):
    def __init__(self, f):
        self.used = names_in(f) | set(params(f))

    def __call__(self, base):
        n = base
        i = 1
        while n in self.used:
            i += 1
            n = "%s%d" % (base, i)
        self.used.add(n)
        return n


def pure(e, calls=False):
    for n in ast.walk(e):
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await,
                          ast.NamedExpr)):
            return False
        if isinstance(n, ast.Call) and not calls:
            return False
    return True


def simple(e):
    """cannot raise, no effect"""
    return all(isinstance(n, (ast.Name, ast.Constant, ast.Load, ast.List,
                              ast.Tuple, ast.Dict, ast.UnaryOp, ast.USub))
               for n in ast.walk(e))


@kind
def rename_locals(f, ctx):
    f = copyf(f)
    loc = locals_of(f)
    fresh = Fresh(f)
    mp = {n: fresh("v_" + n) for n in sorted(loc)}
    comp = set()
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and n.id in mp:
            n.id = mp[n.id]
        elif isinstance(n, ast.ExceptHandler) and n.name in mp:
            n.name = mp[n.name]
        elif isinstance(n, ast.arg):
            comp.add(n.arg)
    return [f] if mp and not nested(f) else []


@kind
def invert_if(f, ctx):
    f = copyf(f)
    hit = 0
    for n in ast.walk(f):
        if isinstance(n, ast.If) and n.orelse:
            t = n.test
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                n.test = t.operand
            elif isinstance(t, ast.Compare) and len(t.ops) == 1 and \
                    isinstance(t.ops[0], (ast.Eq, ast.NotEq, ast.In,
                                          ast.NotIn, ast.Is, ast.IsNot)):
                sw = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
                      ast.In: ast.NotIn, ast.NotIn: ast.In,
                      ast.Is: ast.IsNot, ast.IsNot: ast.Is}
                t.ops[0] = sw[type(t.ops[0])]()
            else:
                n.test = ast.UnaryOp(op=ast.Not(), operand=t)
            n.body, n.orelse = n.orelse, n.body
            hit = 1
    return [f] if hit else []


def ends(b):
    s = b[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    return isinstance(s, ast.If) and s.orelse and ends(s.body) and \
        ends(s.orelse)


@kind
def drop_else(f, ctx):
    f = copyf(f)
    hit = 0
    more = True
    while more:
        more = False
        for b in list(blocks(f)):
            for j, s in enumerate(b):
                if isinstance(s, ast.If) and s.orelse and ends(s.body):
                    b[j + 1:j + 1] = s.orelse
                    s.orelse = []
                    hit, more = 1, True
                    break
            if more:
                break
    return [f] if hit else []


@kind
def add_else(f, ctx):
    """statements after a branch that leaves go into its else"""
    f = copyf(f)
    hit = 0
    for b in list(blocks(f)):
        for s in list(b):
            if s not in b:
                continue
            j = b.index(s)
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and \
                    b[j + 1:]:
                s.orelse = b[j + 1:]
                del b[j + 1:]
                hit = 1
                break
    return [f] if hit else []


@kind
def split_and(f, ctx):
    f = copyf(f)
    hit = 0
    for n in ast.walk(f):
        if isinstance(n, ast.If) and not n.orelse and \
                isinstance(n.test, ast.BoolOp) and \
                isinstance(n.test.op, ast.And):
            v = n.test.values
            inner = v[-1]
            outer = v[0] if len(v) == 2 else ast.BoolOp(ast.And(), v[:-1])
            n.test = outer
            n.body = [ast.If(test=inner, body=n.body, orelse=[])]
            hit = 1
    return [f] if hit else []


@kind
def join_if(f, ctx):
    f = copyf(f)
    hit = 0
    for n in ast.walk(f):
        if isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and \
                isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            m = n.body[0]
            n.test = ast.BoolOp(ast.And(), [n.test, m.test])
            n.body = m.body
            hit = 1
    return [f] if hit else []


@kind
def temp_return(f, ctx):
    f = copyf(f)
    fr = Fresh(f)
    nm = fr("result")
    hit = 0
    for b in blocks(f):
        for i, s in enumerate(list(b)):
            if isinstance(s, ast.Return) and s.value is not None and \
                    not isinstance(s.value, ast.Name):
                j = b.index(s)
                b[j:j + 1] = [ast.Assign(
                    targets=[ast.Name(nm, ast.Store())], value=s.value),
                    ast.Return(value=ast.Name(nm, ast.Load()))]
                hit = 1
    return [f] if hit else []


@kind
def inline_return(f, ctx):
    f = copyf(f)
    hit = 0
    for b in blocks(f):
        for s in list(b):
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Name):
                j = b.index(s)
                if j and isinstance(b[j - 1], ast.Assign) and \
                        len(b[j - 1].targets) == 1 and \
                        isinstance(b[j - 1].targets[0], ast.Name) and \
                        b[j - 1].targets[0].id == s.value.id:
                    s.value = b[j - 1].value
                    del b[j - 1]
                    hit = 1
    return [f] if hit else []


@kind
def single_exit(f, ctx):
    """if/else returns assigned to one variable"""
    f = copyf(f)
    b = f.body
    nm = Fresh(f)("answer")
    if not b or not isinstance(b[-1], (ast.If, ast.Return)):
        return []

    def conv(bl):
        s = bl[-1]
        if isinstance(s, ast.Return) and s.value is not None:
            bl[-1] = ast.Assign(targets=[ast.Name(nm, ast.Store())],
                                value=s.value)
            return True
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse:
            return conv(s.body) and conv(s.orelse)
        return False
    # nest
    for i in range(len(b) - 2, -1, -1):
        s = b[i]
        if isinstance(s, ast.If) and not s.orelse and s.body and \
                isinstance(s.body[-1], (ast.Return, ast.Raise)):
            s.orelse = b[i + 1:]
            del b[i + 1:]
    if not isinstance(b[-1], ast.If) or not conv(b):
        return []
    b.append(ast.Return(value=ast.Name(nm, ast.Load())))
    # no other returns may be left
    n = sum(isinstance(x, ast.Return) for x in ast.walk(f))
    return [f] if n == 1 else []


@kind
def temp_operands(f, ctx):
    """first operand of each assigned binary operation into a temporary"""
    f = copyf(f)
    fr = Fresh(f)
    hit = 0
    for b in list(blocks(f)):
        for s in list(b):
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Assign, ast.Return)) and \
                    isinstance(v, ast.BinOp) and \
                    not isinstance(v.left, (ast.Name, ast.Constant)):
                nm = fr("part")
                j = b.index(s)
                b.insert(j, ast.Assign(targets=[ast.Name(nm, ast.Store())],
                                       value=v.left))
                v.left = ast.Name(nm, ast.Load())
                hit = 1
    return [f] if hit else []


@kind
def temp_args(f, ctx):
    """arguments of calls in statements into temporaries, in order"""
    f = copyf(f)
    fr = Fresh(f)
    hit = 0
    for b in list(blocks(f)):
        for s in list(b):
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and \
                    isinstance(v, ast.Call) and v.args and \
                    (isinstance(v.func, ast.Name) or
                     isinstance(v.func, ast.Attribute) and
                     isinstance(v.func.value, ast.Name)) and \
                    not any(isinstance(x, ast.Starred) for x in v.args):
                j = b.index(s)
                new = []
                for k, x in enumerate(v.args):
                    if isinstance(x, (ast.Name, ast.Constant)):
                        continue
                    nm = fr("arg")
                    new.append(ast.Assign(
                        targets=[ast.Name(nm, ast.Store())], value=x))
                    v.args[k] = ast.Name(nm, ast.Load())
                b[j:j] = new
                hit = hit or bool(new)
    return [f] if hit else []


@kind
def temp_cond(f, ctx):
    f = copyf(f)
    fr = Fresh(f)
    hit = 0
    elifs = set()
    for b in list(blocks(f)):
        for s in list(b):
            if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
                nm = fr("cond")
                j = b.index(s)
                b.insert(j, ast.Assign(
                    targets=[ast.Name(nm, ast.Store())], value=s.test))
                s.test = ast.Name(nm, ast.Load())
                hit = 1
    return [f] if hit else []


@kind
def for_to_while(f, ctx):
    """for i in range(n)"""
    f = copyf(f)
    fr = Fresh(f)
    hit = 0
    for b in list(blocks(f)):
        for s in list(b):
            if isinstance(s, ast.For) and not s.orelse and \
                    isinstance(s.target, ast.Name) and \
                    isinstance(s.iter, ast.Call) and \
                    isinstance(s.iter.func, ast.Name) and \
                    s.iter.func.id == "range" and \
                    not any(isinstance(x, ast.Continue)
                            for x in ast.walk(s)):
                a = s.iter.args
                if len(a) == 3:
                    continue
                lo = a[0] if len(a) == 2 else ast.Constant(0)
                hi = a[-1]
                if s.target.id in set(
                        y for st in s.body for y in names_in(st, ast.Store)):
                    continue
                idx = fr("k")
                top = fr("end")
                j = b.index(s)
                w = ast.While(
                    test=ast.Compare(ast.Name(idx, ast.Load()), [ast.Lt()],
                                     [ast.Name(top, ast.Load())]),
                    body=[ast.Assign([ast.Name(s.target.id, ast.Store())],
                                     ast.Name(idx, ast.Load()))] + s.body +
                    [ast.AugAssign(ast.Name(idx, ast.Store()), ast.Add(),
                                   ast.Constant(1))], orelse=[])
                b[j:j + 1] = [
                    ast.Assign([ast.Name(idx, ast.Store())], lo),
                    ast.Assign([ast.Name(top, ast.Store())], hi), w]
                hit = 1
    return [f] if hit else []


def mutated(body, expr):
    """may the body change the object expr?"""
    names = names_in(expr)
    t = ast.unparse(expr)
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and n.id in names and \
                    isinstance(n.ctx, (ast.Store, ast.Del)):
                return True
            if isinstance(n, ast.Attribute) and \
                    isinstance(n.ctx, (ast.Store, ast.Del)) and \
                    t.startswith(ast.unparse(n)):
                return True
            if isinstance(n, ast.Subscript) and \
                    isinstance(n.ctx, (ast.Store, ast.Del)) and \
                    ast.unparse(n.value) == t:
                return True
            if isinstance(n, ast.Call) and \
                    isinstance(n.func, ast.Attribute) and \
                    ast.unparse(n.func.value) == t:
                return True
            if isinstance(n, ast.Call) and t.startswith("self"):
                return True
    return False


@kind
def for_to_index(f, ctx):
    """for x in xs -> for k in range(len(xs)): x = xs[k]; only for names"""
    f = copyf(f)
    fr = Fresh(f)
    hit = 0
    for b in list(blocks(f)):
        for s in list(b):
            if not isinstance(s, ast.For) or s.orelse or \
                    not isinstance(s.target, ast.Name):
                continue
            it = s.iter
            if isinstance(it, ast.Name) and it.id in ctx["lists"] and \
                    not mutated(s.body, it):
                k = fr("k")
                s.body.insert(0, ast.Assign(
                    [ast.Name(s.target.id, ast.Store())],
                    ast.Subscript(it, ast.Name(k, ast.Load()), ast.Load())))
                s.iter = ast.parse("range(len(%s))" % it.id).body[0].value
                s.target = ast.Name(k, ast.Store())
                hit = 1
    return [f] if hit else []


@kind
def enum_to_index(f, ctx):
    f = copyf(f)
    hit = 0
    for b in list(blocks(f)):
        for s in list(b):
            if isinstance(s, ast.For) and not s.orelse and \
                    isinstance(s.iter, ast.Call) and \
                    isinstance(s.iter.func, ast.Name) and \
                    s.iter.func.id == "enumerate" and \
                    len(s.iter.args) == 1 and \
                    isinstance(s.target, ast.Tuple) and \
                    isinstance(s.target.elts[0], ast.Name) and \
                    isinstance(s.iter.args[0], (ast.Name, ast.Attribute)) \
                    and not mutated(s.body, s.iter.args[0]):
                xs = s.iter.args[0]
                i, x = s.target.elts
                s.body.insert(0, ast.Assign([x], ast.Subscript(
                    xs, ast.Name(i.id, ast.Load()), ast.Load())))
                s.target = ast.Name(i.id, ast.Store())
                s.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(
                    ast.Name("len", ast.Load()), [xs], [])], [])
                hit = 1
    return [f] if hit else []


@kind
def index_to_enum(f, ctx):
    """for i in range(len(xs)) -> for i, _ in enumerate(xs)"""
    f = copyf(f)
    fr = Fresh(f)
    hit = 0
    for b in list(blocks(f)):
        for s in list(b):
            if isinstance(s, ast.For) and isinstance(s.target, ast.Name) \
                    and ast.unparse(s.iter).startswith("range(len("):
                c = s.iter.args[0]
                if len(s.iter.args) != 1 or not isinstance(c, ast.Call):
                    continue
                xs = c.args[0]
                if not isinstance(xs, (ast.Name, ast.Attribute)) or \
                        mutated(s.body, xs):
                    continue
                s.target = ast.Tuple([s.target, ast.Name(
                    fr("unused"), ast.Store())], ast.Store())
                s.iter = ast.Call(ast.Name("enumerate", ast.Load()), [xs],
                                  [])
                hit = 1
    return [f] if hit else []


def comp_stmt(s):
    v = getattr(s, "value", None)
    if isinstance(s, (ast.Assign, ast.Return)) and \
            isinstance(v, ast.ListComp) and len(v.generators) == 1:
        if isinstance(s, ast.Assign) and (
                len(s.targets) != 1 or not isinstance(s.targets[0],
                                                      ast.Name)):
            return None
        return v
    return None


@kind
def comp_to_loop(f, ctx):
    f = copyf(f)
    fr = Fresh(f)
    hit = 0
    for b in list(blocks(f)):
        for s in list(b):
            v = comp_stmt(s)
            if v is None:
                continue
            acc = fr("items")
            g = v.generators[0]
            body = ast.Expr(ast.Call(ast.Attribute(
                ast.Name(acc, ast.Load()), "append", ast.Load()),
                [v.elt], []))
            for c in reversed(g.ifs):
                body = ast.If(c, [body], [])
            # the comprehension variable is its own scope
            mp = {n: fr("c_" + n) for n in names_in(g.target)}
            loop = ast.For(g.target, g.iter, [body], [])
            for part in [loop.target] + loop.body:
                for n in ast.walk(part):
                    if isinstance(n, ast.Name) and n.id in mp:
                        n.id = mp[n.id]
            j = b.index(s)
            s.value = ast.Name(acc, ast.Load())
            b[j:j] = [ast.Assign([ast.Name(acc, ast.Store())],
                                 ast.List([], ast.Load())), loop]
            hit = 1
    return [f] if hit else []


@kind
def loop_to_comp(f, ctx):
    """xs = []; for v in it: xs.append(e)"""
    f = copyf(f)
    hit = 0
    for b in list(blocks(f)):
        for s in list(b):
            if s not in b:
                continue
            j = b.index(s)
            if not (isinstance(s, ast.For) and len(s.body) == 1 and
                    not s.orelse and j):
                continue
            inner = s.body[0]
            ifs = []
            if isinstance(inner, ast.If) and not inner.orelse and \
                    len(inner.body) == 1:
                ifs = [inner.test]
                inner = inner.body[0]
            p = b[j - 1]
            if isinstance(inner, ast.Expr) and \
                    isinstance(inner.value, ast.Call) and \
                    isinstance(inner.value.func, ast.Attribute) and \
                    inner.value.func.attr == "append" and \
                    isinstance(inner.value.func.value, ast.Name) and \
                    isinstance(p, ast.Assign) and \
                    isinstance(p.targets[0], ast.Name) and \
                    p.targets[0].id == inner.value.func.value.id and \
                    isinstance(p.value, ast.List) and not p.value.elts and \
                    p.targets[0].id not in names_in(inner.value.args[0]) \
                    and p.targets[0].id not in names_in(s.iter):
                tv = names_in(s.target)
                later = set()
                for st in b[j + 1:]:
                    later |= names_in(st)
                if tv & later:
                    continue
                p.value = ast.ListComp(inner.value.args[0], [
                    ast.comprehension(s.target, s.iter, ifs, 0)])
                b.remove(s)
                hit = 1
    return [f] if hit else []


@kind
def sum_loops(f, ctx):
    """s = 0; for v in it: s += e -> s = sum(e for v in it)"""
    f = copyf(f)
    hit = 0
    for b in list(blocks(f)):
        for s in list(b):
            if s not in b:
                continue
            j = b.index(s)
            if not (isinstance(s, ast.For) and len(s.body) == 1 and
                    not s.orelse and j):
                continue
            a = s.body[0]
            p = b[j - 1]
            if isinstance(a, ast.AugAssign) and \
                    isinstance(a.op, ast.Add) and \
                    isinstance(a.target, ast.Name) and \
                    isinstance(p, ast.Assign) and \
                    isinstance(p.targets[0], ast.Name) and \
                    p.targets[0].id == a.target.id and \
                    isinstance(p.value, ast.Constant) and \
                    p.value.value == 0 and \
                    a.target.id not in names_in(a.value):
                tv = names_in(s.target)
                if any(tv & names_in(st) for st in b[j + 1:]):
                    continue
                p.value = ast.Call(ast.Name("sum", ast.Load()), [
                    ast.GeneratorExp(a.value, [ast.comprehension(
                        s.target, s.iter, [], 0)])], [])
                b.remove(s)
                hit = 1
    return [f] if hit else []


@kind
def aug_expand(f, ctx):
    f = copyf(f)
    hit = 0
    for b in list(blocks(f)):
        for j, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and \
                    isinstance(s.target, ast.Name) and not (
                        isinstance(s.op, ast.Add) and
                        s.target.id in ctx["lists"]):
                b[j] = ast.Assign([s.target], ast.BinOp(
                    ast.Name(s.target.id, ast.Load()), s.op, s.value))
                hit = 1
    return [f] if hit else []


@kind
def swap_compare(f, ctx):
    f = copyf(f)
    hit = 0
    sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
          ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for n in ast.walk(f):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and \
                type(n.ops[0]) in sw and pure(n):
            n.left, n.comparators[0] = n.comparators[0], n.left
            n.ops[0] = sw[type(n.ops[0])]()
            hit = 1
    return [f] if hit else []


@kind
def negate_compare(f, ctx):
    f = copyf(f)

    class V(ast.NodeTransformer):
        hit = 0

        def visit_Compare(self, n):
            self.generic_visit(n)
            sw = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
                  ast.In: ast.NotIn, ast.NotIn: ast.In,
                  ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            if len(n.ops) == 1 and type(n.ops[0]) in sw:
                self.hit = 1
                n.ops[0] = sw[type(n.ops[0])]()
                return ast.UnaryOp(ast.Not(), n)
            return n
    v = V()
    f = v.visit(f)
    return [f] if v.hit else []


@kind
def demorgan(f, ctx):
    f = copyf(f)

    class V(ast.NodeTransformer):
        hit = 0

        def visit_If(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.BoolOp):
                op = ast.Or() if isinstance(n.test.op, ast.And) else \
                    ast.And()
                n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [
                    ast.UnaryOp(ast.Not(), x) for x in n.test.values]))
                self.hit = 1
            return n
    v = V()
    f = v.visit(f)
    return [f] if v.hit else []


@kind
def power_to_product(f, ctx):
    f = copyf(f)

    class V(ast.NodeTransformer):
        hit = 0

        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Pow) and \
                    isinstance(n.right, ast.Constant) and \
                    n.right.value in (2, 2.) and pure(n.left, True):
                self.hit = 1
                return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
            return n
    v = V()
    f = v.visit(f)
    return [f] if v.hit else []


@kind
def commute(f, ctx):
    f = copyf(f)
    hit = 0
    for n in ast.walk(f):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and \
                pure(n, True) and not any(
                    isinstance(x, ast.List) for x in ast.walk(n)):
            if ctx["matrix"]:
                continue
            n.left, n.right = n.right, n.left
            hit = 1
    return [f] if hit else []


def writes(s):
    return names_in(s, ast.Store)


@kind
def swap_statements(f, ctx):
    """exchange neighbouring assignments of independent plain values"""
    f = copyf(f)
    hit = 0
    for b in list(blocks(f)):
        j = 0
        while j + 1 < len(b):
            x, y = b[j], b[j + 1]
            if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and \
                    (simple(x.value) or simple(y.value)) and \
                    all(isinstance(t, ast.Name) for t in
                        x.targets + y.targets) and \
                    not (writes(x) & (names_in(y)) or
                         writes(y) & names_in(x)):
                b[j], b[j + 1] = y, x
                hit = 1
                j += 2
            else:
                j += 1
    return [f] if hit else []


@kind
def ternary_to_if(f, ctx):
    f = copyf(f)
    hit = 0
    for b in list(blocks(f)):
        for j, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and \
                    isinstance(s.value, ast.IfExp):
                v = s.value
                s1, s2 = copy.deepcopy(s), copy.deepcopy(s)
                s1.value, s2.value = v.body, v.orelse
                b[j] = ast.If(v.test, [s1], [s2])
                hit = 1
    return [f] if hit else []


@kind
def if_to_ternary(f, ctx):
    f = copyf(f)
    hit = 0
    for b in list(blocks(f)):
        for j, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and \
                    len(s.orelse) == 1 and \
                    type(s.body[0]) is type(s.orelse[0]):
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Return) and x.value and y.value:
                    b[j] = ast.Return(ast.IfExp(s.test, x.value, y.value))
                    hit = 1
                elif isinstance(x, ast.Assign) and \
                        [ast.unparse(t) for t in x.targets] == \
                        [ast.unparse(t) for t in y.targets] and \
                        isinstance(x.targets[0], ast.Name):
                    b[j] = ast.Assign(x.targets, ast.IfExp(
                        s.test, x.value, y.value))
                    hit = 1
    return [f] if hit else []


@kind
def in_to_or(f, ctx):
    """x in [a, b] -> x == a or x == b, for names and constants"""
    f = copyf(f)

    class V(ast.NodeTransformer):
        hit = 0

        def visit_Compare(self, n):
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and \
                    isinstance(n.left, ast.Name) and \
                    isinstance(n.comparators[0], (ast.List, ast.Tuple)) and \
                    2 <= len(n.comparators[0].elts) and all(
                        isinstance(x, ast.Constant) and
                        isinstance(x.value, str)
                        for x in n.comparators[0].elts):
                self.hit = 1
                return ast.BoolOp(ast.Or(), [ast.Compare(
                    n.left, [ast.Eq()], [x])
                    for x in n.comparators[0].elts])
            return n
    v = V()
    f = v.visit(f)
    return [f] if v.hit else []


@kind
def list_to_tuple_in(f, ctx):
    f = copyf(f)
    hit = 0
    for n in ast.walk(f):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and \
                isinstance(n.ops[0], (ast.In, ast.NotIn)) and \
                isinstance(n.comparators[0], ast.List):
            n.comparators[0] = ast.Tuple(n.comparators[0].elts, ast.Load())
            hit = 1
    return [f] if hit else []


@kind
def fstrings(f, ctx):
    """a + str(b) + c -> f-string"""
    f = copyf(f)

    def flat(n):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            return flat(n.left) + flat(n.right)
        return [n]

    class V(ast.NodeTransformer):
        hit = 0

        def visit_BinOp(self, n):
            parts = flat(n)
            if len(parts) > 1 and all(
                    isinstance(p, ast.Constant) and isinstance(p.value, str)
                    or isinstance(p, ast.Call) and
                    isinstance(p.func, ast.Name) and p.func.id == "str"
                    and len(p.args) == 1 for p in parts):
                out = []
                for p in parts:
                    if isinstance(p, ast.Constant):
                        out.append(p)
                    else:
                        out.append(ast.FormattedValue(p.args[0], -1, None))
                self.hit = 1
                return ast.JoinedStr(out)
            self.generic_visit(n)
            return n
    v = V()
    f = v.visit(f)
    try:
        ast.unparse(f)
    except ValueError:
        return []
    return [f] if v.hit else []


@kind
def percent_to_format(f, ctx):
    f = copyf(f)

    class V(ast.NodeTransformer):
        hit = 0

        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Mod) and \
                    isinstance(n.left, ast.Constant) and \
                    isinstance(n.left.value, str) and \
                    isinstance(n.right, ast.Tuple) and \
                    "{" not in n.left.value:
                t = n.left.value
                if t.count("%") != t.count("%s"):
                    return n
                self.hit = 1
                return ast.Call(ast.Attribute(ast.Constant(
                    t.replace("%s", "{}")), "format", ast.Load()),
                    n.right.elts, [])
            return n
    v = V()
    f = v.visit(f)
    return [f] if v.hit else []


def reads_writes(stmts, f):
    r, w = set(), set()
    loc = locals_of(f) | set(params(f))
    for s in stmts:
        r |= names_in(s, ast.Load) & loc
        w |= names_in(s, ast.Store) & loc
        for n in ast.walk(s):
            if isinstance(n, ast.AugAssign) and isinstance(n.target,
                                                           ast.Name):
                r.add(n.target.id)
    return r, w


def make_helper(f, ctx, stmts, args, ret):
    """-> (helper def, call expression)"""
    k = ctx["fi"].kind
    hn = "_extracted_" + f.name.strip("_")
    a = sorted(args)
    first = params(f)[0] if params(f) else None
    if ctx["fi"].cls is not None and k == "method" and first:
        a = [first] + [x for x in a if x != first]
        call = ast.Call(ast.Attribute(ast.Name(first, ast.Load()), hn,
                                      ast.Load()),
                        [ast.Name(x, ast.Load()) for x in a[1:]], [])
        deco = []
    elif ctx["fi"].cls is not None and k == "class" and first:
        a = [first] + [x for x in a if x != first]
        call = ast.Call(ast.Attribute(ast.Name(first, ast.Load()), hn,
                                      ast.Load()),
                        [ast.Name(x, ast.Load()) for x in a[1:]], [])
        deco = [ast.Name("classmethod", ast.Load())]
    elif ctx["fi"].cls is not None:
        call = ast.Call(ast.Attribute(ast.Name(ctx["fi"].cls.name,
                                               ast.Load()), hn, ast.Load()),
                        [ast.Name(x, ast.Load()) for x in a], [])
        deco = [ast.Name("staticmethod", ast.Load())]
    else:
        call = ast.Call(ast.Name(hn, ast.Load()),
                        [ast.Name(x, ast.Load()) for x in a], [])
        deco = []
    h = ast.FunctionDef(
        name=hn, args=ast.arguments(
            posonlyargs=[], args=[ast.arg(x) for x in a], kwonlyargs=[],
            kw_defaults=[], defaults=[]),
        body=stmts + ([ret] if ret else []), decorator_list=deco)
    return h, call


def definite(stmts):
    """names surely assigned by straight line code"""
    out = set()
    for s in stmts:
        if isinstance(s, ast.Assign):
            out |= writes(s)
        elif isinstance(s, (ast.AugAssign, ast.With)):
            out |= writes(s)
        elif isinstance(s, ast.If) and s.orelse:
            out |= definite(s.body) & definite(s.orelse)
    return out


@kind
def extract_tail(f, ctx):
    """the last statements of the function become a helper"""
    if is_gen(f) or nested(f) or len(f.body) < 2 or \
            any(isinstance(n, (ast.Global,)) for n in ast.walk(f)) or \
            uses_super(f):
        return []
    out = []
    for cut in sorted(set([len(f.body) // 2, len(f.body) - 1])):
        g = copyf(f)
        if cut == 0 or (isinstance(g.body[0], ast.Expr) and cut == 1 and
                        isinstance(g.body[0].value, ast.Constant)):
            continue
        tail = g.body[cut:]
        r, w = reads_writes(tail, g)
        before = definite(g.body[:cut]) | set(params(g))
        maybe, wb = reads_writes(g.body[:cut], g)
        if (r & (wb | set(params(g)))) - before:
            continue          # possibly unbound
        args = r & before
        # names assigned first in the tail are not arguments
        h, call = make_helper(g, ctx, tail, args, None)
        g.body = g.body[:cut] + [ast.Return(call)]
        out.append((g, h))
    return out


def uses_super(f):
    return any(isinstance(n, ast.Name) and n.id == "super"
               for n in ast.walk(f))


@kind
def extract_loop_body(f, ctx):
    if is_gen(f) or nested(f) or uses_super(f):
        return []
    g = copyf(f)
    for b in blocks(g):
        for s in b:
            if isinstance(s, ast.For) and s.body and not any(
                    isinstance(n, (ast.Return, ast.Break, ast.Continue,
                                   ast.Global))
                    for st in s.body for n in ast.walk(st)):
                r, w = reads_writes(s.body, g)
                outer = set()
                allw = set()
                inside = set(id(n) for st in s.body for n in ast.walk(st))
                for n in ast.walk(g):
                    if isinstance(n, ast.Name) and id(n) not in inside:
                        outer.add(n.id)
                if w & outer:
                    continue
                # locals of the body read before assigned carry state
                args = r & (outer | names_in(s.target) | set(params(g)))
                if (r - args) & w and len(s.body) > 1 and False:
                    continue
                h, call = make_helper(g, ctx, s.body, args, None)
                s.body = [ast.Expr(call)]
                return [(g, h)]
    return []


@kind
def extract_value(f, ctx):
    """the longest returned or assigned expression becomes a helper"""
    if is_gen(f) or nested(f) or uses_super(f):
        return []
    g = copyf(f)
    best = None
    for n in ast.walk(g):
        if isinstance(n, (ast.Assign, ast.Return)) and n.value is not None \
                and not isinstance(n.value, (ast.Name, ast.Constant)):
            k = len(ast.unparse(n.value))
            if best is None or k > best[0]:
                best = (k, n)
    if best is None or best[0] < 12:
        return []
    n = best[1]
    v = n.value
    loc = locals_of(g) | set(params(g))
    bound = set()
    for c in ast.walk(v):
        if isinstance(c, ast.comprehension):
            bound |= names_in(c.target)
    args = (names_in(v, ast.Load) & loc) - bound
    h, call = make_helper(g, ctx, [], args, ast.Return(v))
    n.value = call
    return [(g, h)]


@kind
def hoist_list(f, ctx):
    """constant list used only in 'in' or 'for' into a module constant"""
    g = copyf(f)
    for n in ast.walk(g):
        it = None
        if isinstance(n, ast.For):
            it = ("iter", n.iter)
        elif isinstance(n, ast.comprehension):
            it = ("iter", n.iter)
        if it and isinstance(it[1], ast.List) and it[1].elts and all(
                isinstance(x, ast.Constant) for x in it[1].elts):
            nm = "_HOISTED_" + f.name.strip("_").upper()
            n.iter = ast.Name(nm, ast.Load())
            return [(g, ast.Assign([ast.Name(nm, ast.Store())],
                                   ast.Tuple(it[1].elts, ast.Load())))]
    return []


@kind
def self_alias(f, ctx):
    """self.__hits read into a local first (never reassigned here)"""
    g = copyf(f)
    p = params(g)
    if not p or ctx["fi"].kind != "method":
        return []
    cnt = {}
    for n in ast.walk(g):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) \
                and n.value.id == p[0]:
            if not isinstance(n.ctx, ast.Load):
                cnt[n.attr] = -99
            cnt[n.attr] = cnt.get(n.attr, 0) + 1
    calls = set(n.func.attr for n in ast.walk(g) if isinstance(n, ast.Call)
                and isinstance(n.func, ast.Attribute))
    for at, k in sorted(cnt.items()):
        if k < 2 or at in calls:
            continue
        if any(isinstance(n, ast.Call) for n in ast.walk(g)) and \
                at not in ctx["stable"]:
            continue
        nm = Fresh(g)("local_" + at.strip("_"))

        class V(ast.NodeTransformer):
            def visit_Attribute(self, n):
                self.generic_visit(n)
                if n.attr == at and isinstance(n.value, ast.Name) and \
                        n.value.id == p[0]:
                    return ast.Name(nm, ast.Load())
                return n
        g = V().visit(g)
        j = 1 if isinstance(g.body[0], ast.Expr) and \
            isinstance(g.body[0].value, ast.Constant) else 0
        g.body.insert(j, ast.Assign(
            [ast.Name(nm, ast.Store())],
            ast.Attribute(ast.Name(p[0], ast.Load()), at, ast.Load())))
        return [g]
    return []


@kind
def unpack_assign(f, ctx):
    """a, b = x, y -> two statements when independent"""
    g = copyf(f)
    hit = 0
    for b in list(blocks(g)):
        for s in list(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Tuple) and \
                    isinstance(s.value, ast.Tuple) and \
                    len(s.value.elts) == len(s.targets[0].elts) and \
                    not (writes(s) & names_in(s.value)) and \
                    all(isinstance(t, ast.Name) for t in
                        s.targets[0].elts):
                j = b.index(s)
                b[j:j + 1] = [ast.Assign([t], v) for t, v in zip(
                    s.targets[0].elts, s.value.elts)]
                hit = 1
    return [g] if hit else []


@kind
def noop(f, ctx):
    g = copyf(f)
    j = 1 if isinstance(g.body[0], ast.Expr) and \
        isinstance(g.body[0].value, ast.Constant) else 0
    g.body[j:j] = parse("_unused_marker = 0")
    return [g]


@kind
def docstring(f, ctx):
    g = copyf(f)
    if isinstance(g.body[0], ast.Expr) and \
            isinstance(g.body[0].value, ast.Constant):
        g.body[0].value = ast.Constant("changed words")
    else:
        g.body.insert(0, ast.Expr(ast.Constant("new words")))
    return [g]


@kind
def assert_add(f, ctx):
    """logging only"""
    g = copyf(f)
    if is_gen(f):
        return []
    g.body[-1:] = [ast.If(ast.Constant(False), parse("print('debug')"),
                          [])] + g.body[-1:]
    return [g]


@kind
def while_true(f, ctx):
    """while c: b -> while True: if not c: break; b"""
    g = copyf(f)
    hit = 0
    for n in ast.walk(g):
        if isinstance(n, ast.While) and not n.orelse and \
                not isinstance(n.test, ast.Constant):
            n.body.insert(0, ast.If(ast.UnaryOp(ast.Not(), n.test),
                                    [ast.Break()], []))
            n.test = ast.Constant(True)
            hit = 1
    return [g] if hit else []


@kind
def continue_guard(f, ctx):
    """for: if c: body -> if not c: continue; body"""
    g = copyf(f)
    hit = 0
    for n in ast.walk(g):
        if isinstance(n, ast.For) and len(n.body) == 1 and \
                isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            i = n.body[0]
            n.body = [ast.If(ast.UnaryOp(ast.Not(), i.test),
                             [ast.Continue()], [])] + i.body
            hit = 1
    return [g] if hit else []


@kind
def keyword_args(f, ctx):
    """positional -> keyword for calls of functions of the module"""
    g = copyf(f)
    hit = 0
    m = ctx["fi"].module
    for n in ast.walk(g):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id in m.functions and n.args and \
                n.func.id not in locals_of(g):
            ps = m.functions[n.func.id].params()
            if any(isinstance(x, ast.Starred) for x in n.args) or \
                    len(n.args) > len(ps):
                continue
            n.keywords = [ast.keyword(p, x) for p, x in
                          zip(ps, n.args)] + n.keywords
            n.args = []
            hit = 1
    return [g] if hit else []


@kind
def not_empty(f, ctx):
    """len(x) == 0 -> not len(x);  len(x) > 0 -> bool(len(x))"""
    g = copyf(f)

    class V(ast.NodeTransformer):
        hit = 0

        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.left, ast.Call) and \
                    isinstance(n.left.func, ast.Name) and \
                    n.left.func.id == "len" and \
                    isinstance(n.comparators[0], ast.Constant) and \
                    n.comparators[0].value == 0:
                if isinstance(n.ops[0], ast.Eq):
                    self.hit = 1
                    return ast.UnaryOp(ast.Not(), n.left)
                if isinstance(n.ops[0], ast.Gt):
                    n.ops[0] = ast.GtE()
                    n.comparators[0] = ast.Constant(1)
                    self.hit = 1
            return n
    v = V()
    g = v.visit(g)
    return [g] if v.hit else []


@kind
def items_loop(f, ctx):
    """for k in d.keys(): ..d[k].. / for k in d -> for k, v in d.items()"""
    g = copyf(f)
    fr = Fresh(g)
    hit = 0
    for n in ast.walk(g):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name):
            it = n.iter
            d = None
            if isinstance(it, ast.Call) and isinstance(
                    it.func, ast.Attribute) and it.func.attr == "keys":
                d = it.func.value
            elif isinstance(it, ast.Call) and isinstance(
                    it.func, ast.Name) and it.func.id == "list" and \
                    it.args and isinstance(it.args[0], ast.Call) and \
                    isinstance(it.args[0].func, ast.Attribute) and \
                    it.args[0].func.attr == "keys":
                d = it.args[0].func.value
            if d is None or mutated(n.body, d):
                continue
            pat = ast.unparse(d) + "[" + n.target.id + "]"
            vn = fr("val")
            state = [0]

            class V(ast.NodeTransformer):
                def visit_Subscript(self, x):
                    self.generic_visit(x)
                    if ast.unparse(x) == pat and isinstance(x.ctx,
                                                            ast.Load):
                        state[0] = 1
                        return ast.Name(vn, ast.Load())
                    return x
            body = [V().visit(x) for x in n.body]
            if state[0]:
                n.body = body
                n.target = ast.Tuple([n.target, ast.Name(
                    vn, ast.Store())], ast.Store())
                n.iter = ast.Call(ast.Attribute(d, "items", ast.Load()),
                                  [], [])
                hit = 1
    return [g] if hit else []


@kind
def merge_temp(f, ctx):
    """a temporary used once in the next statement is written in place"""
    g = copyf(f)
    hit = 0
    for b in list(blocks(g)):
        j = 0
        while j + 1 < len(b):
            x, y = b[j], b[j + 1]
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and \
                    isinstance(x.targets[0], ast.Name) and \
                    isinstance(y, (ast.Assign, ast.Return)) and \
                    y.value is not None:
                nm = x.targets[0].id
                uses = [n for n in ast.walk(g) if isinstance(n, ast.Name)
                        and n.id == nm]
                inn = [n for n in ast.walk(y.value)
                       if isinstance(n, ast.Name) and n.id == nm]
                # only if it is evaluated first in the next statement
                first = next((n for n in walk_order(y.value)
                              if isinstance(n, (ast.Name, ast.Call,
                                                ast.Attribute,
                                                ast.Subscript))), None)
                if len(uses) == 2 and len(inn) == 1 and first is inn[0] \
                        and not in_comp(y.value, inn[0]):
                    class V(ast.NodeTransformer):
                        def visit_Name(self, n):
                            return x.value if n is inn[0] else n
                    y.value = V().visit(y.value)
                    del b[j]
                    hit = 1
                    continue
            j += 1
    return [g] if hit else []


def walk_order(e):
    """leaves first, left to right"""
    for c in ast.iter_child_nodes(e):
        yield from walk_order(c)
    yield e


def in_comp(e, n):
    for c in ast.walk(e):
        if isinstance(c, (ast.ListComp, ast.GeneratorExp, ast.DictComp,
                          ast.Lambda, ast.IfExp, ast.BoolOp)):
            if any(x is n for x in ast.walk(c)):
                return True
    return False


# ---------------------------------------------------------------- running
STABLE = set("""__hits _Bunch__hits __bunchcore __hitcore""".split())
LISTY = ("[", "list(", "sorted(")


def context(fi):
    lists = set()
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) \
                and (isinstance(n.value, (ast.List, ast.ListComp)) or
                     ast.unparse(n.value).startswith(LISTY)):
            lists.add(n.targets[0].id)
    for p in fi.params():
        if p.endswith("list") or p.endswith("_list") or p in (
                "axes", "hits", "bunches", "variables"):
            lists.add(p)
    src = ast.unparse(fi.node)
    return {"fi": fi, "lists": lists, "stable": STABLE,
            "matrix": "numpy" in src or "matrix" in src or
            "linalg" in src}


def apply(fi, res):
    """source text of the module with the function replaced"""
    g, extra = res if isinstance(res, tuple) else (res, None)
    m = fi.module
    tree = copy.deepcopy(m.tree)
    # find the node by position
    for parent in ast.walk(tree):
        b = getattr(parent, "body", None)
        if not isinstance(b, list):
            continue
        for j, s in enumerate(b):
            if isinstance(s, ast.FunctionDef) and s.name == fi.node.name \
                    and s.lineno == fi.node.lineno:
                new = copy.deepcopy(g)
                new.decorator_list = s.decorator_list
                b[j] = new
                if extra is not None:
                    if isinstance(extra, ast.Assign):
                        k = 0
                        for k, t in enumerate(tree.body):
                            if isinstance(t, (ast.ClassDef,
                                              ast.FunctionDef)):
                                break
                        tree.body.insert(k, extra)
                    else:
                        b.insert(j + 1, extra)
                ast.fix_missing_locations(tree)
                return ast.unparse(tree)
    return None


G = {}


def one(job):
    import threading
    kname, target, k = job
    box = {}

    def work():
        repo0 = G["repo"]
        fi = repo0.func(target)
        res = KINDS[kname](fi.node, context(fi))
        try:
            src = apply(fi, res[k])
            ast.parse(src)
        except Exception as e:
            box["r"] = (job, "bad", str(e), "")
            return
        if src is None:
            box["r"] = (job, "bad", "not found", "")
            return
        repo = Repo(overlay={fi.module.rel: src})
        sp = S.load(repo)
        out = []
        S.private_vocab(repo)
        for s in sp:
            if s.target.split(":")[0] != fi.module.name:
                continue
            t0 = time.time()
            try:
                v = S.check_spec(repo, s, fast=True, secs=40)
            except Exception as e:
                v = S.Verdict(s, "engine", "%s: %s" % (
                    type(e).__name__, e), "", "")
            if v.status != "equal" or time.time() - t0 > 20:
                out.append((s.target, v.status, v.detail,
                            time.time() - t0))
        box["r"] = (job, "ok", out, res[k][0] if isinstance(
            res[k], tuple) else res[k])
    threading.stack_size(256*1024*1024)
    t = threading.Thread(target=work)
    t.start()
    t.join()
    r = box.get("r", (job, "bad", "crash", ""))
    return r[:3] + (ast.unparse(ast.fix_missing_locations(r[3]))
                    if r[1] == "ok" and r[2] else "",)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("-k", default="")
    ap.add_argument("-p", default="")
    ap.add_argument("-u", action="store_true")
    ap.add_argument("-s", action="store_true", help="show the new text")
    ap.add_argument("-o", default="")
    a = ap.parse_args()
    repo = Repo()
    specs = S.load(repo)
    G["repo"] = repo
    jobs = []
    for s in specs:
        fi = repo.func(s.target)
        if fi is None or getattr(fi, "ghost", False):
            continue
        if a.p and not any(q in s.target for q in a.p.split(",")):
            continue
        for kn, fn in sorted(KINDS.items()):
            if a.k and kn not in a.k.split(","):
                continue
            try:
                res = fn(fi.node, context(fi))
            except Exception as e:
                print("transform", kn, s.target, type(e).__name__, e)
                continue
            for i in range(len(res)):
                jobs.append((kn, s.target, i))
    print(len(jobs), "edits", flush=True)
    tot = {}
    bykind = {}
    out = open(a.o, "w") if a.o else None
    with multiprocessing.get_context("fork").Pool(
            8, maxtasksperchild=10) as pool:
        for job, st, res, txt in pool.imap_unordered(one, jobs, 4):
            if st == "bad":
                tot["bad"] = tot.get("bad", 0) + 1
                print("BAD", job, res)
                continue
            w = "quiet"
            for tg, s, d, secs in res:
                if s == "differs":
                    w = "ALARM"
                elif s != "equal" and w != "ALARM":
                    w = "undecided"
                if s == "differs" or a.u:
                    line = "%-9s %-16s %-60s %4.1fs %s" % (
                        s, job[0], tg, secs, d[:300])
                    print(line, flush=True)
                    if out:
                        out.write(line + "\n" + txt + "\n\n")
                    if a.s:
                        print(txt)
            tot[w] = tot.get(w, 0) + 1
            b = bykind.setdefault(job[0], {})
            b[w] = b.get(w, 0) + 1
    for k, v in sorted(bykind.items()):
        print("%-20s %s" % (k, v))
    print(tot)


if __name__ == "__main__":
    main()
