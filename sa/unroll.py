"""Loops written out for small sizes.

Two loops that the normal form cannot show equal need not be different.  Before
a difference is reported, both value graphs are rewritten with every loop bound
replaced by small numbers and the loops written out (the terms of the elements
stay symbols): a difference stands only if the written out graphs differ."""
from . import terms as T

LOOPS = ("sum", "comp", "dcomp", "fold", "while", "upd", "first", "last")
MAXPEEL = 4


class Sizes(object):
    """sizes of things by order of first appearance"""

    def __init__(self, pattern):
        self.pattern = pattern
        self.of = {}

    def size(self, t):
        if t not in self.of:
            self.of[t] = self.pattern[len(self.of) % len(self.pattern)]
        return T.Num(self.of[t])


def writeout(t, sizes, atoms):
    memo = {}

    def rec(x, d):
        if x in atoms:
            return atoms[x]
        key = (x, d)
        if key in memo:
            return memo[key]
        T.tick()
        if x.op == "len":
            r = T.length(rec(x.args[0], d))
            if r.op == "len" and not any(k == "bv" for k, _ in T.free(r)):
                r = sizes.size(r)
            elif r.op != "num" and T.any_op(r, ("len",)) and \
                    not T.depends(r, 99):
                r = lens(r)
        elif x.op == "while":
            k = len(x.args[0])
            r = unwind([rec(y, d) for y in x.args[0]], rec(x.args[1], d + k),
                       [rec(y, d + k) for y in x.args[2]], 0, 0)
        elif x.op == "proj":
            y = rec(x.args[0], d)
            r = T.lift(lambda z: fold(z, x.args[1]), y)
        elif x.op in ("first", "last"):
            n = rec(x.args[0], d)
            c = rec(x.args[1], d + 1)
            nv = T.num_value(n)
            if nv is not None and 0 <= nv <= 12:
                r = T.sub(n, T.ONE) if x.op == "first" else T.ZERO
                order = range(int(nv))
                for i in (reversed(order) if x.op == "first" else order):
                    r = T.ite(T.instantiate(c, [T.Num(i)]), T.Num(i), r)
            else:
                r = T.pick_(x.op, n, c)
        elif x.op == "dcomp":
            n = rec(x.args[0], d)
            c, k, v = [rec(y, d + 1) for y in x.args[1:]]
            nv = T.num_value(n)
            if nv is not None and 0 <= nv <= 12:
                r = T.mk("dict", ())
                for i in range(int(nv)):
                    at = [T.Num(i)]
                    r = T.ite(T.instantiate(c, at), T.store(
                        r, T.instantiate(k, at), T.instantiate(v, at)), r)
            else:
                r = T.mk("dcomp", n, c, k, v)
        else:
            r = T.rebuild(x, rec, d)
        memo[key] = r
        return r

    def lens(r):
        m = {}
        stack = [r]
        while stack:
            y = stack.pop()
            if y.op == "len":
                if not any(k == "bv" for k, _ in T.free(y)):
                    m[y] = sizes.size(y)
            else:
                stack.extend(T.children(y))

        def go(y, d):
            return m[y] if y in m else T.rebuild(y, go, d)
        return go(r, 0)

    def fold(z, k):
        if z.op == "fold":
            return T.foldproj(z.args[0], z.args[1], z.args[2], k)
        return T.proj(z, k)

    def unwind(state, cond, bodies, step, forks):
        c = T.instantiate(cond, state)
        if c is T.FALSE:
            return T.mk("tuple", tuple(state))
        if step > 24 or (c is not T.TRUE and forks >= MAXPEEL):
            return T.mk("while", tuple(state), cond, tuple(bodies))
        go = unwind([T.instantiate(b, state) for b in bodies], cond, bodies,
                    step + 1, forks + (c is not T.TRUE))
        if c is T.TRUE:
            return go
        return T.ite(c, go, T.mk("tuple", tuple(state)))
    return rec(t, 0)


def bounds(t):
    """the terms that bound the loops left in t"""
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("sum", "dcomp", "fold", "upd", "first", "last"):
            out.append(x.args[0])
        elif x.op == "comp":
            out.append(x.args[1])
        stack.extend(T.children(x))
    return out


def atoms_of(b):
    """closed atoms of a bound: those of its value, those of its conditions"""
    out, conds = [], []

    def rec(t, out):
        if t.op in ("num", "const"):
            return
        if t.op == "ite":
            rec(t.args[0], conds)
            rec(t.args[1], out)
            rec(t.args[2], out)
            return
        if t.op == "poly" or t.op in ("pos", "zero", "eq"):
            for c in T.children(t):
                rec(c, out)
            return
        if any(k == "bv" for k, _ in T.free(t)):
            return
        if t.op in ("sym", "fresh", "index", "attr", "call", "mcall"):
            if t not in out:
                out.append(t)
    rec(b, out)
    return out, conds


def small(ts, pattern, signs=None):
    """the graphs ts with their loops written out, all with the same sizes"""
    sizes = Sizes(pattern)
    given = {}
    for _ in range(4):
        new, cond = [], []
        for t in ts:
            for b in bounds(t):
                for xs, ys in zip(atoms_of(b), (new, cond)):
                    for a in xs:
                        if a not in given and a not in ys:
                            ys.append(a)
        before = len(sizes.of)
        for a in new:
            given[a] = T.Num(pattern[len(given) % len(pattern)])
        for a in cond:
            if a not in given:
                given[a] = T.Num((signs or pattern)[
                    len(given) % len(signs or pattern)])
        ts2 = [writeout(t, sizes, given) for t in ts]
        same = all(x is y for x, y in zip(ts, ts2))
        ts = ts2
        if same and not new and len(sizes.of) == before:
            break
    return ts


PATTERNS = ((0,), (1,), (2,), (3,), (2, 3, 1), (1, 2, 3))
# further sizes, and values of what only the conditions of a bound look at
MORE = (((2,), (-1,)), ((1, 2), (-1, 1)), ((1, 1, 2), (1, -1)),
        ((1, 2, 1), (2, -1)), ((2, 1, 1), (-1, 2)), ((2, 2, 1, 1), (0,)),
        ((2, 1, 2, 1), (-1,)), ((2, 1, 1, 2), (0, -1)), ((0, 1), (-1, 0)),
        ((1, 0), (1, 0, -1)))


def agree(pairs):
    """do all pairs of graphs agree for every pattern of sizes?  None where
    nothing can be said"""
    if not any(T.any_op(t, LOOPS) for p in pairs for t in p):
        return None
    flat = [t for p in pairs for t in p]

    def same(pat, signs):
        out = small(list(flat), pat, signs)
        return all(T.equal(out[i], out[i + 1], True)
                   for i in range(0, len(out), 2))
    for pat in PATTERNS:
        if not same(pat, None):
            return False
    try:
        for pat, signs in MORE:
            if not same(pat, signs):
                return False
    except (T.Blowup, OverflowError, RecursionError):
        pass
    return True
