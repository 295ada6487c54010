"""Value-graph terms: hash-consed, kept in a canonical form by construction.

Numbers are multivariate Laurent polynomials over opaque atoms with rational
exponents (sums under a denominator are themselves atoms); conditionals are
ordered decision diagrams (MTBDDs) whose tests are canonical atoms; loops are
Sum / Comp / Fold binders with de Bruijn variables.  Nothing is executed and
no solver is called: equality is syntactic after normalisation, plus the exact
identity test ``N == 0`` after bringing a difference over its common
denominator.
"""
from fractions import Fraction
import hashlib
import math
import re
import time
import sys
sys.setrecursionlimit(20000)

_TABLE = {}
LIMIT = [10 ** 9]


DEADLINE = [None]
_count = [0]


def budget(n, secs=None):
    """allow n further terms and some time"""
    LIMIT[0] = len(_TABLE) + n
    DEADLINE[0] = None if secs is None else time.time() + secs


def tick():
    _count[0] += 1
    if _count[0] & 1023 == 0 and DEADLINE[0] is not None and \
            time.time() > DEADLINE[0]:
        raise Blowup("time limit")



class Term(object):
    __slots__ = ("op", "args", "dig", "flags", "_fv")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.dig < other.dig

    # identity equality / hash (hash consing)


def _enc(a):
    if isinstance(a, Term):
        return b"T" + a.dig
    if isinstance(a, tuple):
        return b"(" + b",".join(_enc(x) for x in a) + b")"
    if isinstance(a, Fraction):
        return b"F" + str(a).encode()
    if isinstance(a, bool):
        return b"B" + (b"1" if a else b"0")
    if a is None:
        return b"N"
    if isinstance(a, int):
        return b"I" + str(a).encode()
    if isinstance(a, str):
        return b"S" + repr(a).encode()
    if isinstance(a, (bytes, float, complex)):
        return b"X" + repr(a).encode()
    if a is Ellipsis:
        return b"E"
    raise TypeError(repr(a))


def _key(a):
    # python equality conflates True/1/1.0: tag types
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    if isinstance(a, Term):
        return a
    return (a.__class__, a)


def mk(op, *args):
    k = (op, _key(args))
    t = _TABLE.get(k)
    tick()
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.dig = hashlib.md5(op.encode() + _enc(args)).digest()
        t._fv = None
        _TABLE[k] = t
        if len(_TABLE) > LIMIT[0]:
            raise Blowup("value graph too large")
    return t


def children(t):
    out = []

    def rec(a):
        if isinstance(a, Term):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                rec(x)
    rec(t.args)
    return out


_NOVARS = frozenset()


def free(t):
    """set of free Sym-names (str), bound variables (int) and marks in t"""
    if t._fv is None:
        if t.op in ("sym", "bv", "fresh"):
            s = frozenset([(t.op, t.args[0])])
        else:
            s = set()
            for c in children(t):
                s |= free(c)
            if t.op in BINDERS:
                s2 = set()
                nb = BINDERS[t.op]
                # the non-body children are also scanned above: only bodies
                # bind; handled by recomputing precisely
                s = set()
                outer, bodies = split_binder(t)
                for c in outer:
                    s |= free(c)
                for c in bodies:
                    for kind, v in free(c):
                        if kind == "bv":
                            if v >= nb(t):
                                s.add((kind, v - nb(t)))
                        else:
                            s.add((kind, v))
            if t.op == "opaque":
                s = set(s)
                s.add(("opaque", 0))
            s = frozenset(s)
        t._fv = s
    return t._fv


# ---- binders: op -> number of bound variables
#  ('sum', n, body)                    1 bound: index
#  ('comp', kind, n, cond, body)       1 bound: index
#  ('dcomp', n, cond, key, body)       1 bound
#  ('fold', n, (init..), (body..))     k carried + 1 index (index = bv0)
#  ('while', (init..), cond, (body..)) k carried
#  ('lam', k, body)                    k bound
BINDERS = {
    "sum": lambda t: 1,
    "comp": lambda t: 1,
    "dcomp": lambda t: 1,
    "upd": lambda t: 1,
    "fold": lambda t: 1 + len(t.args[1]),
    "while": lambda t: len(t.args[0]),
    "lam": lambda t: t.args[0],
    "first": lambda t: 1,
    "last": lambda t: 1,
}


def split_binder(t):
    a = t.args
    if t.op == "sum":
        return [a[0]], [a[1]]
    if t.op == "comp":
        return [a[1]], [a[2], a[3]]
    if t.op == "dcomp":
        return [a[0]], [a[1], a[2], a[3]]
    if t.op == "upd":
        return [a[0], a[1]], [a[2], a[3], a[4]]
    if t.op == "fold":
        return [a[0]] + list(a[1]), list(a[2])
    if t.op == "while":
        return list(a[0]), [a[1]] + list(a[2])
    if t.op == "lam":
        return [], [a[1]]
    if t.op in ("first", "last"):
        return [a[0]], [a[1]]
    raise ValueError(t.op)


# ------------------------------------------------------------------ basics
def Sym(name):
    return mk("sym", name)


def Const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) \
            or v is Ellipsis:
        return mk("const", v)
    if isinstance(v, int):
        return Num(Fraction(v))
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("const", repr(v))
        return Num(Fraction(repr(v)))
    if isinstance(v, complex):
        return mk("call", "complex", (Const(v.real), Const(v.imag)), ())
    if isinstance(v, Fraction):
        return Num(v)
    raise TypeError(v)


TRUE = mk("const", True)
FALSE = mk("const", False)
NONE = mk("const", None)


def Num(f):
    f = Fraction(f)
    if f == 0:
        return mk("poly", ())
    return mk("poly", ((f, ()),))


def num_value(t):
    """Fraction if t is a numeric constant, else None"""
    if t.op == "poly":
        if len(t.args[0]) == 0:
            return Fraction(0)
        if len(t.args[0]) == 1 and t.args[0][0][1] == ():
            return t.args[0][0][0]
    if t.op == "const" and isinstance(t.args[0], bool):
        return Fraction(int(t.args[0]))
    return None


ZERO = Num(0)
ONE = Num(1)
MINUS = Num(-1)
_level = [0]


def Fresh(tag="", rank=0, level=None):
    """symbol of a loop that is being analysed, named by nesting level and
    rank so that its name does not depend on what was analysed before"""
    return mk("fresh", "%s#%d.%d" % (tag, _level[0] + 1 if level is None
                                     else level, rank))


def fresh_key(t):
    a, _, b = t.args[0].rpartition("#")[2].partition(".")
    return int(a), int(b)


class deeper(object):
    def __enter__(self):
        _level[0] += 1

    def __exit__(self, *a):
        _level[0] -= 1


def mkoset(ts):
    """an unordered collection, canonical under substitution"""
    return mk("oset", tuple(sorted(set(ts), key=lambda t: t.dig)))


def plain_fresh(t, mark):
    """the symbols of loops below the level, by kind only"""
    m = {}
    for k, v in free(t):
        if k == "fresh":
            x = mk("fresh", v)
            if fresh_key(x)[0] > mark:
                m[x] = mk("sym", "$" + v.rpartition("#")[0])
    return subst(t, m) if m else t


def opaque(reason):
    return mk("opaque", reason)


def any_op(t, ops):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ops:
            return True
        stack.extend(children(x))
    return False


def has_opaque(t):
    return any(k == "opaque" for k, _ in free(t))


# ------------------------------------------------------------- polynomials
def monos(t):
    """the term as tuple of (coeff, monomial)"""
    if t.op == "poly":
        return t.args[0]
    if t.op == "const" and isinstance(t.args[0], bool):
        return monos(Num(int(t.args[0])))
    return ((Fraction(1), ((t, Fraction(1)),)),)


def _mono_key(m):
    return tuple((a.dig, e) for a, e in m)


def _from_dict(d):
    items = [(c, m) for m, c in d.items() if c != 0]
    if len(items) == 1 and items[0][0] == 1 and len(items[0][1]) == 1 \
            and items[0][1][0][1] == 1 and items[0][1][0][0].op != "psum":
        return items[0][1][0][0]
    items.sort(key=lambda cm: _mono_key(cm[1]))
    return mk("poly", tuple(items))


def _mul_mono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0),
                        key=lambda ae: ae[0].dig))


MAXMONO = 4000


def _addmul(d, c, m):
    """add c*m to dict d, expanding psum atoms with exponent >= 1"""
    for i, (a, e) in enumerate(m):
        if a.op == "psum" and e >= 1:
            k = e.numerator // e.denominator
            rest = m[:i] + m[i + 1:]
            fr = e - k
            if fr:
                rest = _mul_mono(rest, ((a, fr),))
            poly = {rest: c}
            base = a.args[0]
            for _ in range(k):
                new = {}
                for m1, c1 in poly.items():
                    for c2, m2 in base:
                        mm = _mul_mono(m1, m2)
                        new[mm] = new.get(mm, 0) + c1 * c2
                poly = new
                if len(poly) > MAXMONO:
                    raise OverflowError("polynomial too large")
            for m1, c1 in poly.items():
                _addmul(d, c1, m1)
            return
        if a.op == "num" and e.denominator == 1:
            rest = m[:i] + m[i + 1:]
            _addmul(d, c * a.args[0] ** int(e), rest)
            return
    d[m] = d.get(m, 0) + c


def padd(a, b):
    d = {}
    for c, m in monos(a):
        d[m] = d.get(m, 0) + c
    for c, m in monos(b):
        d[m] = d.get(m, 0) + c
    return _norm(d)


def pmul(a, b):
    d = {}
    ma, mb = monos(a), monos(b)
    if len(ma) * len(mb) > MAXMONO:
        raise OverflowError("polynomial too large")
    for c1, m1 in ma:
        for c2, m2 in mb:
            _addmul(d, c1 * c2, _mul_mono(m1, m2))
    return _norm(d)


def _norm(d):
    d = {m: c for m, c in d.items() if c != 0}
    # common denominator over psum atoms
    mins = {}
    present = set()
    for m in d:
        for a, e in m:
            if a.op == "psum":
                present.add(a)
    if present:
        for a in present:
            lo = min([dict(m).get(a, Fraction(0)) for m in d])
            mins[a] = lo
        neg = [a for a in present if mins[a] < 0]
        if neg:
            num = {}
            scale = tuple(sorted(((a, -mins[a]) for a in neg),
                                 key=lambda ae: ae[0].dig))
            for m, c in d.items():
                _addmul(num, c, _mul_mono(m, scale))
            num = {m: c for m, c in num.items() if c != 0}
            for a in sorted(neg, key=lambda x: x.dig):
                while num and mins[a] < 0:
                    q = _divide(num, a)
                    if q is None:
                        break
                    num = q
                    mins[a] += 1
            den = tuple(sorted(((a, mins[a]) for a in neg if mins[a] != 0),
                               key=lambda ae: ae[0].dig))
            out = {}
            for m, c in num.items():
                mm = _mul_mono(m, den)
                out[mm] = out.get(mm, 0) + c
            d = {m: c for m, c in out.items() if c != 0}
    return _from_dict(d)


def _divide(num, psum):
    """exact division of poly dict by the psum polynomial, or None"""
    base = psum.args[0]
    if len(num) < len(base):
        return None
    lead_c, lead_m = max(base, key=lambda cm: _grade(cm[1]))
    rem = dict(num)
    quo = {}
    inv = tuple((a, -e) for a, e in lead_m)
    steps = 0
    while rem:
        steps += 1
        if steps > 400:
            return None
        m = max(rem, key=_grade)
        c = rem[m]
        qm = _mul_mono(m, inv)
        # require divisibility: no new negative exponents
        dm = dict(m)
        for a, e in lead_m:
            if dm.get(a, 0) < e:
                return None
        qc = c / lead_c
        quo[qm] = quo.get(qm, 0) + qc
        for c2, m2 in base:
            mm = _mul_mono(qm, m2)
            v = rem.get(mm, 0) - qc * c2
            if v == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = v
        if m in rem:
            return None
    return quo


def _grade(m):
    # a monomial order compatible with multiplication: lexicographic on
    # (atom digest -> exponent), via sparse representation
    return _Lex(m)


class _Lex(object):
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def _cmp(self, o):
        i = j = 0
        a, b = self.m, o.m
        while i < len(a) or j < len(b):
            if j >= len(b) or (i < len(a) and a[i][0].dig < b[j][0].dig):
                return 1 if a[i][1] > 0 else -1
            if i >= len(a) or b[j][0].dig < a[i][0].dig:
                return -1 if b[j][1] > 0 else 1
            if a[i][1] != b[j][1]:
                return 1 if a[i][1] > b[j][1] else -1
            i += 1
            j += 1
        return 0

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __gt__(self, o):
        return self._cmp(o) > 0


def _root(f, e):
    """f**e for positive Fraction f and Fraction e if rational, else None"""
    n, dnm = f.numerator, f.denominator
    q = e.denominator

    def iroot(x):
        if x in (0, 1):
            return x
        r = int(round(x ** (1.0 / q)))
        for k in (r - 1, r, r + 1):
            if k >= 0 and k ** q == x:
                return k
        return None
    if n.bit_length() > 900 or dnm.bit_length() > 900:
        return None
    a, b = iroot(n), iroot(dnm)
    if a is None or b is None:
        return None
    return Fraction(a, b) ** e.numerator


def ppow(a, e):
    """a ** e, e Fraction"""
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return a
    ms = monos(a)
    if len(ms) == 0:
        if e > 0:
            return ZERO
        return mk("call", "div0", (), ())
    if len(ms) == 1:
        c, m = ms[0]
        if e.denominator == 1:
            d = {}
            _addmul(d, c ** int(e), tuple((x, y * e) for x, y in m))
            return _norm(d)
        if not m:
            if c > 0:
                r = _root(c, e)
                if r is not None:
                    return Num(r)
                return _from_dict({((mk("num", c), e),): Fraction(1)})
            return mk("call", "pow", (a, Num(e)), ())
        # fractional power of a monomial
        if len(m) == 1 and c > 0 and (m[0][1] == 1 or
                                      m[0][1].denominator != 1):
            d = {}
            k = _root(c, e)
            mm = ((m[0][0], m[0][1] * e),)
            if k is None:
                mm = _mul_mono(mm, ((mk("num", c), e),))
                k = Fraction(1)
            _addmul(d, k, mm)
            return _norm(d)
        if len(m) == 1 and c > 0 and m[0][1] == 2 and e == Fraction(1, 2):
            k = _root(c, e)
            if k is not None:
                return pmul(Num(k), call("abs", (m[0][0],)))
    # general base
    if e.denominator == 1 and 1 <= e <= 6:
        out = a
        for _ in range(int(e) - 1):
            out = pmul(out, a)
        return out
    coeff, common, base = _primitive(ms, e.denominator == 1)
    out = {}
    k = Fraction(1)
    m = ((base, e),)
    if e.denominator == 1:
        k = coeff ** int(e)
        m = _mul_mono(m, tuple((x, y * e) for x, y in common))
    else:
        k = _root(coeff, e)
        if k is None:
            k = Fraction(1)
            m = _mul_mono(m, ((mk("num", coeff), e),))
    _addmul(out, k, m)
    return _norm(out)


def _primitive(ms, integer):
    """split poly into coeff * common monomial * psum"""
    common = ()
    if integer:
        # common monomial content over non-psum atoms
        cand = dict(ms[0][1])
        for c, m in ms[1:]:
            dm = dict(m)
            for a in list(cand):
                lo = min(cand[a], dm.get(a, Fraction(0)))
                cand[a] = lo
            for a in dm:
                if a not in cand:
                    cand[a] = min(Fraction(0), dm[a])
        for a in list(cand):
            if cand[a] == 0:
                del cand[a]
        common = tuple(sorted(cand.items(), key=lambda ae: ae[0].dig))
        if common:
            inv = tuple((a, -e) for a, e in common)
            ms = [(c, _mul_mono(m, inv)) for c, m in ms]
            ms = sorted(ms, key=lambda cm: _mono_key(cm[1]))
    lead = max(ms, key=lambda cm: _grade(cm[1]))[0]
    coeff = lead if integer else abs(lead)
    ms = tuple((c / coeff, m) for c, m in ms)
    return coeff, common, mk("psum", tuple(ms))


# ------------------------------------------------------------ conditionals
def is_bool(t):
    if t.op == "const" and isinstance(t.args[0], bool):
        return True
    if t.op in ("eq", "pos", "zero", "truthy", "in", "isinst", "raises",
                "btest", "hasattr", "any"):
        return True
    if t.op == "ite":
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return False


MAXITE = 20000
_ite_memo = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if not is_bool(c):
        c = truth(c)
        if c is TRUE:
            return a
        if c is FALSE:
            return b
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    # top atom
    tops = []
    for t in (c, a, b):
        if t.op == "ite":
            tops.append(t.args[0])
        elif t is c or t.op != "const" and is_bool(t):
            tops.append(t)
    top = min(tops, key=lambda x: x.dig)
    hi = ite(cof(c, top, True), cof(a, top, True), cof(b, top, True))
    lo = ite(cof(c, top, False), cof(a, top, False), cof(b, top, False))
    r = _mkite(top, hi, lo)
    _ite_memo[key] = r
    return r


def _mkite(atom, hi, lo):
    if hi is lo:
        return hi
    # under x == const, replace x by the constant in the hi branch
    if atom.op == "eq":
        x, k = atom.args
        if k.op == "const" and x.op in ("sym", "fresh", "bv") and \
                not is_bool(hi):
            hi2 = subst(hi, {x: k})
            if hi2 is not hi:
                hi = hi2
                if hi is lo:
                    return hi
                if hi.op == "ite" and hi.args[0].dig < atom.dig:
                    return ite(atom, hi, lo)
        elif k.op == "const" and not is_bool(x) and has_leaf(hi, x):
            hi2 = swap_leaf(hi, x, k)
            if hi2 is lo:
                return hi2
            if hi2.op == "ite" and hi2.args[0].dig < atom.dig:
                return ite(atom, hi2, lo)
            hi = hi2
        # x == const ? const : x
        if k.op == "const" and not is_bool(x) and has_leaf(lo, x) and \
                cof(swap_leaf(lo, x, k), atom, True) is hi:
            return lo
    if hi is TRUE and lo is FALSE:
        return atom
    if atom.op in ("pos", "zero") and hi.op != "ite" and lo.op != "ite" and \
            not _special(hi) and not _special(lo) and \
            hi.op not in ("opaque", "raise") and \
            lo.op not in ("opaque", "raise") and not is_bool(hi) and \
            not is_bool(lo):
        try:
            d = padd(hi, pmul(MINUS, lo))
            q = pmul(d, ppow(atom.args[0], -1))
        except OverflowError:
            q = None
        k = num_value(q) if q is not None else None
        if k is not None and k != 0:
            if atom.op == "zero":
                return lo
            # absolute value: the two branches are opposite
            if padd(hi, lo) is ZERO:
                a = call("abs", (hi,))
                return a if k > 0 else neg(a)
            return call("max" if k > 0 else "min", (hi, lo))
    return mk("ite", atom, hi, lo)


_leafset_memo = {}


def has_leaf(t, x):
    if t is x:
        return True
    return t.op == "ite" and x in leaf_set(t)


def leaf_set(t):
    if t.op != "ite":
        return frozenset((t,))
    r = _leafset_memo.get(t)
    if r is None:
        r = leaf_set(t.args[1]) | leaf_set(t.args[2])
        _leafset_memo[t] = r
    return r


def swap_leaf(t, x, k):
    if t is x:
        return k
    return lift(lambda y: k if y is x else y, t)


_cof_memo = {}


def implied(atom, val, other):
    """value of atom `other` given atom==val, or None"""
    if atom is other:
        return val
    if val is True:
        if atom.op == "truthy" and other.op == "eq" and \
                other.args[1] is NONE and not_null(atom, other.args[0]):
            return False
        if atom.op == "eq" and other.op == "truthy" and \
                atom.args[1] is NONE and not_null(other, atom.args[0]):
            return False
        if atom.op == "eq" and other.op == "eq":
            x, k = atom.args
            y, j = other.args
            if x is y and k is not j and _distinct(k, j):
                return False
        if atom.op == "eq" and other.op == "zero":
            # x is a string or None: no equation with a number
            x, k = atom.args
            if _nonnumber(k) and _linear_in(other.args[0], x):
                return False
        if atom.op == "zero" and other.op == "eq":
            x, k = other.args
            if _nonnumber(k) and _linear_in(atom.args[0], x):
                return False
        if atom.op == "eq" and other.op == "truthy":
            x, k = atom.args
            if x is other.args[0] and k.op == "const":
                return bool(k.args[0])
        if atom.op == "truthy" and other.op == "eq":
            x, k = other.args
            if x is atom.args[0] and k.op == "const" and not k.args[0]:
                return False
        if atom.op == "isinst" and other.op == "isinst":
            pass
        if atom.op == "zero" and other.op == "pos":
            if other.args[0] is atom.args[0] or \
                    other.args[0] is neg(atom.args[0]):
                return False
        if atom.op == "pos" and other.op == "pos":
            d = num_value(sub(other.args[0], atom.args[0]))
            if d is not None and d >= 0:
                return True
            d = num_value(add(other.args[0], atom.args[0]))
            if d is not None and d <= 0:
                return False
        if atom.op == "pos" and other.op == "zero":
            p = atom.args[0]
            for q in (other.args[0], neg(other.args[0])):
                # p>0 ; q = p + d, d>=0 -> q>0 -> not zero
                d = num_value(sub(q, p))
                if d is not None and d >= 0:
                    return False
        if atom.op == "zero" and other.op == "zero":
            d = num_value(sub(other.args[0], atom.args[0]))
            if d is not None and d != 0:
                return False
            d = num_value(add(other.args[0], atom.args[0]))
            if d is not None and d != 0:
                return False
        if atom.op == "zero" and other.op == "pos":
            for s in (1, -1):
                q = other.args[0]
                d = num_value(sub(q, mul(Num(s), atom.args[0])))
                if d is not None:
                    return d > 0
    else:
        if atom.op == "pos" and other.op == "pos":
            # p <= 0 ; q = p + d with d <= 0 -> q <= 0
            d = num_value(sub(other.args[0], atom.args[0]))
            if d is not None and d <= 0:
                return False
            # q = -p + d with d>0 -> q > 0
            d = num_value(add(other.args[0], atom.args[0]))
            if d is not None and d > 0:
                return True
        if atom.op == "pos" and other.op == "zero":
            p = atom.args[0]
            for q in (other.args[0], neg(other.args[0])):
                d = num_value(sub(q, p))
                if d is not None and d < 0:
                    return False
    return None


def not_null(check, x):
    """the truth of the check shows that x is an object"""
    c = check.args[0]
    return c.op == "call" and c.args[0] in NOT_NULL and \
        len(c.args[1]) > 0 and c.args[1][0] is x


def _linear_in(p, x):
    if p is x:
        return True
    if p.op != "poly":
        return False
    ats = [m for c, m in p.args[0] if m]
    return len(ats) == 1 and len(ats[0]) == 1 and ats[0][0][1] == 1 and \
        ats[0][0][0] is x


def _distinct(a, b):
    if a.op == "const" and b.op == "const":
        return a.args[0] != b.args[0] or type(a.args[0]) != type(b.args[0])
    na, nb = num_value(a), num_value(b)
    if na is not None and nb is not None:
        return na != nb
    if (a.op == "const") != (b.op == "const") and \
            (na is not None or nb is not None):
        return True
    if a.op == "const" and b.op in ("list", "tuple", "dict"):
        return True
    if b.op == "const" and a.op in ("list", "tuple", "dict"):
        return True
    return False


def cof(t, atom, val):
    if t.op != "ite":
        v = None
        if is_bool(t):
            v = implied(atom, val, t)
        if v is None:
            return t
        return TRUE if v else FALSE
    key = (t, atom, val)
    r = _cof_memo.get(key)
    if r is None:
        a, hi, lo = t.args
        v = implied(atom, val, a)
        if v is True:
            r = cof(hi, atom, val)
        elif v is False:
            r = cof(lo, atom, val)
        else:
            h, l = cof(hi, atom, val), cof(lo, atom, val)
            r = t if (h is hi and l is lo) else _mkite(a, h, l)
        _cof_memo[key] = r
    return r


def assume(t, cond):
    """simplify t under the truth of cond (a boolean term); the value of t
    outside cond is irrelevant.  Used only on conjunction literals."""
    for atom, val in literals(cond):
        t = cof(t, atom, val)
    return t


def restrict(t, go):
    """simplify the decisions of t that are settled where go holds"""
    memo = {}

    def rec(t, g):
        if g is TRUE or g is FALSE:
            return t
        if t.op != "ite":
            if t is not TRUE and t is not FALSE and is_bool(t):
                if cof(g, t, True) is FALSE:
                    return FALSE
                if cof(g, t, False) is FALSE:
                    return TRUE
            return t
        r = memo.get((t, g))
        if r is not None:
            return r
        tick()
        a = t.args[0]
        g1, g0 = cof(g, a, True), cof(g, a, False)
        if g1 is FALSE:
            r = rec(t.args[2], g0)
        elif g0 is FALSE:
            r = rec(t.args[1], g1)
        else:
            r = ite(a, rec(t.args[1], g1), rec(t.args[2], g0))
        memo[(t, g)] = r
        return r
    return rec(t, go)


def constrain(t, go):
    """the decision diagram of t where go holds: equal for all t that agree
    there"""
    memo = {}

    def top(x):
        return x.args[0] if x.op == "ite" else x

    def rec(t, g):
        if g is TRUE or g is FALSE or t.op == "const":
            return t
        r = memo.get((t, g))
        if r is not None:
            return r
        tick()
        tops = [top(x) for x in (t, g) if x.op == "ite" or is_bool(x)]
        a = min(tops, key=lambda x: x.dig)
        g1, g0 = cof(g, a, True), cof(g, a, False)
        t1, t0 = cof(t, a, True), cof(t, a, False)
        if g1 is FALSE:
            r = rec(t0, g0)
        elif g0 is FALSE:
            r = rec(t1, g1)
        else:
            r = ite(a, rec(t1, g1), rec(t0, g0))
        memo[(t, g)] = r
        return r
    return rec(t, go)


def literals(cond):
    """literals forced by cond (its single-path prefix)"""
    out = []
    while cond.op == "ite":
        a, hi, lo = cond.args
        if lo is FALSE:
            out.append((a, True))
            cond = hi
        elif hi is FALSE:
            out.append((a, False))
            cond = lo
        else:
            break
    else:
        if is_bool(cond) and cond.op != "const":
            out.append((cond, True))
    return out


def not_(c):
    return ite(c, FALSE, TRUE)


def and_(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, truth(c), FALSE)
    return r


def or_(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, truth(c))
    return r


def truth(t):
    if t.op == "const":
        return TRUE if t.args[0] else FALSE
    if is_bool(t):
        return t
    n = num_value(t)
    if n is not None:
        return TRUE if n != 0 else FALSE
    if t.op == "ite":
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op == "poly":
        return not_(eq(t, ZERO))
    if t.op in ("list", "tuple", "dict", "set"):
        return TRUE if len(t.args[0]) else FALSE
    if t.op == "len":
        return truthy(t.args[0])
    if t.op == "sum" and nat(t):
        return nonzero(t)
    if t.op == "comp":
        return truthy(t)
    if t.op == "concat":
        return or_(*t.args[0])
    return mk("truthy", t)


def truthy(x):
    if x.op in ("list", "tuple", "dict", "set", "const", "comp"):
        if x.op == "comp" and x.args[2] is TRUE:
            return lt(ZERO, x.args[1])
        if x.op == "comp":
            if x.args[3] is not TRUE and x.args[0] == "list":
                return truthy(mkcomp("list", x.args[1], x.args[2], TRUE))
            return mk("truthy", x)
        if x.op != "comp":
            return truth(x)
    return mk("truthy", x)


class Blowup(Exception):
    """the value graph outgrew its budget: the function is not decided"""


def lift(f, *ts):
    """apply f leafwise over decision diagrams"""
    if not any(t.op == "ite" for t in ts):
        return f(*ts)
    memo = {}

    def rec(ts):
        if not any(t.op == "ite" for t in ts):
            return f(*ts)
        r = memo.get(ts)
        if r is None:
            if len(memo) > 3000:
                raise Blowup("decision diagram too large")
            top = min((t.args[0] for t in ts if t.op == "ite"),
                      key=lambda x: x.dig)
            hi = rec(tuple(cof(t, top, True) for t in ts))
            lo = rec(tuple(cof(t, top, False) for t in ts))
            r = ite(top, hi, lo)
            memo[ts] = r
        return r
    return rec(ts)


_leaf_memo = {}


def leaves(t):
    if t.op != "ite":
        return 1
    r = _leaf_memo.get(t)
    if r is None:
        r = leaves(t.args[1]) + leaves(t.args[2])
        _leaf_memo[t] = r
    return r


# -------------------------------------------------------------- arithmetic
SEQ = ("list", "tuple", "comp", "concat", "str", "fmt")
STRCALLS = ("str", "repr", "os.path.join", "json.dumps")
MATCALLS = ("numpy.matrix", "numpy.linalg.inv", "numpy.transpose",
            "numpy.linalg.cholesky")


def seqlike(t):
    return t.op in SEQ or (t.op == "const" and isinstance(t.args[0], (str, bytes))) \
        or (t.op == "call" and t.args[0] in STRCALLS) or \
        (t.op == "call" and t.args[0] in ("list", "tuple", "sorted", "rep"))


def matlike(t):
    if t.op == "matmul":
        return True
    if t.op == "call" and t.args[0] in MATCALLS:
        return True
    if t.op == "poly":
        return any(matlike(a) for c, m in t.args[0] for a, e in m)
    if t.op == "mcall" and t.args[1] in ("transpose",):
        return True
    if t.op == "attr" and t.args[1] == "T":
        return True
    return False


def add(a, b):
    return lift(_add, a, b)


def _add(a, b):
    if seqlike(a) or seqlike(b):
        return concat(a, b)
    for x, y in ((a, b), (b, a)):
        # what a loop carries as a sequence
        if x.op == "fresh" and x.args[0][:1] == "q" and \
                not matlike(y) and y.op in ("fresh", "call", "mcall", "index",
                                            "attr", "sym"):
            return concat(a, b)
    if has_op(a) or has_op(b):
        return opaque_of(a, b)
    return padd(a, b)


def has_op(t):
    return t.op == "opaque"


def opaque_of(*ts):
    for t in ts:
        if t.op == "opaque":
            return t
    return None


def concat(a, b):
    parts = []
    for t in (a, b):
        if t.op == "concat":
            parts.extend(t.args[0])
        else:
            parts.append(t)
    out = []
    for p in parts:
        if out:
            q = out[-1]
            if q.op == "list" and p.op == "list":
                out[-1] = mk("list", q.args[0] + p.args[0])
                continue
            if q.op == "tuple" and p.op == "tuple":
                out[-1] = mk("tuple", q.args[0] + p.args[0])
                continue
            if q.op == "const" and p.op == "const" and \
                    isinstance(q.args[0], str) and isinstance(p.args[0], str):
                out[-1] = Const(q.args[0] + p.args[0])
                continue
        out.append(p)
    out = [p for p in out
           if not (p.op in ("list", "tuple") and len(p.args[0]) == 0)
           and not (p.op == "const" and p.args[0] == "")]
    if not out:
        return parts[0]
    if len(out) == 1:
        return out[0]
    return mk("concat", tuple(out))


def neg(a):
    return lift(lambda x: pmul(MINUS, x) if not has_op(x) else x, a)


def sub(a, b):
    return lift(_sub, a, b)


def _sub(a, b):
    if has_op(a) or has_op(b):
        return opaque_of(a, b)
    if a is b:
        return ZERO
    return padd(a, pmul(MINUS, b))


def mul(a, b):
    return lift(_mul, a, b)


def _mul(a, b):
    if has_op(a) or has_op(b):
        return opaque_of(a, b)
    for x, y in ((a, b), (b, a)):
        if seqlike(x) and x.op != "call":
            n = num_value(y)
            if x.op in ("list", "tuple") and any(
                    cell(a) for a in x.args[0]) and (
                        n is None or n > 1):
                # the same list in every place, not one list each
                return mk("call", "rep", (x, y), ())
            if x.op in ("list", "tuple") and n is not None and \
                    n.denominator == 1 and 0 <= n <= 64:
                return mk(x.op, x.args[0] * int(n))
            if x.op == "list" and len(x.args[0]) == 1:
                return comp("list", y, lambda i: x.args[0][0])
            return mk("call", "rep", (x, y), ())
    if matlike(a) and matlike(b):
        return matmul(a, b)
    return pmul(a, b)


def cell(t):
    """a container made on the spot"""
    if t.op == "call":
        return t.args[0] in ("rep", "set")
    return t.op in ("list", "dict", "set", "dcomp", "dictcomp", "upd") or \
        t.op == "comp" and t.args[0] == "list"


def matmul(a, b):
    """non-commutative product; scalars are pulled out"""
    ca, ta = _scal(a)
    cb, tb = _scal(b)
    parts = []
    for t in (ta, tb):
        if t.op == "matmul":
            parts.extend(t.args[0])
        else:
            parts.append(t)
    return pmul(pmul(ca, cb), mk("matmul", tuple(parts)))


def _scal(t):
    ms = monos(t)
    if len(ms) == 1:
        c, m = ms[0]
        mats = [(a, e) for a, e in m if matlike(a) and e == 1]
        if len(mats) == 1:
            rest = tuple((a, e) for a, e in m if (a, e) != mats[0])
            return _from_dict({rest: c}), mats[0][0]
    return ONE, t


def div(a, b):
    return lift(_div, a, b)


def _div(a, b):
    if has_op(a) or has_op(b):
        return opaque_of(a, b)
    return pmul(a, ppow(b, -1))


def pow_(a, b):
    return lift(_pow, a, b)


def _pow(a, b):
    if has_op(a) or has_op(b):
        return opaque_of(a, b)
    n = num_value(b)
    if n is not None:
        na = num_value(a)
        if na is not None and n.denominator == 1 and abs(n) < 400:
            if na == 0 and n < 0:
                return call("div0", ())
            return Num(na ** int(n))
        if n.denominator <= 12 and abs(n) <= 24:
            return ppow(a, n)
    return mk("call", "pow", (a, b), ())


def int_op(name, a, b):
    def f(x, y):
        nx, ny = num_value(x), num_value(y)
        if nx is not None and ny is not None and ny != 0:
            return Num(nx // ny) if name == "floordiv" else Num(nx % ny)
        return mk("call", name, (x, y), ())
    return lift(f, a, b)


# -------------------------------------------------------------- comparison
def eq(a, b):
    return lift(_eq, a, b)


def _special(t):
    return t.op == "const" or t.op in ("list", "tuple", "dict", "comp",
                                       "concat", "type", "set")


def _eq(a, b):
    if a is b:
        return TRUE
    if _distinct(a, b):
        return FALSE
    if a.op == "const" or b.op == "const" or _special(a) or _special(b):
        if a.op == "const" or (_special(a) and not _special(b)):
            a, b = b, a
        if _special(a) and _special(b) and b.dig < a.dig:
            a, b = b, a
        # bool(x) == True
        if b is TRUE and is_bool(a):
            return a
        if b is FALSE and is_bool(a):
            return not_(a)
        # number against string/None constant
        if b.op == "const" and num_value(a) is not None:
            return FALSE
        if b.op == "list" and len(b.args[0]) == 0:
            return not_(truthy(a))
        return mk("eq", a, b)
    if is_bool(a) and is_bool(b):
        return ite(a, b, not_(b))
    d = _sub(a, b)
    n = num_value(d)
    if n is not None:
        return TRUE if n == 0 else FALSE
    ms = monos(d)
    if len(ms) == 1 and len(ms[0][1]) == 1 and nat(ms[0][1][0][0]):
        return not_(nonzero(ms[0][1][0][0]))
    # normalise: primitive, sign
    lead = max(ms, key=lambda cm: _grade(cm[1]))[0]
    d = pmul(Num(1 / lead), d)
    return mk("zero", d)


def lt(a, b):
    """a < b"""
    return lift(_lt, a, b)


def _lt(a, b):
    if a is b:
        return FALSE
    d = _sub(b, a)          # d > 0
    if d.op == "opaque":
        return mk("truthy", d)
    n = num_value(d)
    if n is not None:
        return TRUE if n > 0 else FALSE
    ms = monos(d)
    r = nat_above(d)
    if r is not None:
        return r
    lead = max(ms, key=lambda cm: _grade(cm[1]))[0]
    d = pmul(Num(1 / abs(lead)), d)
    return mk("pos", d)


def counts(t):
    """a sum that counts the indices for which a condition holds"""
    if t.op != "sum" or t.args[1].op != "ite":
        return False
    seen = set()
    stack = [t.args[1]]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            stack.extend(x.args[1:])
        elif x is not ONE and x is not ZERO:
            return False
    return True


def nat(t):
    return t.op == "len" or counts(t)


def nonzero(t):
    """t > 0 for a natural number t"""
    if t.op == "len":
        return truthy(t.args[0])

    def b(x):
        if x.op == "ite":
            return ite(x.args[0], b(x.args[1]), b(x.args[2]))
        return TRUE if x is ONE else FALSE
    return any_(t.args[0], b(t.args[1]))


def nat_above(d):
    """d > 0 for d = a*m + c with m a natural number, or None"""
    ms = monos(d)
    if len(ms) > 2:
        return None
    c = Fraction(0)
    m = None
    for k, x in ms:
        if x == ():
            c = k
        elif len(x) == 1 and x[0][1] == 1 and nat(x[0][0]):
            m, a = x[0][0], k
        else:
            return None
    if m is None:
        return None
    if a > 0:               # m > -c/a
        k = math.floor(-c / a)
        if k < 0:
            return TRUE
        return nonzero(m) if k == 0 else mk("pos", sub(m, Num(k)))
    k = math.ceil(-c / a) - 1         # m < -c/a, m <= k
    if k < 0:
        return FALSE
    return not_(nonzero(m) if k == 0 else mk("pos", sub(m, Num(k))))


def le(a, b):
    return not_(lt(b, a))


# -------------------------------------------------------------- containers
def length(t):
    return lift(_length, t)


def _length(t):
    if t.op in ("list", "tuple", "set"):
        return Num(len(t.args[0]))
    if t.op == "dict":
        return Num(len(t.args[0]))
    if t.op == "const" and isinstance(t.args[0], (str, bytes)):
        return Num(len(t.args[0]))
    if t.op == "comp" and t.args[2] is TRUE:
        return t.args[1]
    if t.op == "comp" and t.args[0] == "list":
        return mksum(t.args[1], ite(t.args[2], ONE, ZERO))
    if t.op == "upd":
        return length(t.args[1])
    if t.op == "store":
        return length(t.args[0])
    if t.op == "range":
        return t.args[0]
    if t.op == "concat":
        r = ZERO
        for p in t.args[0]:
            r = add(r, length(p))
        return r
    if t.op == "slice":
        x, lo, hi, st = t.args
        if st is NONE:
            n = None
            if hi is NONE:
                lv = num_value(lo)
                if lv is not None and lv >= 0:
                    return sub(length(x), lo)
            else:
                hv, lv = num_value(hi), num_value(lo)
                if hv is not None and lv is not None and hv < 0 <= lv:
                    return sub(add(length(x), hi), lo)
    if t.op == "call" and t.args[0] == "zip" and t.args[1]:
        ns = [length(x) for x in t.args[1]]
        if all(n is ns[0] for n in ns):
            return ns[0]
    if t.op == "call" and t.args[0] in ("sorted", "list", "tuple",
                                        "enumerate",
                                        "reversed", "dict.items",
                                        "dict.keys", "dict.values",
                                        "numpy.array") and len(t.args[1]) >= 1:
        if t.args[0] != "numpy.array" or True:
            return length(t.args[1][0])
    if t.op == "opaque":
        return t
    return mk("len", t)


def store(c, k, v):
    """functional update c[k] = v"""
    if c.op == "ite" or k.op == "ite":
        return lift(lambda a, b: store(a, b, v), c, k)
    if c.op == "opaque":
        return c
    if c.op == "list":
        n = num_value(k)
        if n is not None and n.denominator == 1 and \
                -len(c.args[0]) <= n < len(c.args[0]):
            xs = list(c.args[0])
            xs[int(n)] = v
            return mk("list", tuple(xs))
    if c.op == "dict" and k.op == "const":
        items = [(a, b) for a, b in c.args[0] if a is not k]
        if all(a.op == "const" for a, b in c.args[0]):
            items.append((k, v))
            items.sort(key=lambda ab: ab[0].dig)
            return mk("dict", tuple(items))
    if c.op == "store":
        if c.args[1] is k:
            return store(c.args[0], k, v)
        # commute independent stores into canonical order
        if key_distinct(c.args[1], k) and k.dig < c.args[1].dig:
            return store(store(c.args[0], k, v), c.args[1], c.args[2])
    if v is load(c, k):
        return c
    return mk("store", c, k, v)


def key_distinct(a, b):
    if _distinct(a, b):
        return True
    if a.op == "tuple" and b.op == "tuple" and \
            len(a.args[0]) == len(b.args[0]):
        return any(key_distinct(x, y)
                   for x, y in zip(a.args[0], b.args[0]))
    if a.op == "attrkey" or b.op == "attrkey":
        return a is not b
    if a.op in ("const", "opaque") or b.op in ("const", "opaque"):
        return False
    if a.op in ("tuple", "ite") or b.op in ("tuple", "ite"):
        return False
    d = num_value(_sub(a, b))
    return d is not None and d != 0


def load(c, k):
    """c[k]"""
    if c.op == "ite" or k.op == "ite":
        return lift(load, c, k)
    if c.op == "opaque":
        return c
    if c.op in ("list", "tuple"):
        n = num_value(k)
        if n is not None and n.denominator == 1 and \
                -len(c.args[0]) <= n < len(c.args[0]):
            return c.args[0][int(n)]
    if c.op == "const" and isinstance(c.args[0], str):
        n = num_value(k)
        if n is not None and n.denominator == 1 and \
                -len(c.args[0]) <= n < len(c.args[0]):
            return Const(c.args[0][int(n)])
    if c.op == "dict":
        for a, b in c.args[0]:
            if a is k:
                return b
        if c.args[0] and all(a.op == "const" or num_value(a) is not None
                             for a, b in c.args[0]) and \
                len(c.args[0]) <= 40 and k.op in ("sym", "fresh", "bv",
                                                  "index"):
            r = mk("call", "KeyError", (c, k), ())
            for a, b in c.args[0]:
                r = ite(eq(k, a), b, r)
            return r
    if c.op == "store":
        if c.args[1] is k:
            return c.args[2]
        if key_distinct(c.args[1], k):
            return load(c.args[0], k)
        if c.args[1].op != "opaque":
            return ite(key_eq(c.args[1], k), c.args[2], load(c.args[0], k))
    if c.op == "comp" and c.args[2] is TRUE:
        n = num_value(k)
        if n is not None and n < 0:
            return instantiate(c.args[3], [add(c.args[1], k)])
        return instantiate(c.args[3], [k])
    if c.op == "comp" and c.args[0] == "list":
        n = num_value(k)
        if n == 0:
            return instantiate(c.args[3], [first_(c.args[1], c.args[2])])
        if n == -1:
            return instantiate(c.args[3], [last_(c.args[1], c.args[2])])
    if c.op == "concat" and num_value(k) is None:
        off = ZERO
        for p in c.args[0]:
            if p.op == "list" and len(p.args[0]) == 1 and \
                    _sub(k, off) is ZERO:
                return p.args[0][0]
            off = add(off, length(p))
            if off.op == "ite":
                break
    if c.op == "slice":
        x, lo, hi, st = c.args
        lv, kv = num_value(lo), num_value(k)
        if st is NONE and (lo is NONE or (lv is not None and lv >= 0)) and \
                not (kv is not None and kv < 0):
            return load(x, add(k, ZERO if lo is NONE else lo))
        if st is NONE and kv == -1 and lv == 0 and hi is not NONE:
            # up to some elements before the end
            d = sub(length(x), hi)
            if hi.op == "poly" and not (monos(d) and any(
                    length(x) in dict(m) for _, m in monos(d))):
                return load(x, sub(hi, ONE))
    if c.op == "range":
        return add(c.args[1], mul(k, c.args[2]))
    if c.op == "call":
        nm = c.args[0]
        if nm == "enumerate":
            base = c.args[1][0]
            st = c.args[1][1] if len(c.args[1]) > 1 else ZERO
            return mk("tuple", (add(k, st), load(base, k)))
        if nm == "zip":
            return mk("tuple", tuple(load(x, k) for x in c.args[1]))
        if nm in ("list", "tuple", "numpy.array") and len(c.args[1]) == 1 and \
                (c.args[1][0].op != "call" or c.args[1][0].args[0] in (
                    "enumerate", "zip", "reversed", "dict.keys",
                    "dict.values", "dict.items")):
            if k.op != "tuple":
                return load(c.args[1][0], k)
            r = c
            base = c.args[1][0]
            for x in k.args[0]:
                base = load(base, x)
            return base
        if nm == "dict.items":
            key = mk("index", mk("call", "dict.keys", c.args[1], ()), k)
            return mk("tuple", (key, load(c.args[1][0], key)))
        if nm == "dict.values":
            key = mk("index", mk("call", "dict.keys", c.args[1], ()), k)
            return load(c.args[1][0], key)
        if nm == "reversed":
            b = c.args[1][0]
            return load(b, sub(sub(length(b), ONE), k))
        if nm == "rep" and c.args[1][0].op == "list" and \
                len(c.args[1][0].args[0]) == 1:
            return c.args[1][0].args[0][0]
    if c.op == "upd":
        # ('upd', n, base, key(bv0), cond, val)
        n, base, key, cond, val = c.args
        if key.op == "bv" and key.args[0] == 0 and k.op != "const":
            v = instantiate(val, [k])
            cc = instantiate(cond, [k])
            if length(base) is not n:
                cc = and_(lt(k, n), cc)
            return ite(cc, v, load(base, k))
        if k.op == "const" and isinstance(k.args[0], str):
            return load(base, k)
    if c.op == "concat" and False:
        pass
    return mk("index", c, k)


def key_eq(a, b):
    if a.op == "tuple" and b.op == "tuple" and \
            len(a.args[0]) == len(b.args[0]):
        return and_(*[key_eq(x, y) for x, y in zip(a.args[0], b.args[0])])
    return eq(a, b)


def slice_(x, lo, hi, st):
    def f(x, lo, hi):
        lv, hv = num_value(lo), num_value(hi)
        if lo is NONE:
            lo, lv = ZERO, Fraction(0)
        if x.op in ("list", "tuple") and not x.args[0] and st is NONE:
            return x
        if x.op in ("list", "tuple") and st is NONE and \
                lv is not None and (hi is NONE or hv is not None):
            return mk(x.op, x.args[0][int(lv):(None if hi is NONE
                                               else int(hv))])
        if x.op == "const" and isinstance(x.args[0], str) and st is NONE and \
                lv is not None and (hi is NONE or hv is not None):
            return Const(x.args[0][int(lv):(None if hi is NONE else int(hv))])
        if lv == 0 and hi is NONE and st is NONE:
            return x
        if st is NONE and hi is not NONE and hi is length(x) and lv == 0:
            return x
        if x.op == "concat" and hi is NONE and st is NONE and \
                x.args[0][0].op in ("list", "tuple") and lv is not None and \
                0 <= lv <= len(x.args[0][0].args[0]):
            first = x.args[0][0]
            rest = mk(first.op, first.args[0][int(lv):])
            r = rest
            for p in x.args[0][1:]:
                r = concat(r, p)
            return r
        return mk("slice", x, lo, hi, st)
    return lift(f, x, lo, hi)


# ------------------------------------------------------------- bound terms
_subst_memo = {}


def subst(t, mapping, depth=0):
    """capture-free replacement of free leaf terms (sym/fresh/bv) by terms"""
    memo = {}
    names = set((k.op, k.args[0]) for k in mapping if k.op != "any")

    def rec(t, depth):
        if depth == 0 and t in mapping:
            return mapping[t]
        fv = free(t)
        if not fv:
            return t
        hit = False
        for kind, v in fv:
            if kind == "bv":
                if ("bv", v - depth) in names:
                    hit = True
                    break
            elif (kind, v) in names:
                hit = True
                break
        if not hit:
            return t
        key = (t, depth)
        if key in memo:
            return memo[key]
        if t.op in ("sym", "fresh"):
            r = shift(mapping.get(t, t), depth)
        elif t.op == "bv":
            k = mk("bv", t.args[0] - depth) if t.args[0] >= depth else None
            r = shift(mapping[k], depth) if k in mapping else t
        else:
            r = rebuild(t, rec, depth)
        memo[key] = r
        return r
    return rec(t, depth)


def shift(t, k, cutoff=0):
    if k == 0:
        return t
    memo = {}

    def rec(t, d):
        if not any(kind == "bv" and v >= d for kind, v in free(t)):
            return t
        key = (t, d)
        if key in memo:
            return memo[key]
        if t.op == "bv":
            r = mk("bv", t.args[0] + k)
        else:
            r = rebuild(t, rec, d)
        memo[key] = r
        return r
    return rec(t, cutoff)


def rebuild(t, rec, d):
    """rebuild t with smart constructors, applying rec(child, depth)"""
    a = t.args
    op = t.op
    if op == "poly":
        r = ZERO
        for c, m in a[0]:
            x = Num(c)
            for atom, e in m:
                x = mul(x, pow_atom(rec(atom, d), e))
            r = padd_any(r, x)
        return r
    if op == "psum":
        r = ZERO
        for c, m in a[0]:
            x = Num(c)
            for atom, e in m:
                x = mul(x, pow_atom(rec(atom, d), e))
            r = padd_any(r, x)
        return r        # caller raises it to the exponent
    if op == "num":
        return Num(a[0])
    if op == "ite":
        return ite(rec(a[0], d), rec(a[1], d), rec(a[2], d))
    if op == "eq":
        return eq(rec(a[0], d), rec(a[1], d))
    if op == "zero":
        if _polyhole(a[0], rec, d):
            return FALSE
        return eq(rec(a[0], d), ZERO)
    if op == "isinst":
        return lift(lambda x: isinst_(x, a[1]), rec(a[0], d))
    if op == "pos":
        return lt(ZERO, rec(a[0], d))
    if op == "truthy":
        return truth(rec(a[0], d))
    if op == "in":
        return contains(rec(a[0], d), rec(a[1], d))
    if op == "index":
        return load(rec(a[0], d), rec(a[1], d))
    if op == "store":
        return store(rec(a[0], d), rec(a[1], d), rec(a[2], d))
    if op == "attr":
        return attr(rec(a[0], d), a[1])
    if op == "len":
        return length(rec(a[0], d))
    if op == "slice":
        return slice_(*[rec(x, d) for x in a])
    if op == "concat":
        r = rec(a[0][0], d)
        for p in a[0][1:]:
            r = add(r, rec(p, d))
        return r
    if op == "matmul":
        r = rec(a[0][0], d)
        for p in a[0][1:]:
            r = matmul(r, rec(p, d))
        return r
    if op == "call":
        return call(a[0], tuple(rec(x, d) for x in a[1]),
                    tuple((k, rec(v, d)) for k, v in a[2]))
    if op == "sum":
        return mksum(rec(a[0], d), rec(a[1], d + 1))
    if op == "comp":
        return mkcomp(a[0], rec(a[1], d), rec(a[2], d + 1), rec(a[3], d + 1))
    if op == "fold":
        k = len(a[1]) + 1
        return mkfold(rec(a[0], d), tuple(rec(x, d) for x in a[1]),
                      tuple(rec(x, d + k) for x in a[2]))
    if op == "while":
        k = len(a[0])
        return mk("while", tuple(rec(x, d) for x in a[0]), rec(a[1], d + k),
                  tuple(rec(x, d + k) for x in a[2]))
    if op == "lam":
        return mk("lam", a[0], rec(a[1], d + a[0]))
    if op == "oset":
        return mkoset([rec(x, d) for x in a[0]])
    if op == "upd":
        return mkupd(rec(a[0], d), rec(a[1], d), rec(a[2], d + 1),
                     rec(a[3], d + 1), rec(a[4], d + 1))
    if op in ("first", "last"):
        return pick_(op, rec(a[0], d), rec(a[1], d + 1))
    if op == "del":
        return mk("del", rec(a[0], d), rec(a[1], d))
    if op == "dcomp":
        return mk("dcomp", rec(a[0], d), rec(a[1], d + 1),
                  rec(a[2], d + 1), rec(a[3], d + 1))
    if op == "proj":
        return proj(rec(a[0], d), a[1])

    def go(x):
        if isinstance(x, Term):
            return rec(x, d)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    if op == "mcall":
        return lift_call(op, go(a))
    return mk(op, *go(a))


_KINDS = {"list": "list", "tuple": "tuple", "dict": "dict", "set": "set",
          "comp": "list"}


def isinst_(x, name):
    """isinst test with the classes of literals resolved"""
    k = x.args[0] if x.op == "comp" else _KINDS.get(x.op)
    if k is None and x.op == "const":
        k = {str: "str", bool: "bool"}.get(type(x.args[0]), "NoneType")
    if k is not None and name in ("list", "tuple", "dict", "str", "set",
                                  "int", "float", "number"):
        return TRUE if k == name else FALSE
    return mk("isinst", x, name)


def _nonnumber(t):
    return t.op == "const" and not isinstance(t.args[0], bool) or \
        t.op in ("list", "tuple", "dict", "set")


def _polyhole(p, rec, d):
    """a linear polynomial in one symbol that rec() replaces by a value that
    is no number: no comparison with a number holds"""
    if p.op == "poly" and all(len(m) == 0 or len(m) == 1 and m[0][1] == 1
                              for c, m in p.args[0]):
        ats = [m[0][0] for c, m in p.args[0] if m]
        return len(ats) == 1 and _nonnumber(rec(ats[0], d))
    return False


def lift_call(op, a):
    return mk(op, *a)


def pow_atom(t, e):
    if e == 1:
        return t
    return pow_(t, Num(e))


def padd_any(a, b):
    return add(a, b)


def instantiate(body, vals):
    """replace bv0..bv(k-1) of a binder body by vals, lowering the rest"""
    k = len(vals)
    m = {}
    for i, v in enumerate(vals):
        m[mk("bv", i)] = v
    # lower remaining
    mx = [v for kind, v in free(body) if kind == "bv"]
    for v in mx:
        if v >= k:
            m[mk("bv", v)] = mk("bv", v - k)
    return subst(body, m)


def close(body, fresh_list):
    """turn fresh symbols into bv0.. for a new binder"""
    k = len(fresh_list)
    body = shift(body, k)
    m = {}
    for i, f in enumerate(fresh_list):
        m[f] = mk("bv", i)
    return subst(body, m)


def depends(t, n=1):
    """does t depend on bv0..bv(n-1)"""
    return any(kind == "bv" and v < n for kind, v in free(t))


def lower(t, n=1):
    return instantiate(t, [ZERO] * n) if free(t) else t


# -------------------------------------------------------------------- sums
def mksum(n, body):
    """Sum over index bv0 in 0..n-1 of body"""
    if n.op == "ite":
        return lift(lambda x: mksum(x, body), n)
    if n.op == "opaque":
        return n
    nv = num_value(n)
    if nv is not None and nv.denominator == 1 and 0 <= nv <= 12:
        r = ZERO
        for i in range(int(nv)):
            r = add(r, instantiate(body, [Num(i)]))
        return r
    # hoist invariant conditions
    if body.op == "ite":
        a = invariant_atom(body)
        if a is not None:
            low = lower(a)
            return ite(low, mksum(n, cof(body, a, True)),
                       mksum(n, cof(body, a, False)))
        # split ite over monomials: Sum(ite(c, f, g)); canonical as a whole
        return _sum_ite(n, body)
    if body.op == "opaque":
        return body
    r = ZERO
    for c, m in monos(body):
        inv, dep = [], []
        for a, e in m:
            (dep if depends(a) else inv).append((a, e))
        x = Num(c)
        for a, e in inv:
            x = mul(x, pow_atom(_unps(lower(a)), e))
        if not dep:
            x = mul(x, n)
        else:
            dd = {}
            _addmul(dd, Fraction(1), tuple(dep))
            x = mul(x, mk("sum", n, _from_dict(dd)))
        r = add(r, x)
    return r


def _unps(t):
    return t


def _sum_ite(n, body):
    """Sum(ite(c,f,g)) with c index dependent.  Pull common invariant factors
    when one branch is zero."""
    leafs = set()

    def rec(t):
        if t.op == "ite":
            rec(t.args[1])
            rec(t.args[2])
        else:
            leafs.add(t)
    rec(body)
    # decompose: body = sum over distinct monomials ; each monomial m appears
    # with a 0/1-coefficient diagram
    pieces = {}
    for l in leafs:
        if l.op == "opaque":
            return l
        for c, m in monos(l):
            pieces.setdefault(m, None)
    if len(pieces) > 40:
        return mk("sum", n, body)
    r = ZERO
    for m in pieces:
        def coeff(t, m=m):
            if t.op == "ite":
                return ite(t.args[0], coeff(t.args[1]), coeff(t.args[2]))
            for c, mm in monos(t):
                if mm == m:
                    return Num(c)
            return ZERO
        cd = coeff(body)
        inv, dep = [], []
        for a, e in m:
            (dep if depends(a) else inv).append((a, e))
        x = ONE
        for a, e in inv:
            x = mul(x, pow_atom(lower(a), e))
        cv = num_value(cd)
        dd = {}
        _addmul(dd, Fraction(1), tuple(dep))
        depterm = _from_dict(dd)
        if cv is not None:
            inner = mksum(n, mul(cd, depterm))
        else:
            # extract a rational content: first nonzero leaf scaled to 1
            lead = _first_leaf(cd)
            if lead not in (None, 0, 1):
                cd = mul(cd, Num(1 / lead))
                x = mul(x, Num(lead))
            inner = mk("sum", n, mul(cd, depterm))
        r = add(r, mul(x, inner))
    return r


def _first_leaf(t):
    if t.op == "ite":
        r = _first_leaf(t.args[1])
        return r if r else _first_leaf(t.args[2])
    return num_value(t)


def invariant_atom(t, n=1):
    """an atom of the diagram that does not depend on the bound variables"""
    seen = set()
    stack = [t]
    best = None
    while stack:
        x = stack.pop()
        if x.op != "ite" or x in seen:
            continue
        seen.add(x)
        if not depends(x.args[0], n):
            if best is None or x.args[0].dig < best.dig:
                best = x.args[0]
        stack.extend(x.args[1:])
    return best


# -------------------------------------------------------------- comprehension
def comp(kind, n, f, cond=None):
    v = Fresh("i")
    with deeper():
        b = f(v)
        c = TRUE if cond is None else cond(v)
    return mkcomp(kind, n, close(c, [v]), close(b, [v]))


def mkcomp(kind, n, cond, body):
    """('comp', kind, n, cond, body)"""
    if n.op == "ite":
        return lift(lambda x: mkcomp(kind, x, cond, body), n)
    nv = num_value(n)
    if nv is not None and nv.denominator == 1 and 0 <= nv <= 64 and \
            kind in ("list", "tuple"):
        r = mk(kind, ())
        ok = True
        for i in range(int(nv)):
            c = instantiate(cond, [Num(i)])
            b = instantiate(body, [Num(i)])
            r = ite(c, concat_l(kind, r, b), r)
        return r
    inv = None
    if cond.op == "ite":
        inv = invariant_atom(cond)
    if inv is None and body.op == "ite":
        inv = invariant_atom(body)
    if inv is not None:
        low = lower(inv)
        return ite(low,
                   mkcomp(kind, n, cof(cond, inv, True), cof(body, inv, True)),
                   mkcomp(kind, n, cof(cond, inv, False),
                          cof(body, inv, False)))
    if cond is not TRUE:
        for atom, val in literals(cond):
            body = cof(body, atom, val)
    if cond is FALSE:
        return mk(kind, ())
    if not depends(cond) and cond is not TRUE:
        return ite(lower(cond), mkcomp(kind, n, TRUE, body), mk(kind, ()))
    # eta: [xs[i] for i in range(len(xs))] == list(xs)
    if cond is TRUE and kind == "list" and body.op == "index" and \
            body.args[1].op == "bv" and body.args[1].args[0] == 0 and \
            not depends(body.args[0]):
        base = lower(body.args[0])
        if length(base) is n:
            return mk("call", "list", (base,), ())
    return mk("comp", kind, n, cond, body)


def concat_l(kind, r, b):
    return lift(lambda x: concat(x, mk(kind, (b,))), r)


SETTER = re.compile(r"Set[A-Z]\w*$|set_(x|y|z|title|face)\w*$")


def mut(obj, name, pos, kws):
    """the object after a method call; settings of different attributes are
    kept in one order"""
    if obj.op == "mut" and SETTER.match(name) and \
            SETTER.match(obj.args[1]) and obj.args[1] > name:
        return mk("mut", mut(obj.args[0], name, pos, kws), *obj.args[1:])
    return mk("mut", obj, name, pos, kws)


def labels(e, out, depth=0):
    """(receiver, method, term) of the calls an element of an effect trace
    stands for; None when it is something else"""
    if depth > 40:
        out.append(None)
    elif e.op == "mcall":
        out.append((e.args[0], e.args[1], e))
    elif e.op in ("list", "concat"):
        for x in e.args[0]:
            labels(x, out, depth + 1)
    elif e.op == "ite":
        labels(e.args[1], out, depth + 1)
        labels(e.args[2], out, depth + 1)
    elif e.op == "comp":
        labels(e.args[3], out, depth + 1)
    elif e.op == "raise" or e.op == "const":
        pass
    else:
        out.append(None)
    return out


def occurs(x, t, memo=None):
    memo = {} if memo is None else memo
    if t is x:
        return True
    if not isinstance(t, (Term, tuple)):
        return False
    if isinstance(t, Term):
        if t.dig in memo:
            return False
        memo[t.dig] = 1
        return any(occurs(x, a, memo) for a in t.args)
    return any(occurs(x, a, memo) for a in t)


def identity(t):
    while t.op == "mut":
        t = t.args[0]
    return t


def commute(a, b):
    """two calls for effect whose order nobody can tell: attribute settings,
    and data put into unrelated objects"""
    if a is None or b is None:
        return False
    (r1, n1, t1), (r2, n2, t2) = a, b
    s1, s2 = SETTER.match(n1), SETTER.match(n2)
    r1, r2 = identity(r1), identity(r2)
    if r1 is r2:
        return bool(s1 and s2 and n1 != n2)
    if occurs(r1, t2) or occurs(r2, t1):
        return False
    data = ("Fill", "SetPoint", "Append", "Add", "AddEntry", "write",
            "close", "Close")
    if "close" in (n1, n2):
        return True
    return bool((s1 or n1 in data) and (s2 or n2 in data)) or \
        bool(s1 or s2)


def trace(t):
    """normal form of an effect trace up to the order of what commutes"""
    return lift(trace_leaf, t)


def trace_leaf(t):
    parts = t.args[0] if t.op == "concat" else (t,)
    el = []
    for p in parts:
        if p.op == "list":
            el.extend(mk("list", (x,)) for x in p.args[0])
        else:
            el.append(p)
    if len(el) < 2 or len(el) > 400:
        return t
    lab = [labels(x, []) for x in el]
    n = len(el)
    dep = [[j for j in range(i) if not all(
        commute(a, b) for a in lab[i] for b in lab[j])] for i in range(n)]
    left = [len(d) for d in dep]
    succ = [[] for _ in el]
    for i, d in enumerate(dep):
        for j in d:
            succ[j].append(i)
    ready = [i for i in range(n) if not left[i]]
    out = mk("list", ())
    while ready:
        ready.sort(key=lambda i: (el[i].dig, i))
        i = ready.pop(0)
        out = concat(out, el[i])
        for j in succ[i]:
            left[j] -= 1
            if not left[j]:
                ready.append(j)
    return out


# -------------------------------------------------------------------- folds
def mkfold(n, inits, bodies):
    """carried variables are bv1..bvk, index is bv0; the value is a tuple"""
    return mk("fold", n, inits, bodies)


def foldproj(n, inits, bodies, k):
    nv = num_value(n)
    if nv is not None and nv.denominator == 1 and 0 <= nv <= 12:
        cur = list(inits)
        for i in range(int(nv)):
            cur = [instantiate(b, [Num(i)] + cur) for b in bodies]
        return cur[k]
    return proj(mkfold(n, inits, bodies), k)


def any_(n, cond):
    """some index below n satisfies cond (bound variable 0)"""
    if not depends(cond):
        return and_(lt(ZERO, n), lower(cond))
    return truth(mkcomp("list", n, cond, TRUE))


def pick_(op, n, cond):
    if cond is TRUE:
        return ZERO if op == "first" else sub(n, ONE)
    if n.op == "ite":
        return lift(lambda x: pick_(op, x, cond), n)
    if cond.op == "ite":
        inv = invariant_atom(cond)
        if inv is not None:
            low = lower(inv)
            return ite(low, pick_(op, n, cof(cond, inv, True)),
                       pick_(op, n, cof(cond, inv, False)))
    if cond is FALSE:
        return ZERO
    return mk(op, n, cond)


def first_(n, cond):
    return pick_("first", n, cond)


def last_(n, cond):
    return pick_("last", n, cond)


def flatten(t):
    if t.op == "ite":
        return lift(flatten, t)
    if t.op == "comp":
        kind, n, cond, body = t.args
        ok = [True]

        def g(x):
            if x.op == "ite":
                return ite(x.args[0], g(x.args[1]), g(x.args[2]))
            if x.op == "list":
                if len(x.args[0]) == 0:
                    return FALSE
                if len(x.args[0]) == 1:
                    return TRUE
            ok[0] = False
            return FALSE

        def e(x):
            if x.op == "ite":
                h, l = e(x.args[1]), e(x.args[2])
                if h is None:
                    return l
                if l is None:
                    return h
                return ite(x.args[0], h, l)
            return x.args[0][0] if x.args[0] else None
        c = g(body)
        if ok[0]:
            b = e(body)
            if b is None:
                return mk("list", ())
            return mkcomp("list", n, and_(cond, c), b)
    if t.op == "list":
        r = mk("list", ())
        for x in t.args[0]:
            r = concat(r, x)
        return r
    return mk("call", "flatten", (t,), ())


def mkupd(n, base, key, cond, val):
    """base with base[key(i)] := val(i) for i<n if cond(i), in order"""
    if n.op == "ite":
        return lift(lambda x: mkupd(x, base, key, cond, val), n)
    nv = num_value(n)
    if nv is not None and nv.denominator == 1 and 0 <= nv <= 12:
        r = base
        for i in range(int(nv)):
            k = instantiate(key, [Num(i)])
            r = ite(instantiate(cond, [Num(i)]),
                    store(r, k, instantiate(val, [Num(i)])), r)
        return r
    if base.op == "dict" and len(base.args[0]) == 0:
        return mk("dcomp", n, cond, key, val)
    if key.op == "bv" and key.args[0] == 0 and base.op in (
            "comp", "call") and (base.op == "comp" or
                                 base.args[0] == "list"):
        if length(base) is n:
            old = shift(base, 1)
            b = ite(cond, val, load(old, mk("bv", 0)))
            return mkcomp("list", n, TRUE, b)
    return mk("upd", n, base, key, cond, val)


def proj(t, k):
    if t.op == "fold":
        # keep only what the projected component depends on
        n, inits, bodies = t.args
        need = {k}
        work = [k]
        while work:
            x = work.pop()
            for kind, v in free(bodies[x]):
                if kind == "bv" and 1 <= v <= len(inits) and \
                        (v - 1) not in need:
                    need.add(v - 1)
                    work.append(v - 1)
        if len(need) < len(inits):
            keep = sorted(need)
            m = [mk("bv", 0)]
            pos = {o: i for i, o in enumerate(keep)}
            for o in range(len(inits)):
                m.append(mk("bv", 1 + pos[o]) if o in pos else ZERO)
            nb = []
            drop = len(inits) - len(keep)
            for o in keep:
                # renumber bound variables
                mp = {}
                for i, x in enumerate(m):
                    mp[mk("bv", i)] = x
                for kind, v in free(bodies[o]):
                    if kind == "bv" and v > len(inits):
                        mp[mk("bv", v)] = mk("bv", v - drop)
                nb.append(subst(bodies[o], mp))
            t = mkfold(n, tuple(inits[o] for o in keep), tuple(nb))
            k = pos[k]
    if t.op == "tuple":
        return t.args[0][k]
    return mk("proj", t, k)


# -------------------------------------------------------------------- calls
def attr(o, name):
    if o.op == "ite":
        return lift(lambda x: attr(x, name), o)
    if o.op == "opaque":
        return o
    if o.op == "store":
        k = mk("attrkey", name)
        if o.args[1] is k:
            return o.args[2]
        return attr(o.args[0], name)
    if o.op == "upd":
        return attr(o.args[1], name)
    return mk("attr", o, name)


def contains(x, c):
    def f(x, c):
        if c.op in ("list", "tuple", "set"):
            return or_(*[eq(x, y) for y in c.args[0]])
        if c.op == "dict" and all(a.op == "const" or
                                  num_value(a) is not None
                                  for a, b in c.args[0]) and \
                len(c.args[0]) < 60:
            return or_(*[eq(x, y) for y, _ in c.args[0]])
        if c.op == "call" and c.args[0] in ("dict.keys", "list", "tuple",
                                            "sorted") and \
                len(c.args[1]) == 1:
            return contains(x, c.args[1][0])
        if c.op == "const" and x.op == "const" and \
                isinstance(c.args[0], str) and isinstance(x.args[0], str):
            return TRUE if x.args[0] in c.args[0] else FALSE
        return mk("in", x, c)
    return lift(f, x, c)


_COMM = ("max", "min", "ziplen")


# Python C API: what the documented result of a call can be
API_FLAG = frozenset("""PyArg_Parse PyCallable_Check PyObject_TypeCheck
Py_IS_TYPE PyType_HasFeature PyMapping_Check PySequence_Check
PyNumber_Check PyIter_Check""".split())
API_STATUS = frozenset("""PyList_Append PyList_SetItem PyDict_SetItem
PyDict_SetItemString PyModule_AddObject PyModule_AddObjectRef PyType_Ready
PyObject_SetAttr PyObject_SetAttrString PyTuple_SetItem PyList_Insert
PyDict_DelItem PyDict_DelItemString""".split())
API_TRI = frozenset("""PyObject_IsTrue PyObject_RichCompareBool
PyObject_IsInstance PyObject_IsSubclass PyObject_Not PyDict_Contains
PySequence_Contains""".split())
NOT_NULL = frozenset(["capi.PyObject_TypeCheck:", "capi.Py_IS_TYPE:",
                      "cxx:PyHitcore_check",
                      "cxx:PyWeightContext_is_PyWeightContext"])


def api_result(name, args):
    """flags and status codes of the Python C API as decisions"""
    bare = name[5:]
    if bare == "PyBool_FromLong" and len(args) == 1:
        return ite(truth(args[0]), mk("ext", "capi.PyTrue"),
                   mk("ext", "capi.PyFalse"))
    if bare in API_FLAG:
        return ite(mk("truthy", mk("call", name + ":", args, ())), ONE, ZERO)
    if bare in API_STATUS:
        return ite(mk("truthy", mk("call", name + ":failed", args, ())),
                   MINUS, ZERO)
    if bare in API_TRI:
        return ite(mk("truthy", mk("call", name + ":failed", args, ())),
                   MINUS, ite(mk("truthy", mk("call", name + ":", args, ())),
                              ONE, ZERO))
    if bare == "api_error" and len(args) == 3 and args[0].op == "const" and \
            args[0].args[0] == "PyFloat_AsDouble":
        # the value of a float object is always available
        isfloat = api_result("capi.PyObject_TypeCheck",
                             (args[1], mk("ext", "capi.PyFloat_Type")))
        return ite(truth(isfloat), args[2], mk("call", name, args, ()))
    return None


def call(name, args, kw=()):
    args = tuple(args)
    if name.startswith("capi."):
        r = api_result(name, args)
        if r is not None:
            return r
    for x in args:
        if x.op == "ite":
            if name in LIFTED:
                return lift(lambda *xs: call(name, xs, kw), *args)
    if name in ("math.sqrt", "numpy.sqrt", "sqrt", "std::sqrt") and len(args) == 1:
        return pow_(args[0], Num(Fraction(1, 2)))
    if name in ("math.pow", "numpy.power", "pow", "std::pow") and len(args) == 2:
        r = _pow(args[0], args[1]) if args[0].op != "ite" else pow_(*args)
        return r
    if name in ("math.hypot", "numpy.hypot"):
        return pow_(add(pow_(args[0], Num(2)), pow_(args[1], Num(2))),
                    Num(Fraction(1, 2)))
    if name in ("numpy.abs", "math.fabs", "numpy.fabs", "fabs", "std::abs",
                "numpy.absolute", "std::fabs"):
        name = "abs"
    if name == "abs" and len(args) == 1:
        x = args[0]
        n = num_value(x)
        if n is not None:
            return Num(abs(n))
        ms = monos(x)
        if len(ms) >= 1 and x.op == "poly":
            lead = max(ms, key=lambda cm: _grade(cm[1]))[0]
            if lead < 0:
                x = pmul(MINUS, x)
            ms = monos(x)
            if len(ms) == 1 and ms[0][0] != 1:
                return pmul(Num(ms[0][0]),
                            call("abs", (pmul(Num(1 / ms[0][0]), x),)))
        if x.op == "len" or (x.op == "call" and x.args[0] == "abs"):
            return x
        return mk("call", "abs", (x,), ())
    if name in _COMM and len(args) >= 2:
        flat = []
        for x in args:
            if x.op == "call" and x.args[0] == name and len(x.args[1]) > 1:
                flat.extend(x.args[1])
            else:
                flat.append(x)
        flat = sorted(set(flat), key=lambda x: x.dig)
        ns = [num_value(x) for x in flat]
        known = [n for n in ns if n is not None]
        if len(known) > 1 or (known and len(known) == len(flat)):
            k = max(known) if name == "max" else min(known)
            flat = [x for x in flat if num_value(x) is None] + [Num(k)]
            flat = sorted(set(flat), key=lambda x: x.dig)
        if len(flat) == 1:
            return flat[0]
        return mk("call", name, tuple(flat), ())
    if name == "ziplen" and len(args) == 1:
        return args[0]
    if name in ("max", "min") and len(args) == 1 and \
            args[0].op in ("list", "tuple") and len(args[0].args[0]) > 1:
        return call(name, args[0].args[0])
    if name == "float" and len(args) == 1:
        if num_value(args[0]) is not None or args[0].op in ("poly", "sum",
                                                            "len"):
            return args[0]
    if name == "int" and len(args) == 1:
        n = num_value(args[0])
        if n is not None:
            return Num(int(n))
        if args[0].op == "len":
            return args[0]
    if name in ("list", "tuple") and len(args) == 1:
        x = args[0]
        if x.op in ("list", "tuple"):
            return mk(name, x.args[0])
        if x.op == "comp":
            return mk("comp", name, *x.args[1:])
        if x.op == "range":
            n, lo, st = x.args
            return comp(name, n, lambda i: add(lo, mul(i, st)))
        if x.op == "call" and x.args[0] == "list" and name == "list":
            return x
    if name in ("list", "tuple") and not args:
        return mk(name, ())
    if name == "dict" and not args and not kw:
        return mk("dict", ())
    if name in ("numpy.dot", "numpy.matmul") and len(args) == 2:
        return matmul(args[0], args[1])
    if name == "str" and len(args) == 1 and args[0].op == "const" and \
            isinstance(args[0].args[0], str):
        return args[0]
    if name in ("math.exp", "numpy.exp") and len(args) == 1:
        name = "exp"
        if args[0] is ZERO:
            return ONE
    if name in ("math.pi", "numpy.pi"):
        name = "pi"
    if name == "bool" and len(args) == 1:
        return truth(args[0])
    if name in ("math.floor",) and len(args) == 1:
        n = num_value(args[0])
        if n is not None:
            return Num(n.numerator // n.denominator)
    if name in ("math.cos", "numpy.cos", "std::cos"):
        name = "cos"
    if name in ("math.sin", "numpy.sin", "std::sin"):
        name = "sin"
    if name in ("cos", "sin") and len(args) == 1:
        x = args[0]
        ms = monos(x)
        if ms and max(ms, key=lambda cm: _grade(cm[1]))[0] < 0:
            r = call(name, (neg(x),))
            return r if name == "cos" else neg(r)
        if x is ZERO:
            return ONE if name == "cos" else ZERO
    if name in ("math.atan2", "numpy.arctan2", "std::atan2"):
        name = "atan2"
    return mk("call", name, args, tuple(sorted(kw, key=lambda kv: kv[0])))


LIFTED = set(["abs", "float", "int", "math.sqrt", "exp", "cos", "sin",
              "atan2", "math.exp", "math.cos", "math.sin", "math.atan2",
              "str", "max", "min", "ziplen", "math.pow", "list", "tuple",
              "numpy.sqrt", "math.floor", "bool"])


# -------------------------------------------------------------------- output
def show(t, depth=0, limit=14):
    if depth > limit:
        return "..."

    def s(x):
        return show(x, depth + 1, limit)
    a = t.args
    op = t.op
    if op in ("sym", "fresh"):
        return str(a[0])
    if op == "bv":
        return "$%d" % a[0]
    if op == "const":
        return repr(a[0])
    if op == "num":
        return str(a[0])
    if op == "opaque":
        return "<opaque:%s>" % (a[0],)
    if op in ("poly", "psum"):
        out = []
        for c, m in a[0]:
            fs = []
            for atom, e in m:
                x = s(atom)
                if atom.op == "psum":
                    x = "(%s)" % x
                fs.append(x if e == 1 else "%s^%s" % (x, e))
            if c != 1 or not fs:
                fs.insert(0, str(c) if c.denominator < 10 ** 6
                          else "%g" % float(c))
            out.append("*".join(fs))
        return " + ".join(out) if out else "0"
    if op == "ite":
        return "if[%s](%s; %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "eq":
        return "%s == %s" % (s(a[0]), s(a[1]))
    if op == "zero":
        return "(%s) == 0" % s(a[0])
    if op == "pos":
        return "(%s) > 0" % s(a[0])
    if op == "truthy":
        return "bool(%s)" % s(a[0])
    if op == "in":
        return "%s in %s" % (s(a[0]), s(a[1]))
    if op == "index":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if op == "store":
        return "%s{%s:=%s}" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "attrkey":
        return "." + a[0]
    if op == "len":
        return "len(%s)" % s(a[0])
    if op == "call":
        return "%s(%s)" % (a[0], ", ".join([s(x) for x in a[1]] +
                                           ["%s=%s" % (k, s(v))
                                            for k, v in a[2]]))
    if op == "mcall":
        return "%s.%s(%s)" % (s(a[0]), a[1],
                              ", ".join([s(x) for x in a[2]] +
                                        ["%s=%s" % (k, s(v))
                                         for k, v in a[3]]))
    if op == "mut":
        return "%s~%s(%s)" % (s(a[0]), a[1],
                              ", ".join([s(x) for x in a[2]] +
                                        ["%s=%s" % (k, s(v))
                                         for k, v in a[3]]))
    if op == "sum":
        return "SUM{<%s}(%s)" % (s(a[0]), s(a[1]))
    if op == "comp":
        return "[%s for <%s%s]" % (s(a[3]), s(a[1]), "" if a[2] is TRUE
                                   else " if " + s(a[2]))
    if op in ("list", "tuple", "concat", "matmul"):
        return "%s(%s)" % (op, ", ".join(s(x) for x in a[0]))
    if op in ("first", "last"):
        return "%s{<%s}(%s)" % (op, s(a[0]), s(a[1]))

    def g(x):
        if isinstance(x, Term):
            return s(x)
        if isinstance(x, tuple):
            return "(" + ", ".join(g(y) for y in x) + ")"
        return str(x)
    return "%s<%s>" % (op, ", ".join(g(x) for x in a))


def deepcof(t, atom, val, full=False):
    """t under the assumption that the boolean atom has the value val, also
    inside operators (cof only follows the decision diagram)"""
    memo = {}
    fa = free(atom)

    def rec(t, d):
        key = (t, d)
        r = memo.get(key)
        if r is not None:
            return r
        u = t
        at = shift(atom, d)
        if u.op == "ite" or is_bool(u):
            u = cof(u, at, val)
        if u.op in ("sym", "const", "bv", "fresh", "num"):
            r = u
        elif u.op == "ite":
            r = ite(u.args[0], rec(u.args[1], d), rec(u.args[2], d)) \
                if not full and u.args[0].op not in ("any", "truthy") else \
                ite(rec(u.args[0], d), rec(u.args[1], d), rec(u.args[2], d))
        elif not fa and u.op == "raise":
            r = u
        else:
            r = rebuild(u, rec, d)
        memo[key] = r
        return r
    return rec(t, 0)


def equal(a, b, strict=False):
    """provable equality of two terms; strict: Blowup when the case split
    ends before one case is found that differs"""
    if a is b or _equal(a, b):
        return True
    fuel = [300 if strict else 40]
    try:
        return _equal_deep(a, b, 0) or _equal_nested(a, b, fuel)
    except (OverflowError, RecursionError):
        return False
    except _Exhausted:
        if strict:
            raise Blowup("too many nested decisions to compare")
        return False


_reorder_memo = {}


def reorder(t):
    """put the carried values of every loop in canonical order again: it was
    chosen from the first values as they stood when the loop was met, and
    decisions settled since may have changed those"""
    r = _reorder_memo.get(t)
    if r is None:
        r = _reorder_memo[t] = _reorder(t)
    return r


def _reorder(t):
    if not children(t):
        return t
    if t.op == "proj" and t.args[0].op in ("while", "fold"):
        w = t.args[0]
        parts = tuple(
            tuple(reorder(y) for y in x) if isinstance(x, tuple)
            else reorder(x) for x in w.args)
        if w.op == "while":
            inits, cond, bodies = parts
            lead = ()
        else:
            n, inits, bodies = parts
            lead = (mk("sym", "$ro:i"),)
        vs = tuple(mk("sym", "$ro:%d" % i) for i in range(len(inits)))
        opened = [instantiate(b, lead + vs) for b in bodies]
        col = [0] * len(vs)
        for rnd in range(min(4, len(vs)) + 1):
            key = []
            for i in range(len(vs)):
                m = {v: mk("sym", "$col:%d" % c) for v, c in zip(vs, col)}
                m[vs[i]] = mk("sym", "$self")
                key.append((inits[i].dig, subst(opened[i], m).dig))
            rank = {k: j for j, k in enumerate(sorted(set(key)))}
            col = [rank[k] for k in key]
            if len(rank) == len(vs):
                break
        g = sorted(range(len(vs)), key=lambda i: (col[i], i))
        gv = list(lead) + [vs[i] for i in g]
        bs = tuple(close(opened[i], gv) for i in g)
        ins = tuple(inits[i] for i in g)
        if w.op == "while":
            cond = close(instantiate(cond, vs), gv)
            w = mk("while", ins, cond, bs)
        else:
            w = mk("fold", n, ins, bs)
        return proj(w, g.index(t.args[1]))
    return rebuild(t, lambda x, d: reorder(x), 0)


class _Exhausted(Exception):
    pass


_nested_memo = {}


def nested_atoms(t):
    """closed tests of decisions that stand inside operators or inside other
    tests of t (not those of its own decision diagram)"""
    r = _nested_memo.get(t)
    if r is not None:
        return r
    out = set()
    if t.op == "ite":
        for x in t.args:
            out |= nested_atoms(x)
    else:
        for x in children(t):
            out |= nested_atoms(x)
            seen, st = set(), [x]
            while st:
                y = st.pop()
                if y.op != "ite" or y in seen:
                    continue
                seen.add(y)
                if not any(k == "bv" for k, v in free(y.args[0])):
                    out.add(y.args[0])
                st.extend(y.args[1:])
    r = _nested_memo[t] = frozenset(out)
    return r


def _equal_nested(a, b, fuel):
    """split on the tests nested in other tests first: two diagrams whose
    tests only differ by a decision settled further out compare equal"""
    at = nested_atoms(a) | nested_atoms(b)
    flat = [x for x in at if not nested_atoms(x)]
    if not flat:
        if _equal_deep(a, b, 0):
            return True
        x, y = reorder(a), reorder(b)
        return (x is not a or y is not b) and (x is y or _equal_deep(x, y, 0))
    top = min(flat, key=lambda x: (termsize(x), x.dig))
    for val in (True, False):
        fuel[0] -= 1
        if fuel[0] < 0:
            raise _Exhausted()
        x, y = deepcof(a, top, val, True), deepcof(b, top, val, True)
        if x is y or _equal(x, y):
            continue
        if not _equal_nested(x, y, fuel):
            return False
    return True


_size_memo = {}


def termsize(t):
    r = _size_memo.get(t)
    if r is None:
        r = _size_memo[t] = 1 + sum(termsize(x) for x in children(t))
    return r


def _equal_deep(a, b, depth):
    if a is b:
        return True
    if depth > 60:
        return False
    if a.op == "ite" or b.op == "ite":
        top = min((t.args[0] for t in (a, b) if t.op == "ite"),
                  key=lambda x: x.dig)
        for val in (True, False):
            x, y = cof(a, top, val), cof(b, top, val)
            if _equal(x, y):
                continue
            x, y = deepcof(x, top, val), deepcof(y, top, val)
            if val and top.op == "eq" and top.args[1].op == "const" and \
                    top.args[0].op == "sym":
                m = {top.args[0]: top.args[1]}
                x, y = subst(x, m), subst(y, m)
            if not _equal_deep(x, y, depth + 1):
                return False
        return True
    return _equal(a, b)


def _equal(a, b):
    """provable equality of two terms"""
    if a is b:
        return True
    if a.op == "ite" or b.op == "ite":
        if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
            return _equal(a.args[1], b.args[1]) and \
                _equal(a.args[2], b.args[2])
        top = min((t.args[0] for t in (a, b) if t.op == "ite"),
                  key=lambda x: x.dig)
        return _equal(cof(a, top, True), cof(b, top, True)) and \
            _equal(cof(a, top, False), cof(b, top, False))
    if (a.op == "poly" or b.op == "poly") and not _special(a) and \
            not _special(b):
        try:
            d = sub(a, b)
        except OverflowError:
            return False
        return num_value(d) == 0
    if a.op == b.op and len(a.args) == len(b.args) and a.op not in (
            "sym", "const", "bv", "fresh"):
        def e(x, y):
            if isinstance(x, Term) and isinstance(y, Term):
                return _equal(x, y)
            if isinstance(x, tuple) and isinstance(y, tuple):
                return len(x) == len(y) and all(e(p, q)
                                                for p, q in zip(x, y))
            return x == y
        return e(a.args, b.args)
    return False


def first_diff(a, b, path=""):
    """a pair of smallest differing subterms, for reports"""
    if a is b:
        return None
    if a.op == b.op == "ite" and a.args[0] is b.args[0]:
        for i in (1, 2):
            if not equal(a.args[i], b.args[i]):
                return first_diff(a.args[i], b.args[i],
                                  path + "%s %s; " % (
                                      "if" if i == 1 else "if not",
                                      show(a.args[0], 0, 4)))
    if a.op == b.op == "ite" and a.args[0].op == b.args[0].op and \
            a.args[0].op in ("truthy", "in"):
        return first_diff(a.args[0], b.args[0], path)
    if a.op == b.op and a.op not in ("poly", "ite", "sym", "const", "num",
                                     "fresh", "bv"):
        ca, cb = children(a), children(b)
        if len(ca) == len(cb):
            bad = [(x, y) for x, y in zip(ca, cb) if not equal(x, y)]
            if len(bad) == 1 or bad and a.op == "fold":
                return first_diff(bad[0][0], bad[0][1], path)
    return path, a, b
