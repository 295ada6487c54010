"""Reference functions and their comparison with the code of the repository.

A reference is a Python function in /verif/specs that is parsed, never run.
It is evaluated to a value graph exactly as the repository function it
describes; the two graphs must be equal (result, raised errors, final state of
the arguments, and -- on request -- the order of outside effects)."""
import ast
import builtins
import copy
import os
import re
import time
from . import terms as T
from . import unroll
from .repo import Repo, FunctionInfo, mangle
from . import pyeval
from .props import extra

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIT = "xboa.hit._hit.Hit"
BUNCH = "xboa.bunch._bunch.Bunch"

ATTR_TYPES = {
    ("Bunch", "_Bunch__hits"): "list[%s]" % HIT,
    ("HullContent", "bunch"): BUNCH,
}
RET_TYPES = {
    HIT + ".new_from_dict": HIT,
    "xboa.hit._hit:Hit.new_from_dict": HIT,
    "xboa.hit._hit:Hit.deepcopy": HIT,
    "xboa.hit._hit:Hit.copy": HIT,
    "xboa.bunch._bunch:Bunch.get_hits": "list[%s]" % HIT,
    "xboa.bunch._bunch:Bunch.hits": "list[%s]" % HIT,
    "xboa.bunch._bunch:Bunch.deepcopy": BUNCH,
}
SHORT = {"Hit": HIT, "Bunch": BUNCH, "Hits": "list[%s]" % HIT,
         "Bunches": "list[%s]" % BUNCH}
# names whose meaning the normal form knows; a difference that involves only
# these is a definite one
KNOWN = set("""capi.PyNone capi.PyTrue capi.PyFalse abs max min int float str repr list tuple dict set sorted
reversed len sum range enumerate zip open exp cos sin atan2 pow pi bool round
floordiv mod ceil dict.keys dict.items dict.values copy.deepcopy copy.copy
flatten strjoin rep KeyError div0 type isinstance math.sqrt math.floor
math.ceil math.log math.tan math.asin math.acos .append .strip .split .find
.keys .items .values .get .set .copy .deepcopy .sort .close .write .read
.readline .lower .upper .replace .index .count .join .startswith .endswith
numpy.array numpy.matrix numpy.zeros numpy.ones numpy.linalg.inv
numpy.linalg.det numpy.linalg.eig numpy.transpose numpy.dot numpy.real
numpy.imag numpy.conj numpy.mean numpy.std numpy.identity numpy.eye
numpy.diag numpy.trace numpy.outer numpy.cross numpy.matmul .tolist
.transpose .item .conjugate .flatten .real .imag bisect.bisect_left
bisect.bisect_right bisect.bisect numpy.argmax numpy.argmin invert
.insert .remove .extend .pop .update hash id sym math.degrees
math.radians math.log10 math.hypot math.atan math.exp .argmax .argmin .mean
.sum .max .min .std""".split())


class Spec(object):
    def __init__(self, target, fi, opts):
        self.target = target
        self.fi = fi
        self.opts = opts
        self.props = opts.get("props", [])


class Verdict(object):
    def __init__(self, spec, status, detail="", where="", construct=""):
        self.spec = spec
        self.status = status      # equal | differs | undecided | missing
        self.detail = detail
        self.where = where
        self.construct = construct
        self.secs = 0
        self.nodes = 0
        self.unknown = []
        self.unknown_ref = []
        self.lost = []
        self.aspects = []


def load(repo, only=None):
    specs = []
    d = os.path.join(HERE, "specs")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py") or f == "bodies.py" or (only and f[:-3] not in only):
            continue
        m = repo.add_module("$spec_" + f[:-3], os.path.join(d, f))
        modprops = []
        for st in m.tree.body:
            if isinstance(st, ast.Assign) and \
                    getattr(st.targets[0], "id", "") == "PROPS":
                modprops = ast.literal_eval(st.value)
            if not isinstance(st, ast.FunctionDef):
                continue
            for dec in st.decorator_list:
                if not (isinstance(dec, ast.Call) and
                        getattr(dec.func, "id", "") == "spec"):
                    continue
                target = ast.literal_eval(dec.args[0])
                opts = {k.arg: ast.literal_eval(k.value)
                        for k in dec.keywords}
                opts.setdefault("props", modprops)
                if isinstance(opts["props"], str):
                    opts["props"] = opts["props"].split()
                opts["props"] = extra(target, opts["props"])
                node = ast.FunctionDef(
                    name=st.name, args=st.args, body=st.body,
                    decorator_list=[x for x in st.decorator_list
                                    if not isinstance(x, ast.Call)],
                    lineno=st.lineno, col_offset=0)
                specs.append((target, node, m, opts))
    out = []
    for target, node, m, opts in specs:
        fi = FunctionInfo(m, None, node)
        out.append(Spec(target, fi, opts))
    repo.refmap = RefMap(repo, out)
    if not only:
        add_ghosts(repo, out)
    return out


_BASE = None


def baseline():
    """qualified names of the functions of the reviewed tree: a call to one of
    the public ones is kept as a call; private or new ones are expanded"""
    global _BASE
    if _BASE is None:
        p = os.path.join(HERE, "sa", "baseline_functions.txt")
        _BASE = set(open(p).read().split()) if os.path.exists(p) else set()
    return _BASE


def default_vocab(repo):
    out = set()
    for q in baseline():
        name = q.split(":")[1].split(".")[-1]
        if not name.startswith("_") or (name.startswith("__") and
                                        name.endswith("__")):
            out.add(q)
    return out


PRIMS = [r"xboa\.hit\._hit:Hit\.__init__"]


def hit_getters(repo):
    """accessor method -> variable, from the table in the class itself"""
    if not hasattr(repo, "_getters"):
        c = repo.cls(HIT)
        out = {}
        node = c.attrs.get("_Hit__get_variables") if c else None
        if isinstance(node, ast.Dict):
            for k, v in sorted(zip(node.keys, node.values),
                               key=lambda kv: ast.unparse(kv[0])):
                if isinstance(v, ast.Name) and isinstance(k, ast.Constant):
                    q = "xboa.hit._hit:Hit." + v.id
                    if not v.id.startswith("__"):
                        out[q] = k.value
        repo._getters = out
    return repo._getters


class SpecFI(FunctionInfo):
    """a reference function standing in the class and module of its target"""

    def __init__(self, repo, spec, target):
        FunctionInfo.__init__(self, module_view(repo, spec, target),
                              target.cls, spec.fi.node)
        self.tkind = target.kind
        self.tqual = spec.target

    @property
    def kind(self):
        return self.tkind

    @property
    def qual(self):
        return self.tqual


def module_view(repo, spec, target):
    """names of a reference: its own imports and helpers over the names of
    the module it describes"""
    cache = repo.__dict__.setdefault("_views", {})
    sm, tm = spec.fi.module, target.module
    key = (sm.name, tm.name)
    if key in cache:
        return cache[key]
    v = copy.copy(tm)
    v.imports = dict(tm.imports)
    v.functions = dict(tm.functions)
    v.classes = dict(tm.classes)
    v.assigns = dict(tm.assigns)
    own = {n: f for n, f in sm.functions.items()
           if not any(d.startswith("spec(") for d in f.decorators)}
    for n in list(sm.imports) + list(own) + list(sm.assigns):
        if n in ("PROPS", "spec"):
            continue
        v.functions.pop(n, None)
        v.classes.pop(n, None)
        v.assigns.pop(n, None)
    v.imports.update(sm.imports)
    v.functions.update(own)
    v.assigns.update({n: a for n, a in sm.assigns.items() if n != "PROPS"})
    v.is_view = True
    cache[key] = v
    for f in own.values():
        f.module = v
    return v


class RefMap(dict):
    """qualified name -> reference, built on demand"""

    def __init__(self, repo, specs):
        self.repo = repo
        self.specs = {s.target: s for s in specs}

    def find(self, qual):
        if qual not in self:
            sp = self.specs.get(qual)
            fi = None
            if sp is not None and not sp.opts.get("noref") and \
                    sp.opts.get("value", True) and \
                    sp.opts.get("state", True) and \
                    not sp.opts.get("noraise"):
                t = self.repo.func(qual)
                if t is not None:
                    fi = SpecFI(self.repo, sp, t)
            self[qual] = fi
        return self[qual]


def add_ghosts(repo, specs):
    """private helpers of the reviewed tree that are gone: references may
    still use theirs"""
    for sp in specs:
        if repo.func(sp.target) is not None:
            continue
        mod, _, rest = sp.target.partition(":")
        m = repo.modules.get(mod)
        if m is None:
            continue
        cn, _, name = rest.rpartition(".")
        node = copy.copy(sp.fi.node)
        node.name = name
        if cn:
            c = m.classes.get(cn)
            if c is None:
                continue
            fi = FunctionInfo(m, c, node)
            fi.ghost = True
            c.methods[mangle(name, cn)] = fi
        else:
            fi = FunctionInfo(m, None, node)
            fi.ghost = True
            m.functions[name] = fi


def make_eval(repo, vocab, prims, types):
    ev = pyeval.Evaluator(repo, vocab=vocab, prims=prims,
                          attr_types=ATTR_TYPES, ret_types=RET_TYPES)
    ev.dictlike = (HIT,)
    ev.getters = hit_getters(repo)
    return ev


def names_of(res):
    out = set()
    seen = set()
    stack = [res.value] + list(res.heap.values())
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "call":
            out.add(t.args[0])
        elif t.op in ("mcall", "mut"):
            out.add("." + t.args[1] if ":" not in t.args[1] else t.args[1])
        elif t.op == "ext":
            out.add(t.args[0])
        elif t.op in ("while", "fold", "fmt", "dyn", "setslice", "first",
                      "last"):
            pass
        stack.extend(T.children(t))
    return out


def full(sp):
    """does the reference describe everything the function does?"""
    o = sp.opts
    return o.get("value", True) and o.get("state", True) and \
        not o.get("noraise") and not o.get("noref")


def private(qual):
    n = qual.split(":")[1].split(".")[-1]
    return n.startswith("_") and not (n.startswith("__") and
                                      n.endswith("__"))


def private_vocab(repo):
    if not hasattr(repo, "_privvocab"):
        out = set()
        for q, sp in repo.refmap.specs.items():
            t = repo.func(q)
            if t is not None and not getattr(t, "ghost", False) and \
                    private(q) and full(sp) and \
                    same_params(t.node.args, sp.fi.node.args):
                out.add(q)
        repo._privvocab = out
    return repo._privvocab


def reshaped(repo):
    """functions of the C++ core that take other parameters than reviewed:
    no interface a user sees"""
    if getattr(repo, "_reshaped", None) is None:
        out = set()
        for q, sp in repo.refmap.specs.items():
            t = repo.func(q) if q.startswith("cxx:") else None
            if t is not None and not getattr(t, "ghost", False) and \
                    not repo.modules["cxx"].failed.get(q[4:]) and \
                    not same_params(t.node.args, sp.fi.node.args):
                out.add(q)
        repo._reshaped = out
    return repo._reshaped


def same_params(a, b):
    return len(a.posonlyargs + a.args) == len(b.posonlyargs + b.args) and \
        len(a.defaults) == len(b.defaults) and \
        (a.vararg is None) == (b.vararg is None) and \
        (a.kwarg is None) == (b.kwarg is None)


def check_spec(repo, spec, nodes=400000, fast=True, minlevel=0, secs=60):
    """levels: 0 calls of reviewed functions stay calls; 1 private helpers
    are expanded (the reference's with the reference helpers); 2 everything
    is expanded"""
    t0 = time.time()
    target = repo.func(spec.target)
    if spec.target.startswith("cxx:"):
        why = repo.cxx_error or (
            repo.modules["cxx"].failed.get(spec.target[4:]))
        if why:
            return Verdict(spec, "undecided", "C++ source: " + why,
                           spec.target, spec.target)
    if target is None or getattr(target, "ghost", False):
        return Verdict(spec, "undecided" if spec.target.startswith("cxx:")
                       else "missing", "no such function", spec.target,
                       spec.target)
    moved = reshaped(repo)
    if spec.target in moved:
        return Verdict(spec, "undecided", "its C++ signature changed; decided "
                       "through its callers", spec.target, spec.target)
    if fast and not minlevel and same_source(repo, target, spec):
        v = Verdict(spec, "equal", "same text", "%s %s" % (
            target.where, target.qual), target.qual)
        v.level = -1
        return v
    o = spec.opts
    pub = default_vocab(repo)
    inline = set(o.get("inline", ())) | moved
    levels = [(pub | private_vocab(repo)) - inline - {spec.target},
              pub - inline,
              set(x for x in pub if o.get("keep") and x in o["keep"])]
    prims = [p for p in PRIMS if not o.get("noprims")] + \
        list(o.get("prims", ()))
    vs = {}
    for lv in range(minlevel, 3):
        T.budget(nodes if lv < 2 else nodes // 2, secs)
        v = compare(repo, spec, target, levels[lv], prims)
        v.secs = time.time() - t0
        v.level = lv
        if v.status == "equal" or getattr(v, "agrees", False):
            return v
        vs[lv] = v
    v0, first, v = vs.get(0), vs.get(1), vs[2]
    if first is None:
        return v
    # no level proved equality
    if first.status == "differs":
        new = [u for u in first.unknown if own(repo, u)]
        if new and v.status == "differs" and not [
                u for u in v.unknown if own(repo, u)]:
            v.secs = time.time() - t0
            return v
        if not new and v.status == "undecided" and first_unknown(first):
            w = targeted(repo, spec, target, first, levels[1], prims, nodes,
                         secs)
            if w is not None:
                w.secs = time.time() - t0
                w.level = 1
                return w
        if new or (v.status == "undecided" and first_unknown(first)):
            first.status = "undecided"
            first.detail = "new names: " + " ".join(first.unknown)
        first.secs = time.time() - t0
        return first
    if v.status == "differs" and not first_unknown(v):
        return v
    if v0 is not None and v0.status == "differs" and \
            not first_unknown(v0) and v0.unknown_ref == []:
        v0.secs = time.time() - t0
        return v0
    return first


def targeted(repo, spec, target, first, vocab, prims, nodes, secs):
    """the two sides call different functions of the library: only those are
    expanded, until both call the same ones.  A verdict, or None"""
    v = first
    for _ in range(4):
        gone = set(v.unknown) | (set(v.lost) & vocab)
        if not gone <= vocab:
            return None
        vocab = vocab - gone
        T.budget(nodes // 2, secs)
        v = compare(repo, spec, target, vocab, prims)
        if v.status == "equal" or getattr(v, "agrees", False):
            return v
        if v.status != "differs":
            return None
        if not v.unknown and not set(v.lost) & vocab:
            return v
    return None


class Strip(ast.NodeTransformer):
    """drops what has no effect on the meaning of a function body"""

    def body(self, b):
        out = [self.visit(x) for x in b if not (
            isinstance(x, ast.Pass) or
            isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        return out

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            if isinstance(getattr(n, f, None), list):
                setattr(n, f, self.body(getattr(n, f)))
        return ast.NodeTransformer.generic_visit(self, n)

    def visit_arg(self, n):
        n.annotation = None
        return n


def text_of(node):
    n = copy.deepcopy(ast.FunctionDef(
        name="f", args=node.args, body=node.body, decorator_list=[],
        lineno=1, col_offset=0))
    return ast.dump(Strip().visit(n))


def same_source(repo, target, spec, seen=None):
    """the function has the text of its reference, and so have the private
    helpers it may call; the names in it mean the same"""
    seen = seen if seen is not None else set()
    if spec.target in seen:
        return True
    seen.add(spec.target)
    if text_of(target.node) != text_of(spec.fi.node):
        return False
    sm, tm = spec.fi.module, target.module
    for n in ast.walk(target.node):
        nm = None
        if isinstance(n, ast.Name):
            nm = n.id
            if nm in sm.imports and (
                    tm.imports.get(nm) != sm.imports[nm] or
                    nm in tm.functions or nm in tm.classes or
                    nm in tm.assigns):
                r1 = repo.member(tm, nm)
                r2 = repo.member(sm, nm)
                if r1[0] != r2[0] or r1[1] is not r2[1]:
                    return False
        elif isinstance(n, ast.Attribute):
            nm = mangle(n.attr, target.cls.name if target.cls else "")
        if nm is None or not nm.startswith("_") or (
                nm.startswith("__") and nm.endswith("__")):
            continue
        cn = target.cls.name if target.cls else ""
        q = "%s:%s%s" % (tm.name, cn + "." if isinstance(n, ast.Attribute)
                         and cn else "", nm)
        sp = repo.refmap.specs.get(q)
        if sp is None:
            t = repo.func(q)
            if t is not None:
                return False
            continue
        t = repo.func(q)
        if t is None or getattr(t, "ghost", False) or \
                not same_source(repo, t, sp, seen):
            return False
    return True


def own(repo, name):
    """is this the name of a function that came into the tree after the
    contracts were written?"""
    if not hasattr(repo, "_ownnew"):
        base = baseline()
        repo._ownnew = set(
            f.qual.split(":")[1].split(".")[-1] for f in repo.all_functions()
            if f.qual not in base and not getattr(f, "ghost", False))
    return re.split(r"[:.]", name)[-1] in repo._ownnew


def first_unknown(v):
    return getattr(v, "unknown", None)


def compare(repo, spec, target, vocab, prims):
    o = spec.opts
    types = {k: SHORT.get(x, x) for k, x in o.get("types", {}).items()}
    where = "%s %s" % (target.where, target.qual)
    sfi = SpecFI(repo, spec, target)
    # annotations of the reference give parameter types
    a = spec.fi.node.args
    stypes = dict(types)
    allp = a.posonlyargs + a.args
    for p in allp:
        if p.annotation is not None:
            tx = ast.unparse(p.annotation).strip("'\"")
            stypes[p.arg] = SHORT.get(tx, tx)
    tparams = target.node.args.posonlyargs + target.node.args.args
    ttypes = {}
    for i, p in enumerate(allp):
        if p.arg in stypes and i < len(tparams):
            ttypes[tparams[i].arg] = stypes[p.arg]
    n1 = len(T._TABLE)
    try:
        ev = make_eval(repo, vocab, prims, None)
        rc = ev.function(target, types=ttypes)
        ev2 = make_eval(repo, vocab, prims, None)
        ev2.refmap = repo.refmap
        rs = ev2.function(sfi, types=stypes)
    except T.Blowup as e:
        return Verdict(spec, "undecided", "budget: %s" % e, where,
                       target.qual)
    except OverflowError as e:
        return Verdict(spec, "undecided", "budget: %s" % e, where,
                       target.qual)
    except RecursionError:
        return Verdict(spec, "undecided", "recursion limit", where,
                       target.qual)
    v = Verdict(spec, "equal", "", where, target.qual)
    v.nodes = len(T._TABLE) - n1
    v.inlined = sorted(rc.inlined)
    v.kept = sorted(n for n in names_of(rc) | names_of(rs)
                    if ":" in n and private(n))
    diffs = []
    pairs = []
    # signature
    sig = signature_diff(repo, target, spec, sfi)
    if sig:
        diffs.append(("signature", sig))
    try:
        if o.get("value", True):
            cv, sv = rc.value, rs.value
            if o.get("noraise"):
                cv, sv = drop_raise(cv), drop_raise(sv)
            if not T.equal(cv, sv, True):
                diffs.append(("result", diffshow(cv, sv)))
                pairs.append((cv, sv))
        if o.get("state", True):
            roots = set(rc.heap) | set(rs.heap)
            for r in sorted(roots):
                if r == "$yield":
                    continue
                if r == "$io" and not o.get("io", True):
                    continue
                if r.startswith("$c:") and not o.get("classstate", True):
                    continue
                c = rc.heap.get(r)
                s = rs.heap.get(r)
                if c is None:
                    c = T.mk("list", ()) if r == "$io" else (
                        ev.rootdefault(r, T.Sym(r)))
                if s is None:
                    s = T.mk("list", ()) if r == "$io" else (
                        ev2.rootdefault(r, T.Sym(r)))
                if r not in rc.heap or r not in rs.heap:
                    # one side never looks at it: where the other side
                    # raises, its state is not described
                    c, s = drop_state(c), drop_state(s)
                if r == "$io":
                    c, s = T.trace(c), T.trace(s)
                if o.get("noraise"):
                    c, s = drop_raise(c), drop_raise(s)
                if not T.equal(c, s, True):
                    nm = r
                    if r == "$self":
                        nm = "state of self"
                    elif r == "$io":
                        nm = "outside effects"
                    elif r[1:].isdigit():
                        i = int(r[1:])
                        nm = "argument " + (
                            tparams[i].arg if i < len(tparams) else r)
                    diffs.append((nm, diffshow(c, s)))
                    pairs.append((c, s))
                    aspect(v, r, nm, s, ev2)
    except T.Blowup as e:
        return Verdict(spec, "undecided", "budget: %s" % e, where,
                       target.qual)
    if not diffs:
        return v
    v.detail = "; ".join("%s: %s" % d for d in diffs)
    v.rc, v.rs = rc, rs
    if any(d[0] == "signature" for d in diffs):
        v.status = "differs"
        if sig.startswith("default of"):
            v.aspects.append(("P18", sig))
        return v
    op = T.has_opaque(rc.value) or any(T.has_opaque(x)
                                       for x in rc.heap.values()) or \
        T.has_opaque(rs.value) or any(T.has_opaque(x)
                                      for x in rs.heap.values())
    if not op and any(d[0] != "signature" for d in diffs):
        # a graph that is not the same twice proves nothing
        try:
            ev3 = make_eval(repo, vocab, prims, None)
            ev3.refmap = repo.refmap
            r3 = ev3.function(sfi, types=stypes)
            same = T.equal(rs.value, r3.value) and \
                set(rs.heap) == set(r3.heap) and \
                all(T.equal(x, r3.heap[k]) for k, x in rs.heap.items()
                    if k != "$yield")
        except (T.Blowup, OverflowError, RecursionError):
            same = False
        if not same:
            v.status = "undecided"
            v.detail = "the graph of the reference is not stable"
            return v
    if op:
        v.status = "undecided"
        v.detail = "not analysable: %s" % "; ".join(
            sorted(set(rc.reasons))[:4])
        return v
    v.status = "differs"
    try:
        T.budget(100000, 10)
        if unroll.agree(pairs):
            v.status = "undecided"
            v.detail = "the loops agree when written out: " + v.detail
            v.agrees = True
            return v
        zipped = [(unzipped(c, s), s) for c, s in pairs]
        if any(c is not d for (c, _), (d, _) in zip(pairs, zipped)) and \
                all(T.equal(c, s, True) or unroll.agree([(c, s)])
                    for c, s in zipped):
            v.status = "undecided"
            v.detail = "they agree where sequences walked together have " \
                "the same length: " + v.detail
            v.agrees = True
            return v
    except (T.Blowup, OverflowError, RecursionError):
        pass
    unk = names_of(rc) - names_of(rs) - KNOWN
    # a name that is bound nowhere is no new helper: reading it fails
    v.unknown = sorted(u for u in unk if not (
        u.startswith("?") and not hasattr(builtins, re.split(
            r"\W", u[1:])[0])))
    v.lost = sorted(u for u in names_of(rs) - names_of(rc) - KNOWN)
    v.unknown_ref = sorted(u for u in names_of(rs) - names_of(rc)
                           if ":" in u and private(u))
    return v


def unzipped(t, ref):
    """t with the loops over several sequences at once bounded by one of
    them, the one that bounds a loop of ref"""
    known, stack = set(), [ref]
    while stack:
        x = stack.pop()
        if x not in known:
            known.add(x)
            stack.extend(T.children(x))

    memo = {}

    def rec(x, d):
        if (x, d) in memo:
            return memo[x, d]
        T.tick()
        if x.op == "call" and x.args[0] == "ziplen" and x not in known and \
                len(x.args[1]) > 1:
            alts = [rec(a, d) for a in x.args[1]]
            r = next((a for a in alts if T.num_value(a) is not None), None)
            if r is None:
                r = next((a for a in alts if a in known), alts[0])
        else:
            r = T.rebuild(x, rec, d)
        memo[x, d] = r
        return r
    return rec(t, 0)


def aspect(v, r, nm, s, ev):
    """what kind of effect it is that the reference does not have"""
    if r in ("$io", "$yield"):
        return
    if r.endswith("PYERR"):
        v.aspects.append(("P19", "sets or leaves the error indicator where "
                          "the reference does not"))
        return
    if r.endswith("PYREF"):
        v.aspects.append(("P20", "owns another number of references than "
                          "the reference"))
        return
    if not T.equal(s, ev.rootdefault(r, T.Sym(r))):
        return
    if r[1:].isdigit():
        v.aspects.append(("P18", "changes its " + nm))
    elif r == "$self":
        v.aspects.append(("P18", "changes the object it is called on"))
    if not v.construct.startswith("cxx:"):
        v.aspects.append(("P22", "leaves a change in " + nm))


def drop_raise(t):
    """the value outside the raising conditions"""
    def rec(t):
        if t.op == "ite":
            h, l = rec(t.args[1]), rec(t.args[2])
            if h is None:
                return l
            if l is None:
                return h
            return T.ite(t.args[0], h, l)
        if t.op == "raise":
            return None
        return t
    r = rec(t)
    return T.mk("raise", "always") if r is None else r


def drop_state(t):
    """the value without the exceptional ways out whose state is left open"""
    def rec(t):
        if t.op == "ite":
            h, l = rec(t.args[1]), rec(t.args[2])
            if h is None:
                return l
            if l is None:
                return h
            return T.ite(t.args[0], h, l)
        if t.op == "raise" and t.args == ("state",):
            return None
        return t
    r = rec(t)
    return t if r is None else r


def signature_diff(repo, target, spec, sfi):
    """parameter count and default values"""
    a, b = target.node.args, spec.fi.node.args
    pa = a.posonlyargs + a.args
    pb = b.posonlyargs + b.args
    if spec.opts.get("sig") is False:
        return None
    if len(pa) < len(pb) or (len(pa) > len(pb) and
                             len(pa) - len(pb) > len(a.defaults)):
        return "takes %d parameters, the contract has %d" % (len(pa),
                                                            len(pb))
    da = dict(zip(range(len(pa) - len(a.defaults), len(pa)), a.defaults))
    db = dict(zip(range(len(pb) - len(b.defaults), len(pb)), b.defaults))
    ev = make_eval(repo, (), PRIMS, None)
    for i in db:
        if i not in da:
            return "parameter %s lost its default" % pa[i].arg
        x = ev.static_value(target.module, da[i], target.cls)
        y = ev.static_value(sfi.module, db[i], target.cls)
        if not T.equal(x, y) and not (T.has_opaque(x) or T.has_opaque(y)):
            return "default of %s is %s, contract %s" % (
                pa[i].arg, T.show(x), T.show(y))
    return None


def diffshow(c, s):
    d = T.first_diff(c, s)
    if d is None:
        return "?"
    path, x, y = d
    return "%scode %s | contract %s" % (path[:300], T.show(x, 0, 7)[:500],
                                        T.show(y, 0, 7)[:500])
