"""Abstract evaluation of Python functions to value-graph terms (gated SSA).

Each statement is translated once into terms over the entry values; branches
are merged by `ite`, loops become Sum / comprehension / fold binders.  Nothing
is run, no path is enumerated, no solver is asked.
"""
import ast
import math
import re
from . import terms as T
from .repo import FunctionInfo, mangle

TRUE, FALSE, NONE = T.TRUE, T.FALSE, T.NONE


Budget = T.Blowup


# library functions whose result depends on when they are called
HIDDEN = re.compile(r"(numpy\.)?random\.(?!RandomState|default_rng|Random$)|"
                    r"time\.(time|clock|perf_counter|monotonic)$|"
                    r"subprocess\.(?!PIPE|STDOUT)|shutil\.|tempfile\.|"
                    r"os\.(makedirs|mkdir|remove|unlink|rename|system|"
                    r"popen|kill|chdir|rmdir)$|"
                    r"matplotlib\.pyplot\.(?!get_|cm$)")


def free_loads(node, hidden=frozenset()):
    """names read below node, but not the variables of its comprehensions"""
    if isinstance(node, ast.Name):
        if isinstance(node.ctx, ast.Load) and node.id not in hidden:
            yield node.id
        return
    if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                         ast.DictComp)):
        hidden = hidden | set(
            n.id for g in node.generators for n in ast.walk(g.target)
            if isinstance(n, ast.Name))
        first = node.generators[0].iter
        yield from free_loads(first, hidden)
        for c in ast.iter_child_nodes(node):
            yield from free_loads(c, hidden)
        return
    for c in ast.iter_child_nodes(node):
        yield from free_loads(c, hidden)


class Ref(object):
    __slots__ = ("root", "keys")

    def __init__(self, root, keys=()):
        self.root = root
        self.keys = tuple(keys)

    def __eq__(self, o):
        return isinstance(o, Ref) and o.root == self.root and \
            o.keys == self.keys

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.root, self.keys))

    def ext(self, k):
        return Ref(self.root, self.keys + (k,))

    def __repr__(self):
        return "%s%s" % (self.root, "".join("[%s]" % T.show(k, 0, 3)
                                            for k in self.keys))


class State(object):
    def __init__(self):
        self.envs = [{}]
        self.heap = {}
        self.phi = {}
        self.pc = TRUE

    @property
    def env(self):
        return self.envs[-1]

    def copy(self):
        s = State()
        s.envs = [dict(e) for e in self.envs]
        s.heap = dict(self.heap)
        s.phi = dict(self.phi)
        s.pc = self.pc
        return s


class Exit(object):
    __slots__ = ("kind", "state", "value", "ref")

    def __init__(self, kind, state, value=None):
        self.ref = None
        self.kind = kind
        self.state = state
        self.value = value


class Frame(object):
    def __init__(self, fi, module, cls):
        self.fi = fi
        self.module = module
        self.cls = cls
        self.exits = []
        self.globals = set()
        self.closure = None
        self.trysig = None
        self.loads = None
        self.handlers = []


class Result(object):
    def __init__(self):
        self.value = None
        self.raises = None
        self.params = {}      # name -> final Term
        self.heap = {}
        self.names = set()    # external / uninterpreted names met
        self.reasons = []
        self.inlined = set()


BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) \
    else set(__builtins__)

PURE_METHODS = set("""
get keys items values split strip lstrip rstrip join find rfind startswith
endswith lower upper replace index count copy deepcopy tolist transpose real
imag flatten shape dot format isdigit item sum mean min max argmax argmin any
all conjugate has_key getvalue encode decode group match search reshape
astype rsplit ljust rjust zfill title is_alive exitcode nonzero flat ravel
get_local_weight get_global_weight get_weight
""".split())
MUTATORS = set("""append extend insert remove sort reverse clear update
setdefault add discard pop popitem""".split())
HEAPLIKE = ("sym", "fresh", "bv", "index", "attr", "store", "upd", "slice")
MATH_NAMES = set(n for n in dir(math) if not n.startswith("_"))

# constant folding of known external constants
EXT_CONST = {
    "math.pi": T.call("pi", ()),
    "numpy.pi": T.call("pi", ()),
}


def same_handlers(s):
    """Neighbouring handlers that do the same are one handler."""
    out = []
    for h in s.handlers:
        if out and h.type is not None and out[-1].type is not None and \
                h.name == out[-1].name and \
                [ast.dump(x) for x in h.body] == \
                [ast.dump(x) for x in out[-1].body]:
            one = []
            for x in (out[-1].type, h.type):
                one += x.elts if isinstance(x, ast.Tuple) else [x]
            h = ast.ExceptHandler(type=ast.Tuple(elts=one, ctx=ast.Load()),
                                  name=h.name, body=h.body)
            out[-1] = h
        else:
            out.append(h)
    if len(out) == len(s.handlers):
        return s
    return ast.Try(body=s.body, handlers=out, orelse=s.orelse,
                   finalbody=s.finalbody)


class Evaluator(object):
    def __init__(self, repo, vocab=(), types=None, prims=(), attr_types=None,
                 ret_types=None, budget=400000, classconst=True,
                 maxdepth=14):
        self.whiles = {}
        self.assumed = []
        self.repo = repo
        self.vocab = set(vocab)
        self.types = dict(types or {})
        self.prims = list(prims)
        self.attr_types = attr_types or {}
        self.ret_types = ret_types or {}
        self.closures = {}
        self.names = set()
        self.inlined = set()
        self.reasons = []
        self.depth = 0
        self.maxdepth = maxdepth
        self.callstack = []
        self.calls = 0
        self.handed = None
        self.given = None
        self.counter = 0
        self.budget = budget
        self.steps = 0
        self.modmemo = {}
        self._written = None
        self._mutmemo = {}
        self.refmap = None      # references used in place of the code

    # ------------------------------------------------------------ utilities
    def tick(self, n=1):
        self.steps += n
        if self.steps > self.budget or len(T._TABLE) > 3000000:
            raise Budget("analysis budget exceeded")

    def uid(self):
        self.counter += 1
        return self.counter

    def opaque(self, why):
        self.reasons.append(why)
        return T.opaque(why)

    # --------------------------------------------------------------- lvalues
    def read(self, st, ref):
        t = st.heap.get(ref.root)
        if t is None:
            t = self.opaque("unbound root " + ref.root)
        for k in ref.keys:
            t = self.getkey(t, k)
        return t

    def getkey(self, t, k):
        if k.op == "attrkey":
            return self.getattr_term(t, k.args[0])
        return T.load(t, k)

    def getattr_term(self, t, name):
        r = T.attr(t, name)
        if r.op == "attr" or (r.op == "ite"):
            d = self.class_default(t, name)
            if d is not None:
                return d
        return r

    def class_default(self, t, name):
        """value of a class level attribute never assigned on instances"""
        base = t
        while base.op in ("store", "upd"):
            if base.op == "store" and base.args[1].op == "attrkey" and \
                    base.args[1].args[0] == name:
                return None
            base = base.args[0] if base.op == "store" else base.args[1]
        if base.op == "ite":
            return None
        cn = self.typeof(base)
        if not cn:
            return None
        c = self.repo.cls(cn)
        if c is None:
            return None
        fa = self.repo.find_attr(c, name)
        if fa is None:
            return None
        if base.op != "new" and name in self.instance_attrs(c):
            return None
        return self.classattr(fa[0], name, fa[1])

    def instance_attrs(self, c):
        if not hasattr(c, "_inst"):
            s = set()
            for k in self.repo.mro(c):
                for n in ast.walk(k.node):
                    if isinstance(n, ast.Attribute) and \
                            isinstance(n.ctx, (ast.Store, ast.Del)) and \
                            isinstance(n.value, ast.Name) and \
                            n.value.id not in (k.name, "cls"):
                        s.add(mangle(n.attr, k.name))
            c._inst = s
        return c._inst

    def written_class_attrs(self):
        """(class name, attr) stored to through the class object"""
        if self._written is None:
            w = set()
            for m in self.repo.modules.values():
                for f in ast.walk(m.tree):
                    if isinstance(f, ast.ClassDef):
                        cn = f.name
                        for n in ast.walk(f):
                            tg = None
                            if isinstance(n, ast.Attribute) and \
                                    isinstance(n.ctx, (ast.Store, ast.Del)):
                                tg = n
                            elif isinstance(n, ast.Subscript) and \
                                    isinstance(n.ctx, (ast.Store, ast.Del)) \
                                    and isinstance(n.value, ast.Attribute):
                                tg = n.value
                            elif isinstance(n, ast.Call) and \
                                    isinstance(n.func, ast.Attribute) and \
                                    n.func.attr in WRITERS and \
                                    isinstance(n.func.value, ast.Attribute):
                                tg = n.func.value
                                if isinstance(tg.value, ast.Name) and \
                                        tg.value.id == "self":
                                    w.add((cn, mangle(tg.attr, cn)))
                            if tg is not None and \
                                    isinstance(tg.value, ast.Name) and \
                                    tg.value.id in (cn, "cls"):
                                w.add((cn, mangle(tg.attr, cn)))
            self._written = w
        return self._written

    def classattr(self, c, name, node):
        key = ("c", c.qual, name)
        if key in self.modmemo:
            return self.modmemo[key]
        self.modmemo[key] = T.Sym("$c:%s.%s" % (c.qual, name))
        if (c.name, name) in self.written_class_attrs() or \
                name in c.dynamic:
            return self.modmemo[key]
        r = self.static_value(c.module, node, c)
        if mutable(r) and unmangled(name, c.name) in self.mutattr():
            return self.modmemo[key]
        self.modmemo[key] = r
        return r

    def mutattr(self):
        """attributes whose object some statement writes through"""
        if not hasattr(self.repo, "_mutattr"):
            w = set()
            for o in list(self.repo.modules.values()):
                w |= written_through(o.tree, ast.Attribute, "attr")
            self.repo._mutattr = w
        return self.repo._mutattr

    def static_value(self, module, node, cls=None):
        fr = Frame(None, module, cls)
        st = State()
        try:
            v = self.expr(node, st, fr)
        except Budget:
            raise
        if fr.exits:
            return T.opaque("static initialiser may raise")
        return v

    def write(self, st, ref, value, rebind=True):
        """rebind: the slot itself is rebound (aliases to the old object must
        keep the old value); otherwise the object is mutated in place."""
        if rebind and (ref.keys or ref.root.startswith(("$g:", "$c:"))):
            self.freeze(st, ref)
        if ref.root in st.phi:
            for g, r in st.phi[ref.root]:
                tgt = Ref(r.root, r.keys + ref.keys)
                old = self.read(st, tgt)
                self.rawwrite(st, tgt, T.ite(g, value, old))
        self.rawwrite(st, ref, value)

    def rawwrite(self, st, ref, value):
        def put(base, keys):
            if not keys:
                return value
            k = keys[0]
            if len(keys) == 1:
                inner = value
            else:
                inner = put(self.getkey(base, k), keys[1:])
            return T.store(base, k, inner)
        if ref.root not in st.heap:
            self.opaque("unbound root")
            st.heap[ref.root] = T.opaque("unbound")
        st.heap[ref.root] = put(st.heap[ref.root], ref.keys)

    def freeze(self, st, ref):
        n = len(ref.keys)
        for env in st.envs:
            for name, r in list(env.items()):
                if r is not None and r.root == ref.root and \
                        len(r.keys) >= n and r.keys[:n] == ref.keys:
                    env[name] = self.newroot(st, self.read(st, r))

    def newroot(self, st, value, tag="v"):
        r = "%s#%d" % (tag, self.uid())
        st.heap[r] = value
        return Ref(r)

    # --------------------------------------------------------------- types
    def typeof(self, t):
        if t in self.types:
            return self.types[t]
        op = t.op
        if op == "new":
            return t.args[0]
        if op == "obj":
            return t.args[0]
        if op == "call":
            if t.args[0] in self.ret_types:
                return self.ret_types[t.args[0]]
            if self.repo.cls(t.args[0]):
                return t.args[0]
            if t.args[0] in ("copy.deepcopy", "copy.copy", "list", "sorted",
                             "reversed") and \
                    t.args[1]:
                return self.typeof(t.args[1][0])
            return None
        if op in ("mut",):
            return self.typeof(t.args[0])
        if op == "store":
            return self.typeof(t.args[0])
        if op == "upd":
            return self.typeof(t.args[1])
        if op == "slice":
            return self.typeof(t.args[0])
        if op == "ite":
            a = self.typeof(t.args[1])
            b = self.typeof(t.args[2])
            if a == b or t.args[2] is NONE:
                return a
            if t.args[1] is NONE:
                return b
            return None
        if op == "index":
            c = self.typeof(t.args[0])
            if c and c.startswith(("list[", "dict[")):
                return c[5:-1]
            return None
        if op == "attr":
            c = self.typeof(t.args[0])
            if c:
                return self.attr_types.get((c.split(".")[-1], t.args[1]))
            return None
        if op == "mcall":
            c = self.typeof(t.args[0])
            if t.args[1] in ("copy", "deepcopy") and c:
                return c
            if c:
                return self.ret_types.get(c.split(".")[-1] + "." + t.args[1])
        if op == "proj":
            return None
        return None

    # ---------------------------------------------------------- statements
    def block(self, stmts, st, fr):
        for s in stmts:
            if st is None:
                return None
            self.tick()
            m = getattr(self, "s_" + s.__class__.__name__, None)
            if m is None:
                self.opaque("statement " + s.__class__.__name__)
                continue
            st = m(s, st, fr)
        return st

    def s_Pass(self, s, st, fr):
        return st

    def s_Assert(self, s, st, fr):
        return st

    def s_Import(self, s, st, fr):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            tgt = a.name if a.asname else a.name.split(".")[0]
            st.env[nm] = self.newroot(st, self.resolved(
                self.repo.resolve(tgt), tgt, fr))
            self.risk(T.call("import", (T.Const(a.name),)), fr)
        return st

    def s_ImportFrom(self, s, st, fr):
        base = fr.module.resolve_from(s)
        for a in s.names:
            if a.name == "*":
                continue
            d = base + "." + a.name
            st.env[a.asname or a.name] = self.newroot(
                st, self.resolved(self.repo.resolve(d), d, fr))
            self.risk(T.call("import", (T.Const(d),)), fr)
        return st

    def s_Global(self, s, st, fr):
        fr.globals |= set(s.names)
        return st

    def s_Nonlocal(self, s, st, fr):
        return st

    def s_FunctionDef(self, s, st, fr):
        cid = "%s:%d" % (s.name, self.uid())
        t = T.mk("closure", cid)
        st.env[s.name] = self.newroot(st, t)
        self.closures[cid] = (s, dict(st.env), fr)
        return st

    def s_ClassDef(self, s, st, fr):
        st.env[s.name] = self.newroot(st, self.opaque("local class"))
        return st

    def s_Expr(self, s, st, fr):
        v = s.value
        if isinstance(v, ast.Constant):
            return st
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(v, st, fr)
        if isinstance(v, ast.Call):
            self.call_expr(v, st, fr, stmt=True)
            return self.live(st)
        self.expr(v, st, fr)
        return self.live(st)

    def live(self, st):
        return None if st.pc is FALSE else st

    def do_yield(self, v, st, fr):
        val = self.expr(v.value, st, fr) if v.value is not None else NONE
        cur = st.heap.get("$yield", T.mk("list", ()))
        if isinstance(v, ast.YieldFrom):
            st.heap["$yield"] = T.concat(cur, val)
        else:
            st.heap["$yield"] = T.concat(cur, T.mk("list", (val,)))
        return st

    def s_Return(self, s, st, fr):
        v = NONE
        if s.value is not None:
            v = self.expr(s.value, st, fr)
            if st.pc is FALSE:
                return None
        out = Exit("return", st, v)
        if s.value is not None and len(st.envs) > 1:
            if isinstance(s.value, (ast.Name, ast.Attribute)):
                out.ref = self.alias(s.value, st, fr)
            if out.ref is None and isinstance(s.value, (
                    ast.Attribute, ast.Subscript, ast.Name)):
                out.ref = self.shared(s.value, st, fr)
        fr.exits.append(out)
        return None

    def s_Raise(self, s, st, fr):
        nm = "reraise"
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                e = e.func
            nm = ast.unparse(e).split(".")[-1]
            if isinstance(e, ast.Name) and e.id in st.env:
                v = self.read(st, st.env[e.id])
                nm = T.show(v, 0, 3)
                if v.op == "call":
                    nm = v.args[0].split(".")[-1]
        self.do_raise(nm, st, fr)
        return None

    def do_raise(self, nm, st, fr):
        fr.exits.append(Exit("raise", st, T.mk("raise", nm)))

    def s_Break(self, s, st, fr):
        fr.exits.append(Exit("break", st))
        return None

    def s_Continue(self, s, st, fr):
        fr.exits.append(Exit("continue", st))
        return None

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                ref = self.lvalue(t.value, st, fr)
                if ref is None:
                    continue
                cur = self.read(st, ref)
                if isinstance(t.slice, ast.Slice):
                    k = T.mk("slicekey", *self.slice_parts(t.slice, st, fr))
                else:
                    k = self.expr(t.slice, st, fr)
                self.write(st, ref, self.delitem(cur, k), rebind=False)
            elif isinstance(t, ast.Attribute):
                ref = self.lvalue(t, st, fr)
                if ref is not None:
                    self.write(st, ref, T.mk("const", "$deleted"))
        return st

    def delitem(self, cur, k):
        def f(cur):
            n = T.num_value(k)
            if cur.op in ("list",) and n is not None and \
                    -len(cur.args[0]) <= n < len(cur.args[0]):
                xs = list(cur.args[0])
                del xs[int(n)]
                return T.mk("list", tuple(xs))
            if cur.op == "dict" and all(a.op == "const"
                                        for a, b in cur.args[0]) and \
                    k.op == "const":
                return T.mk("dict", tuple((a, b) for a, b in cur.args[0]
                                          if a is not k))
            return T.mk("del", cur, k)
        return T.lift(f, cur)

    # ---- assignment
    def s_Assign(self, s, st, fr):
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                s.targets[0].id not in fr.globals:
            ref = self.alias(s.value, st, fr)
            if ref is not None:
                st.env[s.targets[0].id] = ref
                return self.live(st)
        if len(s.targets) == 1 and \
                isinstance(s.targets[0], (ast.Tuple, ast.List)) and \
                isinstance(s.value, (ast.Tuple, ast.List)) and \
                len(s.value.elts) == len(s.targets[0].elts) and \
                not any(isinstance(x, ast.Starred)
                        for x in s.targets[0].elts + s.value.elts):
            vals = []
            for v in s.value.elts:
                r = self.alias(v, st, fr)
                vals.append((r, self.expr(v, st, fr)))
            for t, (r, v) in zip(s.targets[0].elts, vals):
                if isinstance(t, ast.Name) and r is not None and \
                        t.id not in fr.globals:
                    st.env[t.id] = r
                else:
                    self.assign(t, v, st, fr)
            return self.live(st)
        src = self.alias(s.value, st, fr)
        v = self.expr(s.value, st, fr)
        if self.given is not None and self.given[0] is s.value and \
                len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                and s.targets[0].id not in fr.globals:
            _e, ref, ways = self.given
            self.given = None
            if ref is None:
                ref = self.newroot(st, v)
                st.phi[ref.root] = ways
            st.env[s.targets[0].id] = ref
            return self.live(st)
        self.given = None
        for t in s.targets:
            self.assign(t, v, st, fr, src)
        return self.live(st)

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return st
        ref = self.alias(s.value, st, fr) if isinstance(s.target, ast.Name) \
            else None
        if ref is not None:
            st.env[s.target.id] = ref
            return st
        v = self.expr(s.value, st, fr)
        self.assign(s.target, v, st, fr)
        return self.live(st)

    def s_AugAssign(self, s, st, fr):
        v = self.expr(s.value, st, fr)
        if isinstance(s.target, ast.Name):
            if s.target.id in fr.globals:
                ref = self.globalref(fr.module, s.target.id, st)
            else:
                ref = st.env.get(s.target.id)
            if ref is None:
                ref = self.newroot(st, self.name(s.target.id, st, fr))
            cur = self.read(st, ref)
            new = self.binop(s.op, cur, v)
            if self.inplace(cur, new):
                self.write(st, ref, new, rebind=False)
            else:
                if s.target.id in fr.globals:
                    self.write(st, ref, new)
                else:
                    st.env[s.target.id] = self.newroot(st, new)
            return self.live(st)
        ref = self.lvalue(s.target, st, fr)
        if ref is None:
            return st
        cur = self.read(st, ref)
        new = self.binop(s.op, cur, v)
        self.write(st, ref, new, rebind=not self.inplace(cur, new))
        return self.live(st)

    def inplace(self, cur, new):
        return new.op in ("concat",) and not (
            cur.op == "const" or cur.op == "fmt") and \
            cur.op in ("list", "comp", "concat", "sym", "index", "attr",
                       "fresh") and not self.stringlike(new)

    def stringlike(self, t):
        if t.op == "concat":
            return any(self.stringlike(x) for x in t.args[0])
        if t.op == "const":
            return isinstance(t.args[0], str)
        if t.op == "call" and t.args[0] in ("str", "repr"):
            return True
        return t.op == "fmt"

    def alias(self, node, st, fr):
        """Ref for a pure lvalue expression that may denote a mutable object"""
        if isinstance(node, ast.Name):
            r = st.env.get(node.id)
            if r is None:
                r = self.shared(node, st, fr)
            return r
        if isinstance(node, (ast.Attribute, ast.Subscript)):
            r = self.shared(node, st, fr)
            if r is not None:
                return r
            b = node
            while isinstance(b, (ast.Attribute, ast.Subscript)):
                if isinstance(b, ast.Subscript) and \
                        isinstance(b.slice, ast.Slice):
                    return None
                b = b.value
            if not isinstance(b, ast.Name) or b.id not in st.env:
                return None
            base = self.read(st, st.env[b.id])
            if base.op in ("mod", "cls", "ext", "fn"):
                return None
            ref = self.lvalue(node, st, fr)
            if ref is None:
                return None
            v = self.read(st, ref)
            if v.op in ("fn", "bound", "cls", "ext", "mod"):
                return None
            if isinstance(node, ast.Attribute):
                # methods are not slots
                w = self.expr(node, st, fr)
                if w is not v:
                    return None
            if isinstance(node, ast.Subscript):
                self.risk(T.mk("tuple", (v, NONE)), fr)
            return ref
        return None

    def shared(self, node, st, fr):
        """Ref of a module variable or class attribute that holds something
        a function may write to"""
        b = node
        while isinstance(b, (ast.Attribute, ast.Subscript)):
            if isinstance(b, ast.Subscript) and isinstance(b.slice,
                                                           ast.Slice):
                return None
            b = b.value
        if not isinstance(b, ast.Name) or b.id in st.env or \
                b.id in fr.globals or fr.closure and b.id in fr.closure:
            return None
        try:
            r = self.repo.member(fr.module, b.id)
        except RecursionError:
            return None
        if r[0] not in ("global", "class", "module"):
            return None
        n0 = len(st.heap)
        keys = set(st.heap)
        ref = self.lvalue(node, st, fr)
        if ref is not None and ref.root.startswith(("$g:", "$c:")):
            v = self.read(st, ref)
            if v.op in ("sym", "attr", "index", "store", "upd", "ite",
                        "dict", "list", "set", "concat"):
                if isinstance(node, ast.Subscript):
                    self.risk(T.mk("tuple", (v, NONE)), fr)
                return ref
        if len(st.heap) != n0:
            for k in set(st.heap) - keys:
                del st.heap[k]
        return None

    def lvalue(self, node, st, fr):
        """Ref of an lvalue expression (creating a root for temporaries)"""
        if isinstance(node, ast.Name):
            if node.id in fr.globals:
                return self.globalref(fr.module, node.id, st)
            r = st.env.get(node.id)
            if r is None:
                if fr.closure is not None and fr.closure.get(node.id):
                    r = fr.closure[node.id]
                    if r.root in st.heap:
                        return r
                mem = self.repo.member(fr.module, node.id)
                if mem[0] == "global":
                    root, v = self.globalroot(fr.module, node.id)
                    if root in st.heap or v.op == "sym":
                        return self.globalref(fr.module, node.id, st)
                return self.newroot(st, self.name(node.id, st, fr))
            return r
        if isinstance(node, ast.Attribute):
            if isinstance(node.value, ast.Attribute):
                b = node.value
                while isinstance(b, ast.Attribute):
                    b = b.value
                if isinstance(b, ast.Name) and b.id not in st.env and not (
                        fr.closure and b.id in fr.closure):
                    r = self.repo.lookup_expr(fr.module,
                                              ast.unparse(node.value))
                    if r and r[0] == "class":
                        return self.classref(r[1].qual, self.mang(
                            node.attr, fr), st)
                    if r and r[0] == "module":
                        return self.globalref(r[1], node.attr, st)
            if isinstance(node.value, ast.Name) and \
                    node.value.id not in st.env:
                b = self.expr(node.value, st, fr)
                if b.op == "cls":
                    return self.classref(b.args[0], self.mang(node.attr, fr),
                                         st)
                if b.op == "mod":
                    m = self.repo.modules.get(b.args[0])
                    if m is not None:
                        return self.globalref(m, node.attr, st)
                return self.newroot(st, b).ext(
                    T.mk("attrkey", self.mang(node.attr, fr)))
            base = self.lvalue(node.value, st, fr)
            if base is None:
                return None
            bt = self.read(st, base)
            if bt.op == "cls":
                return self.classref(bt.args[0], self.mang(node.attr, fr), st)
            return base.ext(T.mk("attrkey", self.mang(node.attr, fr)))
        if isinstance(node, ast.Subscript):
            base = self.lvalue(node.value, st, fr)
            if base is None:
                return None
            if isinstance(node.slice, ast.Slice):
                return None
            k = self.expr(node.slice, st, fr)
            return base.ext(k)
        v = self.expr(node, st, fr)
        return self.newroot(st, v, "t")

    def classref(self, cname, attr_, st):
        c = self.repo.cls(cname)
        if c is not None:
            fa = self.repo.find_attr(c, attr_)
            if fa is not None:
                cname = fa[0].qual
        root = "$c:%s.%s" % (cname, attr_)
        if root not in st.heap:
            v = None
            if c is not None and fa is not None:
                v = self.classattr(fa[0], attr_, fa[1])
            st.heap[root] = v if v is not None else T.Sym(root)
        return Ref(root)

    def globalref(self, module, name, st):
        root, v = self.globalroot(module, name)
        if root not in st.heap:
            st.heap[root] = v
        return Ref(root)

    def globalroot(self, module, name):
        """root of a module variable (where it is defined) and its initial
        value"""
        r = self.repo.member(module, name)
        if r[0] == "global":
            root = "$g:%s.%s" % (r[1].name, r[2])
            v = self.modglobal(r[1], r[2])
            return root, v
        root = "$g:%s.%s" % (module.name, name)
        return root, T.Sym(root)

    def mang(self, name, fr):
        return mangle(name, fr.cls.name if fr.cls else None)

    def assign(self, t, v, st, fr, src=None):
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                self.write(st, self.globalref(fr.module, t.id, st), v)
                return
            st.env[t.id] = self.newroot(st, v)
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                for x in t.elts:
                    x = x.value if isinstance(x, ast.Starred) else x
                    self.assign(x, self.opaque("starred target"), st, fr)
                return
            for i, x in enumerate(t.elts):
                self.assign(x, T.load(v, T.Num(i)), st, fr)
            return
        if isinstance(t, ast.Starred):
            self.assign(t.value, self.opaque("starred target"), st, fr)
            return
        if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice):
            ref = self.lvalue(t.value, st, fr)
            lo, hi, sp = self.slice_parts(t.slice, st, fr)
            cur = self.read(st, ref)
            if lo in (NONE, T.ZERO) and hi is NONE and sp is NONE:
                new = v
            else:
                new = T.mk("setslice", cur, lo, hi, sp, v)
            self.write(st, ref, new, rebind=False)
            return
        ref = self.lvalue(t, st, fr)
        if ref is None:
            self.opaque("assignment target")
            return
        self.write(st, ref, v)
        # the stored object is now reachable through the slot: names that
        # referred to the local object follow it
        if src is not None and not src.keys and src.root in st.heap and \
                not src.root.startswith("$") and src.root not in st.phi and \
                src.root != ref.root and self.mutablelike(v):
            for env in st.envs:
                for n, r in list(env.items()):
                    if r is not None and r.root == src.root:
                        env[n] = Ref(ref.root, ref.keys + r.keys)

    def mutablelike(self, v):
        return v.op in ("list", "dict", "comp", "concat", "call", "new",
                        "mcall", "store", "mut", "set", "upd", "dcomp")

    # ---- if
    def s_If(self, s, st, fr):
        c = T.truth(self.expr(s.test, st, fr))
        if st.pc is FALSE:
            return None
        if c is TRUE:
            return self.block(s.body, st, fr)
        if c is FALSE:
            return self.block(s.orelse, st, fr)
        return self.branch(c, st, fr,
                           lambda x: self.block(s.body, x, fr),
                           lambda x: self.block(s.orelse, x, fr))

    def branch(self, c, st, fr, f, g):
        a = st.copy()
        b = st.copy()
        a.pc = T.ite(st.pc, c, FALSE)
        b.pc = T.ite(st.pc, T.not_(c), FALSE)
        if a.pc is not FALSE and b.pc is not FALSE:
            self.settle(a, c)
            self.settle(b, T.not_(c))
        ra = f(a) if a.pc is not FALSE else None
        rb = g(b) if b.pc is not FALSE else None
        if ra is None:
            return rb
        if rb is None:
            return ra
        return self.merge([(c, ra), (TRUE, rb)])

    def settle(self, st, cond):
        """what the values are on a way on which cond holds"""
        known = T.literals(cond)
        if not known:
            return
        heap = st.heap
        for r, v in heap.items():
            if v.op == "ite":
                w = v
                for atom, val in known:
                    w = T.cof(w, atom, val)
                if w is not v:
                    heap[r] = w
        for root, ways in list(st.phi.items()):
            for g, ref in ways:
                for atom, val in known:
                    g = T.cof(g, atom, val)
                if g is TRUE:
                    self.become(st, root, ref)
                    break

    def become(self, st, root, ref):
        """on this way the name denotes that object"""
        for env in st.envs:
            for name, r in list(env.items()):
                if r is not None and r.root == root:
                    env[name] = Ref(ref.root, ref.keys + r.keys)

    def merge(self, gs):
        """gs: [(guard, state)] first match wins; last guard ignored"""
        if len(gs) == 1:
            return gs[0][1]
        out = gs[-1][1].copy()
        for g, s in reversed(gs[:-1]):
            pc = T.or_(s.pc, out.pc)
            heap = {}
            for r in list(s.heap) + [r for r in out.heap if r not in s.heap]:
                x = s.heap.get(r)
                y = out.heap.get(r)
                if r.startswith(("$g:", "$c:")):
                    # not touched on this way: as it was
                    if x is None:
                        x = self.rootdefault(r, T.Sym(r))
                    if y is None:
                        y = self.rootdefault(r, T.Sym(r))
                if x is None:
                    heap[r] = y
                elif y is None:
                    heap[r] = x
                elif x is y:
                    heap[r] = x
                else:
                    if r == "$io" or r == "$yield":
                        pass
                    heap[r] = T.ite(g, x, y)
                    self.tick()
            if "$yield" in heap:
                e = T.mk("list", ())
                x = s.heap.get("$yield", e)
                y = out.heap.get("$yield", e)
                heap["$yield"] = T.ite(g, x, y)
            if "$io" in heap:
                e = T.mk("list", ())
                x = s.heap.get("$io", e)
                y = out.heap.get("$io", e)
                heap["$io"] = T.ite(g, x, y)
            m = State()
            m.heap = heap
            m.phi = dict(out.phi)
            m.phi.update(s.phi)
            m.pc = pc
            m.envs = []
            for e1, e2 in zip(s.envs, out.envs):
                env = {}
                for n in list(e1) + [n for n in e2 if n not in e1]:
                    r1, r2 = e1.get(n), e2.get(n)
                    if r1 is None or r2 is None:
                        env[n] = r1 or r2
                    elif r1 == r2:
                        env[n] = r1
                    else:
                        v1 = self.read(s, r1)
                        v2 = self.read(out, r2)
                        if v1 is v2 and r2.root in m.heap:
                            env[n] = r2
                            if r1.keys or r1.root.startswith("$"):
                                env[n] = r1
                        else:
                            v = T.ite(g, v1, v2)
                            nr = self.newroot(m, v)
                            env[n] = nr
                            src = []
                            if self.aliased(r1):
                                src.append((g, r1))
                            if self.aliased(r2):
                                src.append((T.not_(g), r2))
                            if src:
                                m.phi[nr.root] = src
                m.envs.append(env)
            out = m
        return out

    def aliased(self, r):
        return r.root.startswith("$")

    # ---- try
    def s_Try(self, s, st, fr):
        if s.finalbody:
            saved = fr.exits
            fr.exits = []
            inner = ast.Try(body=s.body, handlers=s.handlers,
                            orelse=s.orelse, finalbody=[])
            if s.handlers:
                r = self.s_Try(inner, st, fr)
            else:
                r = self.block(s.body, st, fr)
            exits = fr.exits
            fr.exits = saved
            for e in exits:
                st2 = self.block(s.finalbody, e.state, fr)
                if st2 is not None:
                    fr.exits.append(Exit(e.kind, st2, e.value))
            if r is not None:
                r = self.block(s.finalbody, r, fr)
            return r
        s = same_handlers(s)
        hs = []
        for h in s.handlers:
            if h.type is None:
                hs.append(("BaseException",))
            elif isinstance(h.type, ast.Tuple):
                hs.append(tuple(sorted(ast.unparse(x).split(".")[-1]
                                       for x in h.type.elts)))
            else:
                hs.append((ast.unparse(h.type).split(".")[-1],))
        before = st.copy()
        saved = fr.exits
        fr.exits = []
        oldsig = fr.trysig
        fr.trysig = set()
        mark = T._level[0]
        r = self.block(s.body, st, fr)
        sig = set(T.plain_fresh(t, mark) for t in fr.trysig)
        fr.trysig = oldsig
        exits = fr.exits
        fr.exits = saved
        if fr.trysig is not None:
            fr.trysig |= sig
        # explicit raises caught here
        caught = []
        for e in exits:
            if e.kind == "raise":
                nm = e.value.args[0]
                k = None
                for i, h in enumerate(hs):
                    if nm in h or "BaseException" in h or \
                            ("Exception" in h and nm not in (
                                "KeyboardInterrupt", "SystemExit",
                                "GeneratorExit")) or \
                            any(self.subexc(nm, x, fr) for x in h):
                        k = i
                        break
                if k is not None:
                    caught.append((k, e))
                    continue
            fr.exits.append(e)
        res = []        # (guard, state)
        anyraise = FALSE
        for i, h in enumerate(s.handlers):
            entries = [(e.state.pc, e.state) for k, e in caught if k == i]
            rel = [T.TRUE for e in entries]
            b = before.copy()
            atom = None
            what = self.sigterm(sig, hs[i])
            if what is not None:
                # a later block of the same kind is an event of its own
                k = 0
                while True:
                    atom = T.mk("raises", hs[i], what, *((k,) if k else ()))
                    if T.assume(atom, before.pc) is atom:
                        break
                    k += 1
                # implicit exceptions: state as before the try body
                b.pc = T.and_(before.pc, atom, T.not_(anyraise))
                anyraise = T.or_(anyraise, atom)
            outs = []
            if entries:
                m = self.merge(entries)
                pcs = T.or_(*[g for g, _ in entries])
                m.pc = pcs
                if h.name:
                    m.env[h.name] = self.newroot(m, T.Sym("$exc"))
                m2 = self.block(h.body, m, fr)
                if m2 is not None:
                    outs.append((pcs, m2))
            if atom is not None and b.pc is not FALSE:
                if h.name:
                    b.env[h.name] = self.newroot(b, T.Sym("$exc"))
                g = b.pc
                b2 = self.block(h.body, b, fr)
                if b2 is not None:
                    outs.append((g, b2))
            res.extend(outs)
        if anyraise is not FALSE:
            # exits of the body happen only when nothing was raised
            na = T.not_(anyraise)
            for e in exits:
                e.state.pc = T.and_(e.state.pc, na)
            if r is not None:
                r.pc = T.and_(r.pc, na)
        if r is not None and s.orelse:
            r = self.block(s.orelse, r, fr)
        if r is not None:
            res.append((r.pc, r))
        if not res:
            return None
        return self.merge(res)

    def subexc(self, nm, h, fr):
        import builtins
        a = getattr(builtins, nm, None)
        b = getattr(builtins, h, None)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        if isinstance(b, type):
            # repo exceptions
            for m in self.repo.modules.values():
                c = m.classes.get(nm)
                if c is not None:
                    for x in c.bases:
                        y = getattr(builtins, x.split(".")[-1], None)
                        if isinstance(y, type) and issubclass(y, b):
                            return True
        return False

    LOOKUPS = ("KeyError", "IndexError", "LookupError", "TypeError")
    ANYTHING = ("BaseException", "Exception", "StandardError")

    def sigterm(self, sig, hs):
        """what in the block can raise for the handler: the operations by
        name, with the inputs they depend on"""
        calls, loads, attrs, divs = set(), set(), set(), set()
        for t in sig:
            if t.op in ("call", "mcall", "mut", "dyn", "opaque"):
                nm = t.args[0] if t.op == "call" else (
                    t.args[1] if t.op in ("mcall", "mut") else t.op)
                w, to = nm, calls
            elif t.op == "attr":
                w, to = "." + t.args[1], attrs
            elif t.op == "tuple" and len(t.args[0]) == 2:
                if t.args[0][0].op == "const" and \
                        t.args[0][0].args[0] == "div":
                    w, to = "/", divs
                else:
                    w, to = "[]", loads
            else:
                continue
            fr = T.free(t)
            dep = ()
            if all(k == "sym" and re.match(r"\$(\d+$|self$|g:|c:)", str(v))
                   for k, v in fr):
                dep = tuple(sorted(str(v) for k, v in fr))
            to.add((w, dep))
        loads = set(x for x in loads if not any(
            set(x[1]) < set(y[1]) for y in loads))
        out = set(calls)
        every = any(h in self.ANYTHING for h in hs)
        if any(h in self.LOOKUPS for h in hs) or every and not out:
            out |= loads
        if "AttributeError" in hs or every and not out:
            out |= attrs
        if any(h in ("ZeroDivisionError", "ArithmeticError",
                     "FloatingPointError") for h in hs) or every and not out:
            out |= divs
        if not out:
            return None
        return T.mkoset([T.mk("risk", *((w,) + dep)) for w, dep in out])

    def risk(self, t, fr):
        if fr.trysig is not None:
            fr.trysig.add(t)

    def s_With(self, s, st, fr):
        closers = []
        for it in s.items:
            v = self.expr(it.context_expr, st, fr)
            if it.optional_vars is not None:
                if isinstance(it.optional_vars, ast.Name):
                    st.env[it.optional_vars.id] = self.newroot(st, v)
                    closers.append(it.optional_vars.id)
                else:
                    self.assign(it.optional_vars, v, st, fr)
        fin = [ast.Expr(value=ast.Call(
            func=ast.Attribute(value=ast.Name(id=n, ctx=ast.Load()),
                               attr="close", ctx=ast.Load()),
            args=[], keywords=[])) for n in closers]
        if not fin:
            return self.block(s.body, st, fr)
        tr = ast.Try(body=s.body, handlers=[], orelse=[], finalbody=fin)
        return self.s_Try(tr, st, fr)

    # ---------------------------------------------------------------- loops
    def s_For(self, s, st, fr):
        it = self.iterable(s.iter, st, fr)
        if st.pc is FALSE:
            return None
        if it is None:
            return self.havoc_loop(s, st, fr, "iterable")
        if it["kind"] == "ite":
            # conditional iterable
            def go(t):
                return lambda x: self.for_term(s, t, it["path"], x, fr,
                                               it["dpath"])
            return self.branch(it["cond"], st, fr, go(it["a"]), go(it["b"]))
        if it["kind"] == "const":
            return self.unrolled(s, it["elems"], st, fr)
        return self.loop(s, st, fr, it, None)

    def for_term(self, s, t, path, st, fr, dpath=None):
        it = self.iter_term(t, st, path, dpath)
        if it["kind"] == "ite":
            return self.branch(
                it["cond"], st, fr,
                lambda x: self.for_term(s, it["a"], path, x, fr, dpath),
                lambda x: self.for_term(s, it["b"], path, x, fr, dpath))
        if it["kind"] == "const":
            return self.unrolled(s, it["elems"], st, fr)
        return self.loop(s, st, fr, it, None)

    def unrolled(self, s, elems, st, fr):
        saved = fr.exits
        brk = []
        for e, path in elems:
            if st is None:
                break
            fr.exits = []
            pc0 = st.pc
            self.bind_target(s.target, e, path, st, fr)
            st = self.block(s.body, st, fr)
            conts = []
            for x in fr.exits:
                if x.kind == "continue":
                    conts.append((x.state.pc, x.state))
                elif x.kind == "break":
                    brk.append((x.state.pc, x.state))
                else:
                    saved.append(x)
            if conts:
                if st is not None:
                    conts.append((st.pc, st))
                st = self.merge(conts)
        fr.exits = saved
        if st is not None and s.orelse:
            st = self.block(s.orelse, st, fr)
        if brk:
            if st is not None:
                brk.append((st.pc, st))
            st = self.merge(brk)
        return st

    def bind_target(self, target, e, path, st, fr):
        if isinstance(target, ast.Name) and target.id not in fr.globals:
            if path is not None:
                st.env[target.id] = path
            else:
                st.env[target.id] = self.newroot(st, e)
            return
        if isinstance(target, (ast.Tuple, ast.List)) and \
                isinstance(path, tuple) and len(path) == len(target.elts):
            for i, x in enumerate(target.elts):
                self.bind_target(x, T.load(e, T.Num(i)), path[i], st, fr)
            return
        self.assign(target, e, st, fr)

    def iterable(self, node, st, fr):
        """iteration space of an expression"""
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) \
                and node.func.id not in st.env:
            fn = node.func.id
            if fn == "enumerate" and node.args:
                a = self.iterable(node.args[0], st, fr)
                start = T.ZERO
                if len(node.args) > 1:
                    start = self.expr(node.args[1], st, fr)
                for k in node.keywords:
                    if k.arg == "start":
                        start = self.expr(k.value, st, fr)
                if a is None:
                    return None
                if a["kind"] == "const":
                    return {"kind": "const", "elems": [
                        (T.mk("tuple", (T.add(T.Num(i), start), e)),
                         (None, p)) for i, (e, p) in enumerate(a["elems"])]}
                if a["kind"] == "sym" and a["cond"] is None:
                    el, pa = a["elem"], a["path"]
                    return {"kind": "sym", "n": a["n"], "cond": None,
                            "elem": lambda i: T.mk(
                                "tuple", (T.add(i, start), el(i))),
                            "path": (lambda i: (None, pa(i)))
                            if pa else None}
                t = self.expr(node, st, fr)
                return self.iter_term(t, st, None)
            if fn == "zip" and node.args and not node.keywords:
                its = [self.iterable(x, st, fr) for x in node.args]
                if all(i is not None and i["kind"] == "const" for i in its):
                    return {"kind": "const", "elems": [
                        (T.mk("tuple", tuple(e for e, _ in row)),
                         tuple(p for _, p in row))
                        for row in zip(*[i["elems"] for i in its])]}
                if all(i is not None and i["kind"] == "sym" and
                       i["cond"] is None for i in its):
                    n = its[0]["n"]
                    for i in its[1:]:
                        if i["n"] is not n:
                            n = T.call("ziplen", (n, i["n"]))
                    return {"kind": "sym", "n": n, "cond": None,
                            "elem": lambda k: T.mk(
                                "tuple", tuple(i["elem"](k) for i in its)),
                            "path": lambda k: tuple(
                                i["path"](k) if i["path"] else None
                                for i in its)}
                t = self.expr(node, st, fr)
                return self.iter_term(t, st, None)
            if fn == "list" and len(node.args) == 1:
                return self.iterable(node.args[0], st, fr)
        if isinstance(node, (ast.List, ast.Tuple)) and not any(
                isinstance(x, ast.Starred) for x in node.elts):
            return {"kind": "const", "elems": [
                (self.expr(x, st, fr), self.alias(x, st, fr))
                for x in node.elts]}
        path = self.alias(node, st, fr)
        dpath = None
        if path is None and isinstance(node, ast.Call) and \
                isinstance(node.func, ast.Attribute) and \
                node.func.attr in ("items", "values") and not node.args:
            dpath = self.alias(node.func.value, st, fr)
        t = self.expr(node, st, fr)
        return self.iter_term(t, st, path, dpath)

    def iter_term(self, t, st, path, dpath=None):
        if t.op == "ite":
            return {"kind": "ite", "cond": t.args[0], "a": t.args[1],
                    "b": t.args[2], "path": path, "dpath": dpath}
        if t.op in ("list", "tuple") or (t.op == "set"):
            return {"kind": "const", "elems": [
                (e, path.ext(T.Num(i)) if path is not None else None)
                for i, e in enumerate(t.args[0])]}
        if t.op == "dict":
            return {"kind": "const", "elems": [(a, None)
                                               for a, b in t.args[0]]}
        if t.op == "call" and t.args[0] in ("dict.keys", "dict.items",
                                            "dict.values") and \
                t.args[1][0].op == "dict":
            d = t.args[1][0]
            el = []
            for a, b in d.args[0]:
                p = dpath.ext(a) if dpath is not None else None
                el.append(({"dict.keys": a, "dict.values": b,
                            "dict.items": T.mk("tuple", (a, b))
                            }[t.args[0]],
                           {"dict.keys": None, "dict.values": p,
                            "dict.items": (None, p) if p is not None
                            else None}[t.args[0]]))
            return {"kind": "const", "elems": el}
        if t.op == "range":
            n, lo, sp = t.args
            nv = T.num_value(n)
            if nv is not None and nv <= 64:
                return {"kind": "const", "elems": [
                    (T.add(lo, T.mul(T.Num(i), sp)), None)
                    for i in range(max(0, int(nv)))]}
            return {"kind": "sym", "n": n, "cond": None, "path": None,
                    "elem": lambda i: T.add(lo, T.mul(i, sp))}
        if t.op == "comp":
            kind, n, cond, body = t.args
            r = {"kind": "sym", "n": n, "path": None,
                 "cond": None if cond is TRUE else
                 (lambda i: T.instantiate(cond, [i])),
                 "elem": lambda i: T.instantiate(body, [i])}
            if path is not None and cond is TRUE:
                r["path"] = lambda i: path.ext(i)
            elif path is not None and body.op not in ("bv", "num", "poly"):
                # the loop may write to the elements it selects
                r["mut"] = {"kind": "sym", "n": T.length(t), "cond": None,
                            "elem": lambda i: T.load(t, i),
                            "path": lambda i: path.ext(i)}
            return r
        if t.op == "call" and t.args[0] == "list" and len(t.args[1]) == 1:
            return self.iter_term(t.args[1][0], st, path)
        if t.op == "call" and t.args[0] in ("enumerate", "zip", "reversed",
                                            "dict.items", "dict.keys",
                                            "dict.values"):
            n = T.length(t.args[1][0])
            if t.args[0] == "zip":
                for x in t.args[1][1:]:
                    n2 = T.length(x)
                    if n2 is not n:
                        n = T.call("ziplen", (n, n2))
            pth = None
            if dpath is not None and t.args[0] == "dict.values":
                pth = (lambda i: dpath.ext(
                    T.load(T.call("dict.keys", (t.args[1][0],)), i)))
            elif dpath is not None and t.args[0] == "dict.items":
                pth = (lambda i: (None, dpath.ext(
                    T.load(T.call("dict.keys", (t.args[1][0],)), i))))
            return {"kind": "sym", "n": n, "cond": None, "path": pth,
                    "elem": lambda i: T.load(t, i)}
        if t.op == "const" and isinstance(t.args[0], str):
            return {"kind": "const",
                    "elems": [(T.Const(c), None) for c in t.args[0]]}
        if t.op == "concat" and len(t.args[0]) > 1 and path is None and \
                False:
            pass
        return {"kind": "sym", "n": T.length(t), "cond": None,
                "elem": lambda i: T.load(t, i),
                "path": (lambda i: path.ext(i)) if path is not None
                else None}

    def s_While(self, s, st, fr):
        s = self.plain_while(s)
        return self.loop(s, st, fr, None, s.test)

    def plain_while(self, s):
        """while True: if c: break; body  ->  while not c: body"""
        r = self.whiles.get(id(s))
        if r is not None and r[0] is s:
            return r[1]
        t, body = s.test, list(s.body)
        while isinstance(t, ast.Constant) and t.value and body and \
                isinstance(body[0], ast.If) and not s.orelse:
            b = body[0]
            if len(b.body) == 1 and isinstance(b.body[0], ast.Break):
                t = ast.copy_location(
                    ast.UnaryOp(op=ast.Not(), operand=b.test), b)
                body = list(b.orelse) + body[1:]
            elif len(b.orelse) == 1 and isinstance(b.orelse[0], ast.Break):
                t = b.test
                body = list(b.body) + body[1:]
            else:
                break
        out = s
        if t is not s.test:
            out = ast.copy_location(ast.While(
                test=t, body=body or [ast.copy_location(ast.Pass(), s)],
                orelse=[]), s)
            ast.fix_missing_locations(out)
        self.whiles[id(s)] = (s, out)
        return out

    def havoc_loop(self, s, st, fr, why):
        why = "loop: " + why
        st2 = st.copy()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                st2.env[n.id] = self.newroot(st2, self.opaque(why))
            elif isinstance(n, ast.Attribute) and \
                    isinstance(n.ctx, ast.Store):
                ref = self.lvalue(n, st2, fr)
                if ref is not None:
                    self.write(st2, ref, self.opaque(why))
            elif isinstance(n, ast.Subscript) and \
                    isinstance(n.ctx, ast.Store):
                ref = self.lvalue(n.value, st2, fr)
                if ref is not None:
                    self.write(st2, ref, self.opaque(why))
        st2.pc = st.pc
        for n in ast.walk(s):
            if isinstance(n, (ast.Return, ast.Raise)):
                fr.exits.append(Exit("return", st2.copy(),
                                     self.opaque(why)))
                break
        return st2

    def names_after(self, s, fr):
        """names loaded in the enclosing function outside this loop"""
        if fr.fi is None:
            return set()
        node = fr.fi.node
        if fr.loads is None:
            fr.loads = {}
            for x in free_loads(node):
                fr.loads[x] = fr.loads.get(x, 0) + 1
        inside = {}
        for x in free_loads(s):
            inside[x] = inside.get(x, 0) + 1
        return set(k for k, v in fr.loads.items() if v > inside.get(k, 0))

    def loop(self, s, st, fr, it, test):
        """symbolic loop.  it: iteration space of a for; test: while cond"""
        with T.deeper():
            r = self.loop_body(s, st, fr, it, test)
        if r[0] is None and r[1] == "mut":
            return self.loop(s, st, fr, it["mut"], test)
        if r[0] is None:
            return self.havoc_loop(s, st, fr, r[1])
        kept = [(sl, self.types[c]) for sl, c in r[2].items()
                if c in self.types]
        for sl, c in r[2].items():
            self.types.pop(c, None)
        post = self.close_loop(s, st, fr, it, *r)
        if post is not None:
            for (root, keys), ty in kept:
                if root in post.heap:
                    v = self.read(post, Ref(root, keys))
                    if v.op in ("proj", "fold", "comp") and \
                            self.typeof(v) is None:
                        self.types[v] = ty
        return post

    def loop_body(self, s, st, fr, it, test):
        self.tick(5)
        pre = st
        level = T._level[0]
        index = T.Fresh("i", 0, level)
        reordered = False
        carried = {}      # slot (root, keys) -> fresh symbol
        named = {}        # local name rebound in the body -> root
        after = self.names_after(s, fr)
        sig0 = None if fr.trysig is None else set(fr.trysig)
        untyped = set()
        for attempt in range(14):
            if sig0 is not None:
                fr.trysig.clear()
                fr.trysig |= sig0
            st0 = pre.copy()
            st0.pc = TRUE
            # by-value roots for names rebound in the body
            for nm, root in named.items():
                r = pre.env.get(nm)
                if r is not None:
                    st0.heap[root] = self.read(pre, r)
                else:
                    st0.heap[root] = T.Sym("$undef")
                st0.env[nm] = Ref(root)
            for (root, keys), c in sorted(carried.items(),
                                          key=lambda kv: len(kv[0][1])):
                if root not in st0.heap:
                    st0.heap[root] = T.mk("list", ()) \
                        if root in ("$yield", "$io") else \
                        self.rootdefault(root, T.Sym("$undef"))
                self.rawwrite(st0, Ref(root, keys), c)
                self.types.pop(c, None)
                if (root, keys) not in untyped and root in pre.heap:
                    ty = self.typeof(self.read(pre, Ref(root, keys)))
                    if ty is not None:
                        self.types[c] = ty
            start = st0.copy()
            body_st = st0
            saved = fr.exits
            fr.exits = []
            condt = TRUE
            if test is not None:
                condt = T.truth(self.expr(test, body_st, fr))
                extra = [x for x in fr.exits]
                if extra:
                    fr.exits = saved
                    return None, "exits in test"
            else:
                if it["cond"] is not None:
                    body_st.pc = it["cond"](index)
                p = it["path"](index) if it["path"] else None
                e = it["elem"](index)
                if isinstance(p, tuple):
                    p = tuple(x if isinstance(x, Ref) else None for x in p)
                elif p is not None and \
                        not self.slot_alive(p, st0):
                    p = None
                self.bind_target(s.target, e, p, body_st, fr)
                if it["cond"] is not None:
                    skipped = start.copy()
                    skipped.pc = T.not_(it["cond"](index))
                    fr.exits.append(Exit("continue", skipped))
            afterbind = body_st.copy()
            end = self.block(s.body, body_st, fr)
            exits = fr.exits
            fr.exits = saved
            if it is not None and it.get("mut") and isinstance(
                    s.target, ast.Name) and s.target.id in afterbind.env:
                r = afterbind.env[s.target.id].root
                if any(x.heap.get(r) is not afterbind.heap.get(r)
                       for x in [y.state for y in exits] +
                       ([end] if end is not None else [])):
                    return None, "mut"
            conts = [(x.state.pc, x.state) for x in exits
                     if x.kind == "continue"]
            outs = [x for x in exits if x.kind != "continue"]
            if end is not None:
                conts.append((end.pc, end))
            fin = self.merge(conts) if conts else None
            # find changed slots
            new_c = {}
            new_n = {}
            states = ([fin] if fin is not None else []) + \
                [x.state for x in outs]
            tnames = set()
            if it is not None:
                for n in ast.walk(s.target):
                    if isinstance(n, ast.Name):
                        tnames.add(n.id)
            for sx in states:
                for nm, r in list(sx.env.items()):
                    r0 = start.env.get(nm)
                    if r0 == r:
                        continue
                    if nm in named:
                        continue
                    if r0 is None and nm not in after:
                        # a temporary of the body, unless it is read before
                        # being set in the next iteration
                        if not self.read_first(s, nm):
                            continue
                    if nm in tnames and r0 is None and nm not in after:
                        continue
                    new_n[nm] = "L:%s#%d" % (nm, self.uid())
                for root, v in list(sx.heap.items()):
                    v0 = start.heap.get(root)
                    if v0 is None and root.startswith(("$g:", "$c:")):
                        v0 = self.rootdefault(root, T.Sym(root))
                        start.heap[root] = v0
                        # what it holds before the first turn
                        pre.heap.setdefault(root, v0)
                    if v0 is v:
                        continue
                    if v0 is None:
                        if root in ("$yield", "$io"):
                            new_c[(root, ())] = 1
                        continue
                    for keys in self.diff_slots(v0, v, index):
                        new_c[(root, keys)] = 1
            # named roots are carried too
            for nm, root in list(named.items()):
                if (root, ()) not in carried:
                    new_c[(root, ())] = 1
            for nm, root in new_n.items():
                new_c[(root, ())] = 1
            new_c = {k: v for k, v in new_c.items() if k not in carried and
                     not any(k[0] == r and k[1][:len(ks)] == ks
                             for (r, ks) in carried)}
            if not new_c and not new_n:
                # a carried object keeps its type
                loose = [sl for sl, c in carried.items()
                         if c in self.types and fin is not None and
                         sl[0] in fin.heap and self.typeof(self.read(
                             fin, Ref(*sl))) != self.types[c]]
                if loose:
                    untyped |= set(loose)
                    continue
                if len(carried) > 1 and not reordered:
                    inits, bodies = self.carried_values(
                        pre, fin, carried, named)
                    od = self.order(list(carried.values()), inits, bodies)
                    if [T.fresh_key(c)[1] for c in od] != list(
                            range(1, len(od) + 1)):
                        reordered = True
                        rk = {c: i + 1 for i, c in enumerate(od)}
                        carried = {sl: T.Fresh(c.args[0][0], rk[c], level)
                                   for sl, c in carried.items()}
                        continue
                break
            named.update(new_n)
            for (root, keys) in new_c:
                # drop sub-slots of a newly carried slot
                for (r2, k2) in list(carried):
                    if r2 == root and k2[:len(keys)] == keys:
                        del carried[(r2, k2)]
                init = None
                if root in [named[n] for n in named]:
                    nm = [n for n in named if named[n] == root][0]
                    r = pre.env.get(nm)
                    init = self.read(pre, r) if r is not None else None
                elif root in pre.heap:
                    init = self.read(pre, Ref(root, keys))
                q = "q" if (init is not None and T.seqlike(init)) or \
                    root in ("$yield", "$io") else "c"
                rank = 1 + max([0] + [T.fresh_key(c)[1]
                                      for c in carried.values()])
                carried[(root, keys)] = T.Fresh(q, rank, level)
        else:
            return None, "carried state does not settle"
        return condt, index, carried, named, start, fin, outs

    def carried_values(self, pre, fin, carried, named):
        """value before the loop and after one iteration of each slot"""
        slots = list(carried)
        syms = carried
        inits = {}
        rn = {v: k for k, v in named.items()}
        for sl in slots:
            root, keys = sl
            if root in rn and not keys:
                r = pre.env.get(rn[root])
                inits[syms[sl]] = self.read(pre, r) if r is not None \
                    else T.Sym("$undef")
            elif root in pre.heap:
                inits[syms[sl]] = self.read(pre, Ref(root, keys))
            elif root in ("$yield", "$io"):
                inits[syms[sl]] = T.mk("list", ())
            else:
                inits[syms[sl]] = T.Sym("$undef")
        bodies = {}
        for sl in slots:
            root, keys = sl
            c = syms[sl]
            if fin is None:
                bodies[c] = c
            elif root in rn and not keys:
                r = fin.env.get(rn[root])
                bodies[c] = self.read(fin, r)
            elif root in ("$yield", "$io") and root not in fin.heap:
                bodies[c] = c
            else:
                bodies[c] = self.read(fin, Ref(root, keys))
        return inits, bodies

    def read_first(self, s, nm):
        """may the body of the loop read the name before it sets it?"""
        if isinstance(s, ast.For) and nm in stored_names(s.target):
            return False
        if isinstance(s, ast.While) and reads_name(s.test, nm):
            return True
        return read_before_set(s.body, nm)[0]

    def slot_alive(self, p, st):
        return p.root in st.heap

    def diff_slots(self, v0, v, index):
        """slot paths below v0 that changed in v"""
        if v0 is v:
            return []
        out = []

        def rec(a, b, keys, depth):
            if a is b:
                return True
            stores = []
            x = b
            n = 0
            while x.op == "store" and x is not a and n < 200:
                stores.append((x.args[1], x.args[2]))
                x = x.args[0]
                n += 1
            if x is a and stores:
                for k, val in stores:
                    if k.op == "attrkey" or k.op == "const" or \
                            T.num_value(k) is not None:
                        old = self.getkey(a, k)
                        if depth < 4 and not T.seqlike(val) and \
                                rec(old, val, keys + (k,), depth + 1):
                            continue
                        out.append(keys + (k,))
                    else:
                        out.append(keys)
                        return True
                return True
            # the same object with fields stored over each other
            def fixed(k):
                return k.op in ("attrkey", "const") or \
                    (T.num_value(k) is not None and T.num_value(k) >= 0)
            fa, fb, y = {}, {}, a
            while y.op == "store" and fixed(y.args[1]):
                fa.setdefault(y.args[1], y.args[2])
                y = y.args[0]
            x = b
            while x.op == "store" and fixed(x.args[1]):
                fb.setdefault(x.args[1], x.args[2])
                x = x.args[0]
            if fa and x is y and set(fa) <= set(fb):
                for k, val in fb.items():
                    old = fa.get(k)
                    if old is None:
                        old = self.getkey(y, k)
                    if old is val:
                        continue
                    if depth < 4 and not T.seqlike(val) and \
                            rec(old, val, keys + (k,), depth + 1):
                        continue
                    out.append(keys + (k,))
                return True
            if b.op == "ite":
                ls = []

                def leaf(t):
                    if t.op == "ite":
                        leaf(t.args[1])
                        leaf(t.args[2])
                    else:
                        ls.append(t)
                leaf(b)
                mark = len(out)
                if all(l is a or l.op != "ite" and rec(a, l, keys, depth)
                       for l in ls):
                    return True
                del out[mark:]
            return False
        if not rec(v0, v, (), 0):
            return [()]
        res = []
        for k in out:
            if k not in res:
                res.append(k)
        # a slot below another slot is subsumed
        res = [k for k in res if not any(o != k and k[:len(o)] == o
                                         for o in res)]
        return res

    def base_is(self, t, a):
        while t.op == "store" and t is not a:
            t = t.args[0]
        return t is a

    # ---- closing a loop
    def close_loop(self, s, pre, fr, it, condt, index, carried, named, start,
                   fin, outs):
        slots = list(carried)
        syms = {sl: carried[sl] for sl in slots}
        symset = set(syms.values())
        inits, bodies = self.carried_values(pre, fin, carried, named)
        # not really carried
        G = T.or_(*[x.state.pc for x in outs]) if outs else FALSE
        # what the body leaves behind matters only when the loop goes on
        go = T.and_(T.truth(condt), T.not_(G))
        if go is not TRUE:
            bodies = {c: T.restrict(b, go) for c, b in bodies.items()}
        # induction variables
        closed = {}
        subs = {}
        bynum = T.fresh_key
        symlist = sorted(symset, key=bynum)
        for c in symlist:
            d = self.trydiff(bodies[c], c)
            if bodies[c] is c:
                subs[c] = inits[c]
                closed[c] = (lambda n, c=c: inits[c])
            elif d is not None and not self.mentions(
                    d, symset | {index}) and T.num_value(d) is not None:
                closed[c] = (lambda n, c=c, d=d:
                             T.add(inits[c], T.mul(n, d)))
                subs[c] = T.add(inits[c], T.mul(index, d))
        if subs:
            bodies = {c: T.subst(b, subs) if c not in subs else b
                      for c, b in bodies.items()}
        G = T.subst(G, subs)
        condt0 = condt
        condt = T.subst(condt, subs)
        rest = [c for c in symlist if c not in closed]
        if it is None:
            for atom, val in self.assumed:
                condt = T.cof(condt, atom, val)
            # a test that depends on a decision made before the loop
            seen, todo = set(), [condt]
            while todo:
                t = todo.pop()
                if t.op != "ite" or t in seen:
                    continue
                seen.add(t)
                atom = t.args[0]
                if not self.mentions(atom, symset | {index}):
                    def again(val):
                        def f(x):
                            self.assumed.append((atom, val))
                            try:
                                return self.loop(s, x, fr, None, s.test)
                            finally:
                                self.assumed.pop()
                        return f
                    return self.branch(atom, pre, fr, again(True),
                                       again(False))
                todo.append(t.args[2])
                todo.append(t.args[1])
            n = self.count(condt, index, rest)
            k = T.num_value(n) if n is not None else None
            if k is not None and k <= 64 and k == int(k):
                lp = ast.For(target=ast.Name(id="$n", ctx=ast.Store()),
                             iter=s.test, body=s.body, orelse=s.orelse)
                return self.unrolled(lp, [(T.Num(i), None)
                                          for i in range(max(0, int(k)))],
                                     pre, fr)
        # iteration count
        n = None
        generic = False
        if it is not None:
            n = it["n"]
        else:
            n = self.count(condt, index, rest)
            if n is None:
                generic = True
        if not generic and self.mentions(G, set(rest)):
            generic = True
        if generic:
            C = condt if it is None else T.lt(index, n)
            return self.close_while(s, pre, fr, it, C, G, index, syms, inits,
                                    bodies, closed, subs, rest, fin, outs,
                                    start, named, n)
        # closed forms of the remaining carried values
        pend = set(rest)
        progress = True
        while pend and progress:
            progress = False
            for c in self.order(list(pend), inits, bodies):
                b = bodies[c]
                others = pend - {c}
                if self.mentions(b, others):
                    continue
                f = self.classify(c, b, inits[c], index, n)
                if f is not None:
                    closed[c] = f
                    pend.discard(c)
                    progress = True
                    # others may use it as a prefix value
                    pv = f(index)
                    for o in pend:
                        bodies[o] = T.subst(bodies[o], {c: pv})
                    break
        if pend:
            for c in sorted(pend, key=bynum):
                grp = self.closure_of(c, bodies, pend)
                closed[c] = self.fold_form(c, grp, inits, bodies, index)
        if G is FALSE:
            post = self.poststate(pre, slots, syms, named, closed, n)
            post.pc = pre.pc
            if s.orelse:
                post = self.block(s.orelse, post, fr)
            return post
        g = T.close(G, [index])
        g_low = g
        if not T.depends(g):
            # exit in the first iteration or never
            found = T.and_(T.lt(T.ZERO, n), T.lower(g))
            m = T.ZERO
        else:
            found = T.any_(n, g)
            m = T.first_(n, g)
        res = []
        live = []
        for k, x in enumerate(outs):
            xs = self.exit_state(x, pre, slots, syms, named, closed, subs, m,
                                 index, fin, start)
            gk = T.subst(T.subst(x.state.pc, subs), {index: m})
            if len(outs) == 1:
                gk = TRUE
            live.append((x, xs, gk))
        if len(live) > 1:
            # one of the exits is taken there
            fact = T.or_(*[gk for x, xs, gk in live])
            if T.leaves(fact) < 200:
                live = [(x, xs, T.constrain(gk, fact)) for x, xs, gk in live]
        used = FALSE
        for k, (x, xs, gk) in enumerate(live):
            if k == len(live) - 1:
                gg = T.and_(found, T.not_(used))
            else:
                gg = T.and_(found, gk, T.not_(used))
            used = T.or_(used, gk)
            xs.pc = T.and_(pre.pc, gg)
            if x.kind == "break":
                res.append((gg, xs))
            else:
                v = x.value
                if v is not None:
                    v = self.sub_value(v, closed, subs, m, index)
                fr.exits.append(Exit(x.kind, xs, v))
        post = self.poststate(pre, slots, syms, named, closed, n)
        post.pc = T.and_(pre.pc, T.not_(found))
        if post.pc is FALSE:
            post = None
        if post is not None and s.orelse:
            post = self.block(s.orelse, post, fr)
        if post is not None:
            res.append((TRUE, post))
        if not res:
            return None
        return self.merge(res)

    def sub_value(self, v, closed, subs, m, index):
        mp = {}
        for c, f in closed.items():
            mp[c] = f(m)
        v = T.subst(v, mp)
        return T.subst(v, {index: m})

    def exit_state(self, x, pre, slots, syms, named, closed, subs, m, index,
                   fin, start):
        """state at an exit in iteration m"""
        xs = pre.copy()
        mp = {}
        for c, f in closed.items():
            mp[c] = f(m)
        mp[index] = m

        def sv(t):
            if not self.mentions(t, set(mp)):
                return t
            t1 = T.subst(t, {k: v for k, v in mp.items() if k is not index})
            return T.subst(t1, {index: m})
        xs.heap = {}
        for r, t in x.state.heap.items():
            xs.heap[r] = sv(t)
        xs.envs = []
        for e in x.state.envs:
            ne = {}
            for nm, r in e.items():
                ne[nm] = Ref(r.root, tuple(sv(k) for k in r.keys))
            xs.envs.append(ne)
        xs.phi = dict(x.state.phi)
        return xs

    def poststate(self, pre, slots, syms, named, closed, n):
        post = pre.copy()
        rn = {v: k for k, v in named.items()}
        for sl in sorted(slots, key=lambda x: len(x[1])):
            root, keys = sl
            v = closed[syms[sl]](n)
            if root in rn and not keys:
                if v is T.Sym("$undef"):
                    continue
                if pre.env.get(rn[root]) is not None and \
                        v is self.read(pre, pre.env[rn[root]]):
                    continue
                post.env[rn[root]] = self.newroot(post, v)
            else:
                if root not in post.heap:
                    post.heap[root] = T.mk("list", ())
                self.write(post, Ref(root, keys), v, rebind=False)
        return post

    def mentions(self, t, syms):
        fv = T.free(t)
        return any(("fresh", x.args[0]) in fv for x in syms)

    def trydiff(self, b, c):
        if T.seqlike(c) or T.seqlike(b):
            return None
        if b.op == "ite":
            return None
        try:
            return T.sub(b, c)
        except OverflowError:
            return None

    def count(self, condt, index, rest):
        """iterations of `while cond` when cond is (N - index > 0)"""
        if condt is FALSE:
            return T.ZERO
        if condt.op == "ite":
            test, yes, no = condt.args
            if self.mentions(test, set(rest) | {index}):
                if yes is not TRUE and no is not FALSE:
                    return None
                n1 = self.count(test, index, rest)
                n2 = self.count(no if yes is TRUE else yes, index, rest) \
                    if n1 is not None else None
                a, b = (T.num_value(n1), T.num_value(n2)) \
                    if n2 is not None else (None, None)
                if a is None or b is None:
                    return None
                return T.Num(max(a, b) if yes is TRUE else min(a, b))
            n1 = self.count(condt.args[1], index, rest)
            n2 = self.count(condt.args[2], index, rest) \
                if n1 is not None else None
            return None if n2 is None else T.ite(condt.args[0], n1, n2)
        lits = [condt] if condt.op in ("pos",) else []
        if not lits:
            return None
        if self.mentions(condt, set(rest)):
            return None
        d = condt.args[0]
        try:
            d1 = T.subst(d, {index: T.add(index, T.ONE)})
            delta = T.num_value(T.sub(d, d1))
        except OverflowError:
            return None
        if delta != 1:
            if delta is not None and delta > 0:
                return T.call("ceil", (T.div(T.subst(d, {index: T.ZERO}),
                                             T.Num(delta)),))
            return None
        return T.subst(d, {index: T.ZERO})

    def isseq(self, c, b, init):
        return c.args[0].startswith("q")

    def classify(self, c, b, init, index, n):
        """closed form f(n) of carried c with step c <- b, or None"""
        I = {c}
        if not self.mentions(b, I):
            last = T.close(b, [index])

            def f(n):
                v = T.instantiate(last, [T.sub(n, T.ONE)])
                if not T.depends(last):
                    v = T.lower(last)
                elif T.instantiate(last, [T.MINUS]) is init:
                    # the value before the loop continues the series
                    return v
                return T.ite(T.lt(T.ZERO, n), v, init)
            return f
        seq = self.isseq(c, b, init)
        # append pattern
        ap = self.append_form(c, b)
        if ap is not None:
            cond, kind, body = ap
            if not self.mentions(cond, I) and not self.mentions(body, I):
                cc = T.close(cond, [index])
                bb = T.close(body, [index])
                if kind == "one":
                    return lambda n: T.concat(
                        init, T.mkcomp("list", n, cc, bb))
                if kind == "str":
                    return lambda n: T.mk("concat", tuple(
                        [x for x in (init,) if not (
                            x.op == "const" and x.args[0] == "")] +
                        [T.mk("call", "strjoin",
                              (T.mkcomp("list", n, cc, bb),), ())])) \
                        if not (init.op == "const" and init.args[0] == "") \
                        else T.mk("call", "strjoin",
                                  (T.mkcomp("list", n, cc, bb),), ())
                return lambda n: T.concat(init, T.flatten(
                    T.mkcomp("list", n, cc, bb)))
        if not seq:
            d = self.additive(b, c)
            if d is not None and not self.mentions(d, I):
                dd = T.close(d, [index])
                return lambda n: T.add(init, T.mksum(n, dd))
        # conditional last value: ite(g, e, c)
        lastc = self.guarded(c, b)
        if lastc is not None:
            g, e = lastc
            if not self.mentions(g, I) and not self.mentions(e, I):
                gg = T.close(g, [index])
                ee = T.close(e, [index])
                return lambda n: T.ite(
                    T.any_(n, gg),
                    T.instantiate(ee, [T.last_(n, gg)])
                    if T.depends(ee) else T.lower(ee), init)
        up = self.update_form(c, b, index, init)
        if up is not None:
            key, cond, val = up
            k = T.close(key, [index])
            cc = T.close(cond, [index])
            vv = T.close(val, [index])
            return lambda n: T.mkupd(n, init, k, cc, vv)
        if b.op == "del" and b.args[0] is c and init.op != "ite" and \
                T.num_value(b.args[1]) in (0, -1):
            # an element is taken off one end in every iteration
            if T.num_value(b.args[1]) == 0:
                return lambda n: T.slice_(init, n, NONE, NONE)
            return lambda n: T.slice_(init, T.ZERO, T.sub(
                T.length(init), n), NONE)
        slot = self.slot_form(c, b, init, index, n)
        if slot is not None:
            return slot
        # single-variable fold
        return self.fold_form(c, [c], {c: init}, {c: b}, index)

    def slot_form(self, c, b, init, index, n):
        """b only ever changes c[key], key the same in every iteration, and
        reads nothing else of c: the loop carries that one value"""
        keys = set()

        def scan(t):
            if t is c:
                return True
            if t.op == "ite":
                return scan(t.args[1]) and scan(t.args[2])
            if t.op == "store" and t.args[0] is c:
                keys.add(t.args[1])
                return True
            return False
        if b.op not in ("store", "ite") or not scan(b) or len(keys) != 1:
            return None
        key = keys.pop()
        if self.mentions(key, {c, index}) or key.op == "attrkey":
            return None
        cur, old = T.load(c, key), T.load(init, key)
        if cur.op not in ("index", "load") or old.op == "ite":
            return None
        v = T.Fresh("e")

        def val(t):
            if t is c:
                return v
            if t.op == "ite":
                return T.ite(replace(t.args[0], cur, v), val(t.args[1]),
                             val(t.args[2]))
            return replace(t.args[2], cur, v)
        new = val(b)
        if self.mentions(new, {c}):
            return None
        f = self.classify(v, new, old, index, n)
        if f is None:
            return None
        return lambda m: T.store(init, key, f(m))

    def guarded(self, c, b):
        """b == ite(g, e, c)"""
        if b.op != "ite":
            return None

        def reach(t):
            if t is c:
                return FALSE
            if t.op == "ite":
                return T.ite(t.args[0], reach(t.args[1]), reach(t.args[2]))
            return TRUE

        vals = set()

        def vrec(t):
            if t is c:
                return None
            if t.op == "ite":
                h, l = vrec(t.args[1]), vrec(t.args[2])
                if h is None:
                    return l
                if l is None:
                    return h
                return T.ite(t.args[0], h, l)
            return t
        g = reach(b)
        e = vrec(b)
        if g is TRUE or e is None:
            return None
        return g, e

    def additive(self, b, c):
        def rec(t):
            if t.op == "ite":
                h, l = rec(t.args[1]), rec(t.args[2])
                if h is None or l is None:
                    return None
                return T.ite(t.args[0], h, l)
            if T._special(t):
                return None
            try:
                d = T.sub(t, c)
            except OverflowError:
                return None
            if self.mentions(d, {c}):
                return None
            return d
        return rec(b)

    def append_form(self, c, b):
        """b == ite(g, c ++ [e], c) -> (g, 'one', e); c ++ X -> flatten"""
        forms = []

        def leaf(t):
            if t is c:
                return ("none", None)
            if t.op == "concat" and t.args[0][0] is c:
                rest = t.args[0][1:]
                if len(rest) == 1 and rest[0].op == "list" and \
                        len(rest[0].args[0]) == 1:
                    return ("one", rest[0].args[0][0])
                r = rest[0]
                for x in rest[1:]:
                    r = T.concat(r, x)
                return ("many", r)
            return None
        lf = {}

        def scan(t):
            if t.op == "ite":
                return scan(t.args[1]) and scan(t.args[2])
            f = leaf(t)
            if f is None:
                return False
            lf[t] = f
            return True
        if not scan(b):
            return None
        kinds = set(f[0] for f in lf.values())
        if kinds == {"none"}:
            return None

        def g(t):
            if t.op == "ite":
                return T.ite(t.args[0], g(t.args[1]), g(t.args[2]))
            return FALSE if lf[t][0] == "none" else TRUE

        if "many" not in kinds:
            def e(t):
                if t.op == "ite":
                    h, l = e(t.args[1]), e(t.args[2])
                    if h is None:
                        return l
                    if l is None:
                        return h
                    return T.ite(t.args[0], h, l)
                return lf[t][1]
            return g(b), "one", e(b)
        strl = any(k == "many" and self.stringlike(v)
                   for k, v in lf.values())

        def x(t):
            if t.op == "ite":
                return T.ite(t.args[0], x(t.args[1]), x(t.args[2]))
            k, v = lf[t]
            if k == "none":
                return T.Const("") if strl else T.mk("list", ())
            if k == "one":
                return T.mk("list", (v,))
            return v
        return TRUE, ("str" if strl else "many"), x(b)

    def update_form(self, c, b, index, init):
        """b == ite(g, c{key:=val}, c)"""
        found = []

        def scan(t):
            if t is c:
                return True
            if t.op == "ite":
                return scan(t.args[1]) and scan(t.args[2])
            if t.op == "store" and t.args[0] is c:
                found.append((t.args[1], t.args[2]))
                return True
            return False
        if not scan(b) or not found:
            return None
        keys = set(k for k, v in found)
        if len(keys) != 1:
            return None
        key = found[0][0]
        if self.mentions(key, {c}):
            return None

        def g(t):
            if t is c:
                return FALSE
            if t.op == "ite":
                return T.ite(t.args[0], g(t.args[1]), g(t.args[2]))
            return TRUE

        def v(t):
            if t is c:
                return None
            if t.op == "ite":
                h, l = v(t.args[1]), v(t.args[2])
                if h is None:
                    return l
                if l is None:
                    return h
                return T.ite(t.args[0], h, l)
            return t.args[2]
        cond, val = g(b), v(b)
        if self.mentions(cond, {c}):
            # condition may look at c[key] only when key is the index
            if key is not index:
                return None
        if self.mentions(val, {c}) or self.mentions(cond, {c}):
            # elementwise: only c[index] is read
            if key is not index:
                return None
            cur = T.mk("index", c, index)
            old = T.load(init, index)
            val = replace(val, cur, old)
            cond = replace(cond, cur, old)
            if self.mentions(val, {c}) or self.mentions(cond, {c}):
                return None
        return key, cond, val

    def closure_of(self, c, bodies, pend):
        grp = {c}
        work = [c]
        while work:
            x = work.pop()
            for o in pend:
                if o not in grp and self.mentions(bodies[x], {o}):
                    grp.add(o)
                    work.append(o)
        return list(grp)

    def order(self, grp, inits, bodies, first=None):
        """canonical order of the carried values: by what they are, not by
        the numbers of their symbols (colour refinement)"""
        num = T.fresh_key
        col = {c: "0" for c in grp}
        init = {c: T.plain_fresh(inits[c], 0).dig for c in grp}
        for rnd in range(min(4, len(grp)) + 1):
            m = {o: T.Sym("$col:%s" % col[o]) for o in grp}
            new = {}
            for c in grp:
                mm = dict(m)
                mm[c] = T.Sym("$self")
                new[c] = "%s/%s" % (init[c], T.plain_fresh(
                    T.subst(bodies[c], mm), 0).dig)
            ranks = {k: i for i, k in enumerate(sorted(set(new.values())))}
            nc = {c: str(ranks[new[c]]) for c in grp}
            if len(ranks) == len(grp) or (rnd and len(ranks) == len(
                    set(col.values()))):
                col = nc
                break
            col = nc
        return sorted(grp, key=lambda c: (int(col[c]), num(c)))

    def fold_form(self, c, grp, inits, bodies, index):
        grp = self.order(grp, inits, bodies)
        bs = tuple(T.close(bodies[o], [index] + grp) for o in grp)
        ins = tuple(inits[o] for o in grp)
        k = grp.index(c)

        def f(n):
            return T.foldproj(n, ins, bs, k)
        return f

    def close_while(self, s, pre, fr, it, C, G, index, syms, inits, bodies,
                    closed, subs, rest, fin, outs, start, named, n):
        """general while: value of the carried tuple when C fails or an exit
        is taken"""
        go = T.and_(C, T.not_(G))
        slots = list(syms)
        # index is a carried counter of its own when it is used
        need_idx = it is not None or self.mentions(go, {index}) or any(
            self.mentions(bodies[c], {index}) for c in rest) or any(
                c in closed and subs.get(c) is not None for c in closed)
        bodies = dict(bodies)
        inits = dict(inits)
        allc = list(rest)
        bodies[index] = T.add(index, T.ONE)
        inits[index] = T.ZERO
        pool = set(allc) | {index}

        def group(seed):
            grp = set(seed)
            work = list(seed)
            while work:
                x = work.pop()
                for o in pool:
                    if o not in grp and self.mentions(bodies[x], {o}):
                        grp.add(o)
                        work.append(o)
            return grp
        condgrp = group([o for o in pool if self.mentions(go, {o})])

        def final(c):
            grp = condgrp | group([c])
            g = self.order(list(grp), inits, bodies)
            bs = tuple(T.close(bodies[o], g) for o in g)
            cc = T.close(go, g)
            w = T.mk("while", tuple(inits[o] for o in g), cc, bs)
            return T.proj(w, g.index(c))
        fmemo = {}

        def F(c):
            if c not in fmemo:
                fmemo[c] = final(c)
            return fmemo[c]
        cl = {}
        for c in rest:
            cl[c] = (lambda n, c=c: F(c))
        for c in closed:
            if bodies[c] is c:
                cl[c] = (lambda n, c=c: inits[c])
            else:
                cl[c] = (lambda n, c=c: T.subst(subs[c], {index: F(index)}))
        mp = {c: cl[c](None) for c in rest}

        def at_end(t):
            t = T.subst(t, subs)
            if not self.mentions(t, set(rest) | {index}):
                return t
            m2 = dict((c, mp[c]) for c in rest)
            if self.mentions(t, {index}):
                m2[index] = F(index)
            return T.subst(t, m2)
        if G is FALSE:
            post = self.poststate(pre, slots, syms, named, cl, None)
            post.pc = pre.pc
            if it is None and not self.names_after(s, fr) & set(named) and \
                    all(sl[0] in named.values() for sl in slots):
                # nothing is left of the loop but that it waits
                g = self.order(list(condgrp), inits, bodies)
                cc = T.close(go, g)
                bs = tuple(T.close(bodies[o], g) for o in g)
                if T.any_op(cc, ("call", "mcall", "dyn")) or any(
                        T.any_op(b, ("call", "mcall", "dyn")) for b in bs):
                    self.event(post, T.call("$wait", (T.mk(
                        "while", tuple(inits[o] for o in g), cc, bs),)))
            if s.orelse:
                post = self.block(s.orelse, post, fr)
            return post
        found = TRUE if C is TRUE else at_end(C)
        idx_end = F(index) if (need_idx or True) else None
        res = []
        used = FALSE
        ends = [at_end(x.state.pc) for x in outs]
        if len(outs) > 1:
            fact = T.or_(*ends)
            if T.leaves(fact) < 200:
                ends = [T.constrain(gk, fact) for gk in ends]
        for k, x in enumerate(outs):
            gk = ends[k]
            gg = T.and_(found, T.not_(used))
            if k < len(outs) - 1:
                gg = T.and_(gg, gk)
            used = T.or_(used, gk)
            xs = self.exit_state(x, pre, slots, syms, named, cl, subs,
                                 idx_end, index, fin, start)
            xs.pc = T.and_(pre.pc, gg)
            if x.kind == "break":
                res.append((gg, xs))
            else:
                v = x.value
                if v is not None:
                    v = self.sub_value(v, cl, subs, idx_end, index)
                fr.exits.append(Exit(x.kind, xs, v))
        if found is not TRUE:
            post = self.poststate(pre, slots, syms, named, cl, None)
            post.pc = T.and_(pre.pc, T.not_(found))
            if s.orelse:
                post = self.block(s.orelse, post, fr)
            if post is not None:
                res.append((TRUE, post))
        if not res:
            return None
        return self.merge(res)


    # ---------------------------------------------------------- expressions
    def expr(self, e, st, fr):
        self.tick()
        m = getattr(self, "e_" + e.__class__.__name__, None)
        if m is None:
            return self.opaque("expression " + e.__class__.__name__)
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        try:
            return T.Const(e.value)
        except TypeError:
            return self.opaque("constant")

    def e_Name(self, e, st, fr):
        return self.name(e.id, st, fr)

    def name(self, nm, st, fr):
        if nm in fr.globals:
            return self.read(st, self.globalref(fr.module, nm, st))
        r = st.env.get(nm)
        if r is not None:
            return self.read(st, r)
        if fr.closure is not None and nm in fr.closure:
            r = fr.closure[nm]
            if r is not None and r.root in st.heap:
                return self.read(st, r)
        return self.global_name(fr.module, nm, fr, st)

    def global_name(self, module, nm, fr=None, st=None):
        r = self.repo.member(module, nm)
        if r[0] == "global" and st is not None:
            root = "$g:%s.%s" % (r[1].name, r[2])
            if root in st.heap:
                return st.heap[root]
        if r[0] == "missing":
            if nm in BUILTINS:
                return T.mk("ext", nm)
            for s in module.stars:
                if s == "math" and nm in MATH_NAMES:
                    return self.extconst("math." + nm)
                if s not in self.repo.modules:
                    return T.mk("ext", s + "." + nm)
            return T.mk("ext", "?" + nm)
        return self.resolved(r, nm, fr)

    def resolved(self, r, nm, fr):
        k = r[0]
        if k == "module":
            return T.mk("mod", r[1].name)
        if k == "class":
            return T.mk("cls", r[1].qual)
        if k == "func":
            return T.mk("fn", r[1].qual)
        if k == "global":
            return self.modglobal(r[1], r[2])
        if k == "ext":
            return self.extconst(r[1])
        if k == "classattr":
            fa = self.repo.find_attr(r[1], r[2])
            if fa:
                return self.classattr(fa[0], r[2], fa[1])
            return T.Sym("$c:%s.%s" % (r[1].qual, r[2]))
        return T.mk("ext", "?" + nm)

    def extconst(self, d):
        if d in EXT_CONST:
            return EXT_CONST[d]
        if d == "string.ascii_letters":
            pass
        return T.mk("ext", d)

    def module_mutated(self, m):
        if not hasattr(m, "_mut"):
            s = set()
            for f in ast.walk(m.tree):
                if isinstance(f, ast.FunctionDef):
                    for n in ast.walk(f):
                        if isinstance(n, ast.Global):
                            s |= set(n.names)
            m._mut = s
        return m._mut

    def module_written(self, m):
        """names of the module whose object some statement writes through"""
        if not hasattr(m, "_through"):
            m._through = self.mutattr() | written_through(
                m.tree, ast.Name, "id")
        return m._through

    def modglobal(self, m, nm):
        key = ("m", m.name, nm)
        if key in self.modmemo:
            return self.modmemo[key]
        sym = T.Sym("$g:%s.%s" % (m.name, nm))
        self.modmemo[key] = sym
        vals = m.assigns.get(nm, [])
        if len(vals) == 1 and nm not in self.module_mutated(m) and \
                isinstance(vals[0], ast.expr):
            v = self.static_value(m, vals[0])
            if not T.has_opaque(v) and not (
                    nm in self.module_written(m) and mutable(v)):
                self.modmemo[key] = v
                return v
        return sym

    def e_Tuple(self, e, st, fr):
        return self.seq("tuple", e.elts, st, fr)

    def e_List(self, e, st, fr):
        return self.seq("list", e.elts, st, fr)

    def e_Set(self, e, st, fr):
        return self.seq("set", e.elts, st, fr)

    def seq(self, kind, elts, st, fr):
        if any(isinstance(x, ast.Starred) for x in elts):
            r = T.mk(kind, ())
            for x in elts:
                if isinstance(x, ast.Starred):
                    v = self.expr(x.value, st, fr)
                    r = T.concat(r, T.call(kind, (v,)))
                else:
                    r = T.concat(r, T.mk(kind, (self.expr(x, st, fr),)))
            return r
        return T.mk(kind, tuple(self.expr(x, st, fr) for x in elts))

    def e_Dict(self, e, st, fr):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                return self.opaque("dict unpacking")
            items.append((self.expr(k, st, fr), self.expr(v, st, fr)))
        d = {}
        order = []
        for k, v in items:
            if k not in d:
                order.append(k)
            d[k] = v
        if all(k.op == "const" or T.num_value(k) is not None for k in order):
            order.sort(key=lambda k: k.dig)
        return T.mk("dict", tuple((k, d[k]) for k in order))

    def e_IfExp(self, e, st, fr):
        c = T.truth(self.expr(e.test, st, fr))
        if c is TRUE:
            return self.expr(e.body, st, fr)
        if c is FALSE:
            return self.expr(e.orelse, st, fr)
        return self.cond_expr(c, st, fr, lambda x: self.expr(e.body, x, fr),
                              lambda x: self.expr(e.orelse, x, fr))

    def cond_expr(self, c, st, fr, f, g):
        a, b = st.copy(), st.copy()
        a.pc = T.and_(st.pc, c)
        b.pc = T.and_(st.pc, T.not_(c))
        va = f(a)
        vb = g(b)
        if a.pc is FALSE and b.pc is FALSE:
            st.pc = FALSE
            return NONE
        if a.pc is FALSE:
            m, v = b, vb
        elif b.pc is FALSE:
            m, v = a, va
        else:
            m = self.merge([(c, a), (TRUE, b)])
            v = T.ite(c, va, vb)
        st.heap = m.heap
        st.envs[:] = m.envs
        st.phi = m.phi
        st.pc = m.pc
        return v

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)

        def rec(vals, st):
            v = self.expr(vals[0], st, fr)
            if len(vals) == 1:
                return v
            c = T.truth(v)
            if isand:
                if c is FALSE:
                    return v
                if c is TRUE:
                    return rec(vals[1:], st)
                w = self.cond_expr(c, st, fr, lambda x: rec(vals[1:], x),
                                   lambda x: v)
                return w
            if c is TRUE:
                return v
            if c is FALSE:
                return rec(vals[1:], st)
            return self.cond_expr(c, st, fr, lambda x: v,
                                  lambda x: rec(vals[1:], x))
        return rec(e.values, st)

    def e_UnaryOp(self, e, st, fr):
        v = self.expr(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return T.not_(T.truth(v))
        if isinstance(e.op, ast.USub):
            return T.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return T.call("invert", (v,))

    def e_BinOp(self, e, st, fr):
        a = self.expr(e.left, st, fr)
        b = self.expr(e.right, st, fr)
        if isinstance(e.op, ast.Mod) and \
                ((a.op == "const" and isinstance(a.args[0], str)) or
                 self.stringlike(a)):
            return self.percent(a, b)
        if isinstance(e.op, (ast.Div, ast.FloorDiv, ast.Mod)):
            self.risk(T.mk("tuple", (T.Const("div"), b)), fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        try:
            if isinstance(op, ast.Add):
                if a.op == "fmt" or b.op == "fmt":
                    return T.concat(a, b)
                return T.add(a, b)
            if isinstance(op, ast.Sub):
                return T.sub(a, b)
            if isinstance(op, ast.Mult):
                return T.mul(a, b)
            if isinstance(op, ast.Div):
                return T.div(a, b)
            if isinstance(op, ast.Pow):
                return T.pow_(a, b)
            if isinstance(op, ast.FloorDiv):
                return T.int_op("floordiv", a, b)
            if isinstance(op, ast.Mod):
                return T.int_op("mod", a, b)
            if isinstance(op, ast.MatMult):
                return T.matmul(a, b)
        except OverflowError:
            return self.opaque("expression too large")
        nm = op.__class__.__name__
        if nm in ("BitAnd", "BitOr") and T.is_bool(a) and T.is_bool(b):
            return T.and_(a, b) if nm == "BitAnd" else T.or_(a, b)
        return T.call(nm.lower(), (a, b))

    def percent(self, fmt, v):
        """'..%s..' % v as a concatenation"""
        if fmt.op == "const" and isinstance(fmt.args[0], str):
            import re
            parts = re.split(r"(%[-+ 0#]*\d*(?:\.\d+)?[sdifgeErxXouGcF%])",
                             fmt.args[0])
            n = len([p for p in parts if p.startswith("%") and p != "%%"
                     and len(p) > 1])
            if v.op == "tuple":
                vals = list(v.args[0])
            else:
                vals = [v]
            if n == len(vals):
                out = T.Const("")
                for p in parts:
                    if p == "%%":
                        out = T.concat(out, T.Const("%"))
                    elif p.startswith("%") and len(p) > 1:
                        x = vals.pop(0)
                        out = T.concat(out, self.fmtpart(x, p[1:]))
                    else:
                        out = T.concat(out, T.Const(p))
                return out
        return T.mk("fmt", fmt, v)

    def fmtpart(self, x, spec):
        if spec in ("s", ""):
            return T.call("str", (x,))
        return T.mk("fmt", T.Const(spec), x)

    def e_JoinedStr(self, e, st, fr):
        out = T.Const("")
        for p in e.values:
            if isinstance(p, ast.Constant):
                out = T.concat(out, T.Const(p.value))
            else:
                v = self.expr(p.value, st, fr)
                spec = ""
                if p.format_spec is not None:
                    f = self.expr(p.format_spec, st, fr)
                    spec = f.args[0] if f.op == "const" else "?"
                if p.conversion == 114:
                    v = T.call("repr", (v,))
                out = T.concat(out, self.fmtpart(v, spec))
        return out

    def e_FormattedValue(self, e, st, fr):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]), st, fr)

    def e_Compare(self, e, st, fr):
        left = self.expr(e.left, st, fr)
        res = TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.expr(c, st, fr)
            r = self.compare(op, left, right)
            res = T.and_(res, r) if res is not TRUE else r
            left = right
        return res

    def compare(self, op, a, b):
        try:
            if isinstance(op, (ast.Eq, ast.Is)):
                return self.equals(a, b)
            if isinstance(op, (ast.NotEq, ast.IsNot)):
                return T.not_(self.equals(a, b))
            if isinstance(op, ast.Lt):
                return T.lt(a, b)
            if isinstance(op, ast.Gt):
                return T.lt(b, a)
            if isinstance(op, ast.LtE):
                return T.le(a, b)
            if isinstance(op, ast.GtE):
                return T.le(b, a)
            if isinstance(op, ast.In):
                return T.contains(a, b)
            if isinstance(op, ast.NotIn):
                return T.not_(T.contains(a, b))
        except OverflowError:
            return self.opaque("comparison too large")
        return self.opaque("comparison")

    def equals(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == "call" and x.args[0] == "type" and \
                    len(x.args[1]) == 1:
                n = self.typename(y)
                if n:
                    return self.isinst(x.args[1][0], n)
            if x.op == "mcall" and x.args[1] == "find" and \
                    len(x.args[2]) == 1 and T.num_value(y) == -1:
                return T.not_(T.contains(x.args[2][0], x.args[0]))
        return T.eq(a, b)

    def typename(self, t):
        if t.op in ("ext", "cls"):
            return t.args[0]
        if t.op == "call" and t.args[0] == "type" and len(t.args[1]) == 1:
            x = t.args[1][0]
            if x.op in ("list", "tuple", "dict", "set"):
                return x.op
            if x.op == "const":
                return {str: "str", bool: "bool", bytes: "bytes"}.get(
                    type(x.args[0]))
            n = T.num_value(x)
            if n is not None:
                return "number"
            if x.op == "new":
                return x.args[0]
            if x.op in ("call",):
                return None
        return None

    def isinst(self, x, name):
        def f(x):
            ty = self.typeof(x)
            if ty is not None and ty == name:
                return TRUE
            return T.isinst_(x, name)
        return T.lift(f, x)

    def e_Attribute(self, e, st, fr):
        b = self.expr(e.value, st, fr)
        return self.attribute(b, self.mang(e.attr, fr), st, fr, e.attr)

    def attribute(self, b, nm, st, fr, raw=None):
        if b.op == "mod":
            m = self.repo.modules.get(b.args[0])
            r = self.repo.member(m, raw or nm)
            root = "$g:%s.%s" % (m.name, raw or nm)
            if r[0] == "global":
                root = "$g:%s.%s" % (r[1].name, r[2])
            if root in st.heap:
                return st.heap[root]
            if r[0] == "missing":
                return T.mk("ext", "?%s.%s" % (m.name, raw or nm))
            return self.resolved(r, nm, fr)
        if b.op == "cls":
            c = self.repo.cls(b.args[0])
            f = self.repo.find_method(c, nm) if c else None
            if f is not None:
                return T.mk("fn", f.qual)
            fa = self.repo.find_attr(c, nm) if c else None
            cname = b.args[0]
            if fa is not None:
                cname = fa[0].qual
            root = "$c:%s.%s" % (cname, nm)
            if root in st.heap:
                return st.heap[root]
            if fa is not None:
                return self.classattr(fa[0], nm, fa[1])
            return T.Sym(root)
        if b.op == "ext":
            return self.extconst(b.args[0] + "." + (raw or nm))
        if b.op == "ite":
            return T.lift(lambda x: self.attribute(x, nm, st, fr, raw), b)
        # method?
        cn = self.typeof(b)
        if cn:
            c = self.repo.cls(cn)
            if c is not None:
                f = self.repo.find_method(c, nm)
                if f is not None and T.attr(b, nm).op == "attr":
                    return T.mk("bound", b, f.qual)
        v = self.getattr_term(b, nm)
        self.risk(v, fr)
        return v

    def slice_parts(self, s, st, fr):
        out = []
        for x in (s.lower, s.upper, s.step):
            out.append(NONE if x is None else self.expr(x, st, fr))
        return out

    def e_Subscript(self, e, st, fr):
        b = self.expr(e.value, st, fr)
        if isinstance(e.slice, ast.Slice):
            lo, hi, sp = self.slice_parts(e.slice, st, fr)
            if lo is NONE:
                lo = T.ZERO
            return T.slice_(b, lo, hi, sp)
        k = self.expr(e.slice, st, fr)
        v = self.index(b, k, st, fr)
        self.risk(T.mk("tuple", (v, NONE)), fr)
        return v

    def e_Slice(self, e, st, fr):
        return T.mk("slicekey", *self.slice_parts(e, st, fr))

    def index(self, b, k, st, fr):
        n = T.num_value(k)
        if n == -1 and b.op not in ("list", "tuple", "ite", "const", "dict",
                                    "store", "upd"):
            pass
        return T.load(b, k)

    def e_Starred(self, e, st, fr):
        return self.opaque("starred")

    def e_NamedExpr(self, e, st, fr):
        v = self.expr(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Lambda(self, e, st, fr):
        cid = "lambda:%d" % self.uid()
        self.closures[cid] = (e, dict(st.env), fr)
        t = T.mk("closure", cid)
        # first-order canonical form when the body has no effects
        try:
            ps = [a.arg for a in e.args.args]
            if not (e.args.vararg or e.args.kwarg or e.args.defaults):
                s2 = st.copy()
                vs = []
                for k, p in enumerate(ps):
                    v = T.Fresh("l", k)
                    vs.append(v)
                    s2.env[p] = self.newroot(s2, v)
                f2 = Frame(fr.fi, fr.module, fr.cls)
                f2.closure = fr.closure
                f2.globals = fr.globals
                with T.deeper():
                    b = self.expr(e.body, s2, f2)
                t = T.mk("lam", len(vs), T.close(b, vs))
        except Budget:
            raise
        return t

    def e_Yield(self, e, st, fr):
        self.do_yield(e, st, fr)
        return NONE

    def e_Await(self, e, st, fr):
        return self.opaque("await")

    # ---- comprehensions
    def e_ListComp(self, e, st, fr):
        return self.comprehension(e, st, fr, "list")

    def e_SetComp(self, e, st, fr):
        return T.call("set", (self.comprehension(e, st, fr, "list"),))

    def e_GeneratorExp(self, e, st, fr):
        return self.comprehension(e, st, fr, "list")

    def e_DictComp(self, e, st, fr):
        if len(e.generators) != 1:
            return self.opaque("nested dict comprehension")
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        lc = ast.ListComp(elt=pair, generators=e.generators)
        t = self.comprehension(lc, st, fr, "list")
        return self.todict(t)

    def todict(self, t):
        def f(t):
            if t.op in ("list", "tuple"):
                r = T.mk("dict", ())
                for x in t.args[0]:
                    r = T.store(r, T.load(x, T.ZERO), T.load(x, T.ONE))
                return r
            if t.op == "comp":
                _, n, cond, body = t.args
                return T.mkupd(n, T.mk("dict", ()), T.load(body, T.ZERO),
                               cond, T.load(body, T.ONE))
            return T.call("dict", (t,))
        return T.lift(f, t)

    def comprehension(self, e, st, fr, kind):
        s2 = st.copy()
        r = self.gen(e.elt, e.generators, s2, fr, kind)
        # heap effects inside comprehensions are rare: keep them
        for root, v in s2.heap.items():
            if root in st.heap and st.heap[root] is not v:
                st.heap[root] = self.opaque("effect in comprehension")
        return r

    def gen(self, elt, gens, st, fr, kind):
        g = gens[0]
        it = self.iterable(g.iter, st, fr)
        return self.gen_it(it, elt, gens, st, fr, kind)

    def gen_it(self, it, elt, gens, st, fr, kind):
        g = gens[0]
        if it is None:
            return self.opaque("comprehension iterable")
        if it["kind"] == "ite":
            a = self.gen_it(self.iter_term(it["a"], st, None), elt, gens, st,
                            fr, kind)
            b = self.gen_it(self.iter_term(it["b"], st, None), elt, gens, st,
                            fr, kind)
            return T.ite(it["cond"], a, b)

        def body(e, path, s2):
            self.bind_target(g.target, e, path, s2, fr)
            c = TRUE
            for x in g.ifs:
                c = T.and_(c, T.truth(self.expr(x, s2, fr)))
            if len(gens) == 1:
                return c, self.expr(elt, s2, fr), False
            return c, self.gen(elt, gens[1:], s2, fr, kind), True
        if it["kind"] == "const":
            r = T.mk(kind, ())
            for e, path in it["elems"]:
                c, v, many = body(e, path, st)
                add = v if many else T.mk(kind, (v,))
                r = T.ite(c, T.lift(T.concat, r, add), r)
            return r
        i = T.Fresh("i")
        with T.deeper():
            p = it["path"](i) if it["path"] else None
            if isinstance(p, Ref) and p.root not in st.heap:
                p = None
            c, v, many = body(it["elem"](i), p, st)
            if it["cond"] is not None:
                c = T.and_(it["cond"](i), c)
        cc, vv = T.close(c, [i]), T.close(v, [i])
        if many:
            if cc is not TRUE:
                vv = T.ite(cc, vv, T.mk("list", ()))
            return T.flatten(T.mkcomp(kind, it["n"], TRUE, vv))
        return T.mkcomp(kind, it["n"], cc, vv)

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st, fr):
        return self.call_expr(e, st, fr, stmt=False)

    def args(self, e, st, fr):
        pos, kw, refs = [], [], []
        bad = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, st, fr)
                if v.op in ("tuple", "list"):
                    for x in v.args[0]:
                        pos.append(x)
                        refs.append(None)
                else:
                    # the elements, however they are held
                    while v.op == "call" and v.args[0] in (
                            "tuple", "list") and len(v.args[1]) == 1 \
                            and not v.args[2]:
                        v = v.args[1][0]
                    pos.append(T.mk("star", v))
                    refs.append(None)
                continue
            refs.append(self.alias(a, st, fr))
            pos.append(self.expr(a, st, fr))
        for k in e.keywords:
            if k.arg is None:
                v = self.expr(k.value, st, fr)
                if v.op == "dict" and all(
                        x.op == "const" for x, y in v.args[0]):
                    for x, y in v.args[0]:
                        kw.append((x.args[0], y, None))
                else:
                    kw.append(("**", v, None))
                continue
            kw.append((k.arg, self.expr(k.value, st, fr),
                       self.alias(k.value, st, fr)))
        return pos, kw, refs

    def call_expr(self, e, st, fr, stmt=False):
        self.calls += 1
        self.handed = None
        v = self.call_value(e, st, fr, stmt)
        h = self.handed
        self.handed = None
        if h is not None and h[0] == self.calls and h[1] is v:
            self.given = (e, h[2], h[3])
        self.calls -= 1
        return v

    def call_value(self, e, st, fr, stmt=False):
        f = e.func
        # super().__init__ etc
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) \
                and isinstance(f.value.func, ast.Name) and \
                f.value.func.id == "super":
            return self.super_call(f, e, st, fr, stmt)
        if isinstance(f, ast.Attribute):
            bv = None
            base = None
            if isinstance(f.value, (ast.Name, ast.Attribute, ast.Subscript)):
                base = self.alias(f.value, st, fr)
            bv = self.read(st, base) if base is not None else \
                self.expr(f.value, st, fr)
            if st.pc is FALSE:
                return NONE
            if base is None and isinstance(f.value, ast.Attribute) and \
                    bv.op not in ("mod", "cls", "ext", "fn", "bound"):
                lv = self.lvalue(f.value, st, fr)
                if lv is not None and lv.root.startswith("$"):
                    base = lv
            return self.method_call(f, bv, base, e, st, fr, stmt)
        fv = self.expr(f, st, fr)
        pos, kw, refs = self.args(e, st, fr)
        if st.pc is FALSE:
            return NONE
        return self.apply(fv, pos, kw, refs, st, fr, stmt)

    def super_call(self, f, e, st, fr, stmt):
        pos, kw, refs = self.args(e, st, fr)
        c = fr.cls
        if c is not None:
            for b in self.repo.bases(c):
                m = self.repo.find_method(b, f.attr)
                if m is not None:
                    ref = st.env.get("self")
                    return self.invoke(m, [None] + pos, kw, [ref] + refs, st,
                                       fr, selfref=ref, stmt=stmt)
        return NONE if f.attr == "__init__" else \
            T.call("super." + f.attr, pos)

    def apply(self, fv, pos, kw, refs, st, fr, stmt=False):
        if fv.op == "ite":
            c = fv.args[0]
            return self.cond_expr(
                c, st, fr,
                lambda x: self.apply(fv.args[1], pos, kw, refs, x, fr, stmt),
                lambda x: self.apply(fv.args[2], pos, kw, refs, x, fr, stmt))
        if fv.op == "fn":
            fi = self.byqual(fv.args[0])
            if fi is None:
                return self.opaque("function " + fv.args[0])
            if fi.kind == "class":
                return self.invoke(fi, [T.mk("cls", fi.cls.qual)] + pos, kw,
                                   [None] + refs, st, fr, stmt=stmt)
            return self.invoke(fi, pos, kw, refs, st, fr, stmt=stmt)
        if fv.op == "bound":
            fi = self.byqual(fv.args[1])
            if fi.kind == "method":
                return self.invoke(fi, [fv.args[0]] + pos, kw, [None] + refs,
                                   st, fr, stmt=stmt)
            if fi.kind == "class":
                return self.invoke(fi, [T.mk("cls", fi.cls.qual)] + pos, kw,
                                   [None] + refs, st, fr, stmt=stmt)
            return self.invoke(fi, pos, kw, refs, st, fr, stmt=stmt)
        if fv.op == "cls":
            return self.construct(fv.args[0], pos, kw, refs, st, fr)
        if fv.op == "closure":
            return self.call_closure(fv, pos, kw, refs, st, fr)
        if fv.op == "lam":
            if len(pos) == fv.args[0] and not kw:
                return T.instantiate(fv.args[1], pos)
            return self.opaque("lambda arity")
        if fv.op == "ext":
            return self.ext_call(fv.args[0], pos, kw, refs, st, fr, stmt)
        if fv.op == "opaque":
            return fv
        v = T.mk("dyn", fv, tuple(pos), tuple(sorted(
            ((k, x) for k, x, _ in kw), key=lambda q: q[0])))
        self.risk(v, fr)
        if stmt:
            self.event(st, v)
        return v

    def event(self, st, t):
        cur = st.heap.get("$io", T.mk("list", ()))
        st.heap["$io"] = T.lift(T.concat, cur, T.mk("list", (t,)))

    def byqual(self, q):
        if q.startswith("$spec:"):
            return None
        return self.repo.func(q)

    def is_prim(self, fi):
        import re
        q = fi.qual
        if q in self.vocab:
            return True
        for p in self.prims:
            if re.fullmatch(p, q):
                return True
        return False

    def call_closure(self, fv, pos, kw, refs, st, fr):
        node, env, dfr = self.closures[fv.args[0]]
        if self.depth > self.maxdepth:
            return self.opaque("closure depth")
        self.depth += 1
        try:
            f2 = Frame(dfr.fi, dfr.module, dfr.cls)
            f2.closure = dict(dfr.closure or {})
            f2.closure.update(env)
            f2.globals = set()
            f2.trysig = fr.trysig
            # late binding: names of the defining frame seen through st
            newenv = self.bind(node.args, pos, kw, refs, st, dfr)
            if newenv is None:
                return self.opaque("closure arguments")
            if isinstance(node, ast.Lambda):
                st.envs.append(newenv)
                v = self.expr(node.body, st, f2)
                st.envs.pop()
                return v
            return self.run_body(node.body, newenv, st, f2, fr,
                                 self.is_gen(node))
        finally:
            self.depth -= 1

    def is_gen(self, node):
        for n in walk_own(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False

    def bind(self, a, pos, kw, refs, st, dfr):
        """bind arguments to a fresh environment; None when they do not fit"""
        env = {}
        params = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        used = {}
        extra = []
        for i, v in enumerate(pos):
            if v is not None and v.op == "star":
                return None
            if i < len(params):
                used[params[i]] = (v, refs[i] if i < len(refs) else None)
            else:
                extra.append(v)
        kwextra = []
        for k, v, r in kw:
            if k == "**":
                return None
            if k in params or k in kwonly:
                used[k] = (v, r)
            else:
                kwextra.append((T.Const(k), v))
        if extra and a.vararg is None:
            return None
        if kwextra and a.kwarg is None:
            return None
        defaults = dict(zip(params[len(params) - len(a.defaults):],
                            a.defaults))
        for k, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defaults[k] = d
        for p in params + kwonly:
            if p in used:
                v, r = used[p]
                if r is not None:
                    env[p] = r
                else:
                    env[p] = self.newroot(st, v, "a")
            elif p in defaults:
                st.envs.append({})
                v = self.expr(defaults[p], st, dfr)
                st.envs.pop()
                env[p] = self.newroot(st, v, "a")
            else:
                return None
        if a.vararg is not None:
            env[a.vararg.arg] = self.newroot(st, T.mk("tuple", tuple(extra)))
        if a.kwarg is not None:
            kwextra.sort(key=lambda x: x[0].dig)
            env[a.kwarg.arg] = self.newroot(st, T.mk("dict", tuple(kwextra)))
        return env

    def invoke(self, fi, pos, kw, refs, st, fr, selfref=None, stmt=False):
        """call of a repository function"""
        if fi.qual in self.getters and len(pos) == 1 and not kw:
            o = pos[0] if pos[0] is not None else self.read(st, refs[0])
            return T.load(o, T.Const(self.getters[fi.qual]))
        if self.is_prim(fi) or fi.qual in self.callstack or \
                self.depth >= self.maxdepth:
            return self.uninterpreted(fi, pos, kw, refs, st, fr, stmt)
        if self.refmap is not None:
            fi = self.refmap.find(fi.qual) or fi
        elif getattr(fi, "ghost", False):
            return self.opaque("missing function " + fi.qual)
        if self.refmap is None and fi.name in fi.module.failed:
            return self.opaque("C++: " + fi.module.failed[fi.name])
        self.depth += 1
        self.callstack.append(fi.qual)
        try:
            f2 = Frame(fi, fi.module, fi.cls)
            f2.trysig = fr.trysig
            pos2 = [self.read(st, refs[i]) if v is None and refs[i] is not None
                    else v for i, v in enumerate(pos)]
            env = self.bind(fi.node.args, pos2, kw, refs, st,
                            Frame(None, fi.module, fi.cls))
            if env is None:
                return self.opaque("arguments of " + fi.qual)
            self.inlined.add(fi.qual)
            return self.run_body(fi.node.body, env, st, f2, fr,
                                 self.is_gen(fi.node))
        finally:
            self.callstack.pop()
            self.depth -= 1

    def run_body(self, body, env, st, f2, fr, isgen):
        pc0 = st.pc
        inner = st.copy()
        inner.envs.append(env)
        saved_y = inner.heap.pop("$yield", None)
        # guards inside the callee are kept absolute
        out = self.block(body, inner, f2)
        rets = []
        if out is not None:
            rets.append((out.pc, out, NONE))
        known = set(st.heap)
        handed = []
        for x in f2.exits:
            if x.kind == "return":
                rets.append((x.state.pc, x.state, x.value))
                if x.ref is not None and (
                        x.ref.root in known or
                        x.ref.root.startswith(("$g:", "$c:"))):
                    handed.append((x.state.pc, x.ref))
                elif x.value is not NONE:
                    handed.append(None)
            elif x.kind == "raise":
                s = x.state
                if len(s.envs) > len(st.envs):
                    s.envs = s.envs[:len(st.envs)]
                fr.exits.append(Exit("raise", s, x.value))
        if not rets:
            st.pc = FALSE
            return NONE
        if isgen:
            rets = [(g, s, s.heap.get("$yield", T.mk("list", ())))
                    for g, s, v in rets]
        val = rets[-1][2]
        for g, s, v in reversed(rets[:-1]):
            val = T.ite(g, v, val)
        m = self.merge([(g, s) for g, s, v in rets])
        m.envs = m.envs[:len(st.envs)]
        if saved_y is not None:
            m.heap["$yield"] = saved_y
        elif isgen:
            m.heap.pop("$yield", None)
        st.heap = m.heap
        st.envs[:] = m.envs
        st.phi = m.phi
        if len(rets) == 1 and not any(x.kind == "raise" for x in f2.exits):
            st.pc = pc0
        else:
            st.pc = m.pc
        self.handed = None
        if handed and None not in handed and not isgen:
            # the caller gets the object itself, not a copy
            if len(handed) == len(rets) and \
                    len(set(r for _g, r in handed)) == 1:
                self.handed = (self.calls, val, handed[0][1], None)
            else:
                self.handed = (self.calls, val, None, handed)
        return val

    def normal_args(self, fi, pos, kw):
        """arguments by parameter order with defaults dropped when equal"""
        a = fi.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        extra = []
        for i, v in enumerate(pos):
            if v is not None and v.op == "star":
                return tuple(pos), tuple((k, x) for k, x, _ in kw)
            if i < len(params):
                vals[params[i]] = v
            else:
                extra.append(v)
        rest = []
        for k, v, _ in kw:
            if k in params:
                vals[k] = v
            else:
                rest.append((k, v))
        defaults = dict(zip(params[len(params) - len(a.defaults):],
                            a.defaults))
        out = []
        for p in params:
            if p in vals:
                out.append(vals[p])
            elif p in defaults:
                out.append(self.static_value(fi.module, defaults[p], fi.cls))
            else:
                out.append(T.Sym("$missing"))
        return tuple(out) + tuple(extra), tuple(sorted(rest))

    def uninterpreted(self, fi, pos, kw, refs, st, fr, stmt):
        pos = [self.read(st, refs[i]) if v is None and refs[i] is not None
               else v for i, v in enumerate(pos)]
        args, kws = self.normal_args(fi, pos, kw)
        self.names.add(fi.qual)
        v = T.call(fi.qual, args, kws)
        self.risk(v, fr)
        mut = self.mutates(fi)
        for i in sorted(mut):
            if i < len(refs) and refs[i] is not None:
                cur = self.read(st, refs[i])
                self.write(st, refs[i],
                           T.mk("mut", cur, fi.qual, args, kws),
                           rebind=False)
        if stmt and (not mut or any(
                i >= len(refs) or refs[i] is None for i in mut)) and \
                not self.effectless(fi):
            self.event(st, v)
        return v

    def callee_of(self, fi, f):
        """the repository function a plain or dotted name in fi denotes"""
        if not isinstance(f, ast.Name) and not (
                isinstance(f, ast.Attribute) and
                isinstance(f.value, ast.Name)):
            return None
        try:
            r = self.repo.lookup_expr(fi.module, ast.unparse(f))
        except Exception:
            return None
        return r[1] if r and r[0] == "func" else None

    def effectless(self, fi, seen=()):
        """a function that only computes: no stores outside its own
        variables, no calls but of such functions and of known ones"""
        if fi.qual in seen or len(seen) > 6:
            return False
        memo = self.__dict__.setdefault("_effectmemo", {})
        if fi.qual in memo:
            return memo[fi.qual]
        ok = True
        for n in walk_own(fi.node):
            if isinstance(n, (ast.Global, ast.Nonlocal, ast.Yield,
                              ast.YieldFrom, ast.FunctionDef, ast.Delete)):
                ok = False
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and \
                    isinstance(n.ctx, (ast.Store, ast.Del)):
                ok = False
            elif isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Name) and f.id in READERS:
                    continue
                if isinstance(f, ast.Attribute) and f.attr in PURE_METHODS:
                    continue
                if isinstance(f, ast.Name) and f.id.endswith(
                        ("Error", "Exception")):
                    continue
                d = self.callee_of(fi, f)
                if d is not None and self.effectless(d, seen + (fi.qual,)):
                    continue
                ok = False
            if not ok:
                break
        memo[fi.qual] = ok
        return ok

    def mutates(self, fi, seen=None):
        """indices of parameters a repository function may mutate"""
        if fi.qual in self._mutmemo:
            return self._mutmemo[fi.qual]
        self._mutmemo[fi.qual] = set()
        params = fi.params()
        out = set()
        al = {p: i for i, p in enumerate(params)}

        def root(n):
            while isinstance(n, (ast.Attribute, ast.Subscript)):
                n = n.value
            return n.id if isinstance(n, ast.Name) else None
        for n in walk_own(fi.node):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and \
                    isinstance(n.ctx, (ast.Store, ast.Del)):
                r = root(n)
                if r in al:
                    out.add(al[r])
            elif isinstance(n, ast.AugAssign) and \
                    isinstance(n.target, (ast.Attribute, ast.Subscript)):
                r = root(n.target)
                if r in al:
                    out.add(al[r])
            elif isinstance(n, ast.Call) and \
                    isinstance(n.func, ast.Attribute):
                r = root(n.func.value)
                if r in al:
                    if n.func.attr in MUTATORS or n.func.attr.startswith(
                            "set"):
                        out.add(al[r])
                    elif fi.cls is not None and \
                            isinstance(n.func.value, ast.Name) and \
                            al[r] == 0 and fi.kind == "method":
                        m = self.repo.find_method(
                            fi.cls, mangle(n.func.attr, fi.cls.name))
                        if m is not None and 0 in self.mutates(m):
                            out.add(0)
        self._mutmemo[fi.qual] = out
        return out

    def construct(self, cname, pos, kw, refs, st, fr):
        c = self.repo.cls(cname)
        init = self.repo.find_method(c, "__init__") if c else None
        isexc = c is not None and any(
            b.split(".")[-1].endswith(("Error", "Exception"))
            for b in c.bases)
        if c is None or isexc:
            return T.call(cname, pos)
        if init is None:
            return T.mk("new", cname)
        if self.is_prim(init) or cname in self.vocab or \
                init.qual in self.callstack:
            args, kws = self.normal_args(init, [T.Sym("$new")] + pos, kw)
            v = T.call(cname, args[1:], kws)
            self.risk(v, fr)
            self.names.add(cname)
            return v
        ref = self.newroot(st, T.mk("new", cname), "o")
        self.invoke(init, [None] + pos, kw, [ref] + refs, st, fr)
        if st.pc is FALSE:
            return NONE
        return self.read(st, ref)

    # ---- method calls
    def method_call(self, f, bv, base, e, st, fr, stmt):
        raw = f.attr
        nm = self.mang(raw, fr)
        if bv.op in ("mod", "cls", "ext", "fn", "bound"):
            fv = self.attribute(bv, nm, st, fr, raw)
            pos, kw, refs = self.args(e, st, fr)
            if st.pc is FALSE:
                return NONE
            return self.apply(fv, pos, kw, refs, st, fr, stmt)
        pos, kw, refs = self.args(e, st, fr)
        if st.pc is FALSE:
            return NONE
        return self.send(bv, base, nm, pos, kw, refs, st, fr, stmt, raw)

    def send(self, bv, base, nm, pos, kw, refs, st, fr, stmt, raw=None):
        if bv.op == "ite" and base is None and T.leaves(bv) <= 6:
            c = bv.args[0]
            return self.cond_expr(
                c, st, fr,
                lambda x: self.send(bv.args[1], None, nm, pos, kw, refs, x,
                                    fr, stmt, raw),
                lambda x: self.send(bv.args[2], None, nm, pos, kw, refs, x,
                                    fr, stmt, raw))
        if bv.op == "opaque":
            return bv
        if bv.op in ("cls", "mod", "ext"):
            fv = self.attribute(bv, nm, st, fr, raw)
            return self.apply(fv, pos, kw, refs, st, fr, stmt)
        # function valued attribute?
        cn = self.typeof(bv)
        if cn in self.dictlike and nm in ("get", "set", "__getitem__",
                                          "__setitem__") and not kw:
            kws = ()
            r = self.builtin_method(bv, base, nm, pos, kws, st, fr, stmt)
            if r is not None:
                return r
        if cn:
            c = self.repo.cls(cn)
            m = self.repo.find_method(c, nm) if c is not None else None
            if m is not None:
                if self.overridden(m, bv):
                    return self.uninterpreted(
                        m, ([None if base is not None else bv]
                            if m.kind != "static" else []) + pos, kw,
                        ([base] if m.kind != "static" else []) + refs, st,
                        fr, stmt)
                if m.kind == "method":
                    return self.invoke(m, [None if base is not None else bv]
                                       + pos, kw, [base] + refs, st, fr,
                                       stmt=stmt)
                if m.kind == "class":
                    return self.invoke(m, [T.mk("cls", cn)] + pos, kw,
                                       [None] + refs, st, fr, stmt=stmt)
                return self.invoke(m, pos, kw, refs, st, fr, stmt=stmt)
        at = self.getattr_term(bv, nm)
        if at.op in ("fn", "closure", "lam", "bound", "ite"):
            if at.op == "fn":
                fi = self.byqual(at.args[0])
                if fi is not None and fi.kind == "method":
                    return self.invoke(fi, [None if base is not None else bv]
                                       + pos, kw, [base] + refs, st, fr,
                                       stmt=stmt)
            if at.op != "ite":
                return self.apply(at, pos, kw, refs, st, fr, stmt)
        kws = tuple(sorted(((k, v) for k, v, _ in kw), key=lambda q: q[0]))
        r = self.builtin_method(bv, base, nm, pos, kws, st, fr, stmt)
        if r is not None:
            return r
        v = T.mk("mcall", bv, nm, tuple(pos), kws)
        self.names.add("." + nm)
        self.risk(v, fr)
        if nm in PURE_METHODS:
            return v
        if base is not None and (stmt or nm in (
                "read", "readline", "readlines", "next", "recv", "pop",
                "poll", "communicate", "wait", "is_alive", "get_nowait",
                "plot", "scatter", "hist2d", "contour", "errorbar", "legend",
                "Draw", "DrawCopy", "add_subplot", "add_axes", "imshow",
                "Fill", "SetPoint", "load", "write", "close")):
            self.event(st, T.mk("mcall", self.ident(bv), nm, tuple(pos),
                                kws))
            self.write(st, base, T.mut(bv, nm, tuple(pos), kws),
                       rebind=False)
        elif stmt:
            self.event(st, v)
        return v

    def overridden(self, m, bv):
        """may the object be of a derived class that has its own m?"""
        if bv is None or m.cls is None:
            return False
        while bv.op in ("store", "mut"):
            bv = bv.args[0]
        if bv.op != "sym":
            return False
        key = (m.cls.qual, m.name)
        memo = self.repo.__dict__.setdefault("_overridden", {})
        if key not in memo:
            memo[key] = any(
                m.name in k.methods and k is not m.cls and
                m.cls in self.repo.mro(k)
                for mm in self.repo.modules.values()
                for k in mm.classes.values())
        return memo[key]

    def ident(self, t):
        """identity of an object behind its mutation history"""
        while t.op == "mut":
            t = t.args[0]
        return t

    def delete(self, v, ref, st):
        """C++ delete: nothing for a null pointer, otherwise the object is
        gone, whatever was stored in it before (ref: a record whose fields
        are compared)"""
        def base(t):
            while t.op in ("store", "mut"):
                t = t.args[0]
            return t
        who = T.lift(base, v)
        null = T.eq(who, NONE)
        before = st.heap.get("$io", T.mk("list", ()))
        self.event(st, T.mk("call", "capi.delete", (who,), ()))
        st.heap["$io"] = T.ite(null, before, st.heap["$io"])
        if ref is not None:
            self.write(st, ref, T.ite(null, v, T.lift(
                lambda t: T.store(t, T.mk("attrkey", "deleted"), TRUE),
                who)),
                rebind=False)
        return NONE

    def builtin_method(self, bv, base, nm, pos, kws, st, fr, stmt):
        n = len(pos)
        if nm == "append" and n == 1:
            if base is None:
                return NONE
            self.write(st, base, T.lift(
                lambda b: T.concat(b, T.mk("list", (pos[0],))), bv),
                rebind=False)
            return NONE
        if nm == "extend" and n == 1:
            if base is None:
                return NONE
            x = pos[0]
            self.write(st, base, T.lift(T.concat, bv, x), rebind=False)
            return NONE
        if nm in ("insert", "remove", "reverse", "clear", "update",
                  "setdefault", "discard", "popitem", "add", "sort", "pop"):
            if nm == "sort":
                new = T.call("sorted", (bv,), kws) if n == 0 else \
                    T.mk("mut", bv, nm, tuple(pos), kws)
                val = NONE
            elif nm == "reverse":
                new, val = T.call("list", (T.call("reversed", (bv,)),)), NONE
            elif nm == "insert" and T.num_value(pos[0]) == 0:
                new, val = T.concat(T.mk("list", (pos[1],)), bv), NONE
            elif nm == "pop":
                k = pos[0] if pos else T.MINUS
                val = T.load(bv, k) if n <= 1 else \
                    T.mk("mcall", bv, nm, tuple(pos), kws)
                new = self.delitem(bv, k)
                self.risk(T.mk("tuple", (bv, k)), fr)
            elif nm == "update" and n == 1 and not kws and \
                    pos[0].op == "dict":
                new = bv
                for k, v in pos[0].args[0]:
                    new = T.store(new, k, v)
                val = NONE
            elif nm == "clear":
                def emptied(t):
                    if t.op in ("list", "comp", "rep"):
                        return T.mk("list", ())
                    if t.op == "concat" and any(
                            x.op in ("list", "comp") for x in t.args[0]):
                        return T.mk("list", ())
                    if t.op == "store":
                        inner = t
                        while inner.op == "store":
                            inner = inner.args[0]
                        if inner.op in ("list", "comp", "rep"):
                            return T.mk("list", ())
                    if t.op in ("dict", "store", "dcomp"):
                        return T.mk("dict", ())
                    return T.mk("mut", t, nm, tuple(pos), kws)
                new = T.lift(emptied, bv)
                val = NONE
            elif nm == "setdefault" and n == 2:
                val = T.ite(T.contains(pos[0], bv), T.load(bv, pos[0]),
                            pos[1])
                new = T.store(bv, pos[0], val)
            else:
                new = T.mk("mut", bv, nm, tuple(pos), kws)
                val = T.mk("mcall", bv, nm, tuple(pos), kws)
                if nm in ("remove",):
                    self.risk(val, fr)
            if base is not None:
                self.write(st, base, new, rebind=False)
            return val
        if nm in ("keys", "items", "values") and n == 0:
            return self.dictview(nm, bv)
        if nm in ("iteritems", "itervalues", "iterkeys") and n == 0:
            self.names.add("." + nm)
            return T.mk("mcall", bv, nm, (), kws)
        if nm == "get" and n == 1 and not kws:
            v = T.load(bv, pos[0])
            self.risk(T.mk("tuple", (bv, pos[0])), fr)
            if bv.op in ("dict", "dcomp"):
                return T.ite(T.contains(pos[0], bv), v, NONE)
            return v
        if nm == "get" and n == 2 and not kws and (
                bv.op in ("dict", "dcomp") or (
                    pos[0].op == "const" and isinstance(pos[0].args[0], str)
                    and self.typeof(bv) is None)):
            return T.ite(T.contains(pos[0], bv), T.load(bv, pos[0]), pos[1])
        if nm in ("__getitem__",) and n == 1:
            return T.load(bv, pos[0])
        if nm == "__delitem__" and n == 1 and base is not None:
            self.write(st, base, self.delitem(bv, pos[0]), rebind=False)
            return NONE
        if nm in ("set", "__setitem__", "itemset") and n == 2 and not kws:
            if base is not None:
                self.risk(T.mk("tuple", (bv, pos[0])), fr)
                self.write(st, base.ext(pos[0]), pos[1])
                return NONE
            return None
        if nm == "__len__" and n == 0:
            return T.length(bv)
        if nm in ("__eq__",) and n == 1:
            return self.equals(bv, pos[0])
        if nm in ("__ne__",) and n == 1:
            return T.not_(self.equals(bv, pos[0]))
        if nm == "format" and bv.op == "const" and not kws and \
                isinstance(bv.args[0], str):
            parts = bv.args[0].split("{}")
            if len(parts) == n + 1:
                out = T.Const(parts[0])
                for p, x in zip(parts[1:], pos):
                    out = T.concat(T.concat(out, T.call("str", (x,))),
                                   T.Const(p))
                return out
        if nm == "join" and n == 1 and bv.op == "const" and \
                bv.args[0] == "":
            return T.call("strjoin", (pos[0],))
        if nm == "copy" and n == 0 and self.typeof(bv) is None:
            return T.call("copy.copy", (bv,))
        if nm == "transpose" and n == 0:
            return T.attr(bv, "T")
        if nm in ("dot",) and n == 1:
            return T.call("numpy.dot", (bv, pos[0]))
        if nm in ("sum",) and n == 0 and not kws:
            return self.summation(bv)
        if nm == "tolist" and n == 0:
            return T.call("list", (bv,)) if False else \
                T.mk("mcall", bv, nm, (), ())
        if nm == "has_key" and n == 1:
            return T.contains(pos[0], bv)
        if nm == "__contains__" and n == 1:
            return T.contains(pos[0], bv)
        if nm == "index" and n == 1:
            v = T.mk("mcall", bv, nm, tuple(pos), ())
            self.risk(v, fr)
            return v
        return None

    def dictview(self, nm, bv):
        def f(b):
            if b.op == "dcomp":
                n, cond, key, val = b.args
                body = {"keys": key, "values": val,
                        "items": T.mk("tuple", (key, val))}[nm]
                # valid when the keys are distinct; kept symbolic otherwise
                return T.mk("call", "dict." + nm, (b,), ())
            return T.mk("call", "dict." + nm, (b,), ())
        return T.lift(f, bv)

    def summation(self, x):
        def f(x):
            if x.op == "comp":
                return T.mksum(x.args[1], T.ite(x.args[2], x.args[3],
                                                T.ZERO))
            if x.op in ("list", "tuple"):
                r = T.ZERO
                for y in x.args[0]:
                    r = T.add(r, y)
                return r
            if x.op in ("sym", "attr", "index", "slice") or (
                    x.op == "call" and x.args[0] in (
                        "list", "dict.values", "sorted", "numpy.array")):
                i = T.Fresh("i")
                return T.mksum(T.length(x), T.close(T.load(x, i), [i]))
            return T.mk("call", "sum", (x,), ())
        return T.lift(f, x)

    # ---- builtins and library
    def ext_call(self, name, pos, kw, refs, st, fr, stmt):
        n = len(pos)
        kws = tuple(sorted(((k, v) for k, v, _ in kw), key=lambda q: q[0]))
        kd = dict((k, v) for k, v, _ in kw)
        self.names.add(name)
        if any(p.op == "star" for p in pos):
            v = T.call(name, pos, kws)
            self.risk(v, fr)
            return v
        short = name
        if name.startswith("builtins."):
            short = name[9:]
        if short == "print":
            to = [x for x in kw if x[0] == "file"]
            if to and to[0][1].op != "ext" and to[0][1] is not NONE:
                v = T.mk("mcall", self.ident(to[0][1]), "print", tuple(pos),
                         tuple(sorted(((k, x) for k, x, _ in kw
                                       if k not in ("file", "flush")),
                                      key=lambda q: q[0])))
                self.event(st, v)
                if to[0][2] is not None:
                    self.write(st, to[0][2], T.mk(
                        "mut", to[0][1], "print", v.args[2], v.args[3]),
                        rebind=False)
            return NONE
        if name == "capi.delete" and n >= 1:
            return self.delete(pos[0], refs[0] if refs and n > 1 else None,
                               st)
        if short == "len" and n == 1:
            return T.length(pos[0])
        if short == "range":
            if n == 1:
                lo, hi, sp = T.ZERO, pos[0], T.ONE
            elif n == 2:
                lo, hi, sp = pos[0], pos[1], T.ONE
            else:
                lo, hi, sp = pos
            sv = T.num_value(sp)
            d = T.sub(hi, lo)
            if sv == 1:
                return T.lift(lambda c: T.mk("range", c, lo, sp), d)
            if sv == -1:
                return T.mk("range", T.neg(d), lo, sp)
            nd = T.num_value(d)
            if nd is not None and sv is not None and sv != 0:
                return T.mk("range", T.Num(max(0, math.ceil(nd / sv))), lo,
                            sp)
            return T.mk("range", T.call("ceil", (T.div(d, sp),)), lo, sp)
        if short == "xrange":
            v = T.call(name, pos, kws)
            return v
        if short in ("isinstance",) and n == 2:
            return self.isinstance(pos[0], pos[1])
        if short == "hasattr" and n == 2 and pos[1].op == "const":
            return T.mk("hasattr", pos[0], pos[1].args[0])
        if short == "getattr" and n >= 2 and pos[1].op == "const":
            if n == 2:
                return self.attribute(pos[0], pos[1].args[0], st, fr)
        if short in ("any", "all") and n == 1:
            return self.anyall(short, pos[0])
        if short in ("sum", "math.fsum", "numpy.sum") and n == 1 and not kws:
            return self.summation(pos[0])
        if short == "sum" and n == 2:
            return T.add(self.summation(pos[0]), pos[1]) \
                if not T.seqlike(pos[1]) else T.call("sum", pos, kws)
        if short in ("numpy.mean", "numpy.average") and n == 1 and not kws:
            s = self.summation(pos[0])
            if not (s.op == "call" and s.args[0] == "sum"):
                return T.div(s, T.length(pos[0]))
        if short == "map" and n == 2:
            return self.mapcall(pos[0], pos[1], st, fr)
        if short == "filter" and n == 2:
            return self.filtercall(pos[0], pos[1], st, fr)
        if short == "dict" and n == 1 and not kws:
            return self.todict(pos[0]) if pos[0].op in (
                "list", "comp", "tuple") else T.call("dict", pos, kws)
        if short == "dict" and n == 0:
            return T.mk("dict", tuple(sorted(
                ((T.Const(k), v) for k, v in kws), key=lambda x: x[0].dig)))
        if short == "set" and n == 0:
            return T.mk("set", ())
        if short == "enumerate":
            args = list(pos)
            if "start" in kd:
                args.append(kd["start"])
            return T.call("enumerate", args)
        if short == "sorted":
            if n == 1 and pos[0].op == "call" and \
                    pos[0].args[0] in ("dict.keys", "list", "tuple") and \
                    len(pos[0].args[1]) == 1 and not pos[0].args[2]:
                pos = [pos[0].args[1][0]]
            kk = tuple((k, v) for k, v in kws
                       if not (k == "reverse" and v is FALSE))
            return T.call("sorted", pos, kk)
        if short == "divmod" and n == 2 and not kws:
            return T.mk("tuple", (T.int_op("floordiv", *pos),
                                T.int_op("mod", *pos)))
        if short in ("max", "min") and n == 1 and not kws:
            return T.call(short, pos)
        if short in ("copy.deepcopy", "copy.copy") and n == 1:
            x = pos[0]
            if x.op in ("const", "poly") or T.num_value(x) is not None:
                return x
            if x.op in ("list", "tuple", "dict") and not T.children(x):
                return x
            v = T.mk("call", short, (x,), ())
            return v
        if short == "open":
            v = T.call("open", pos, kws)
            self.risk(v, fr)
            return v
        if short == "type" and n == 1:
            ty = self.typeof(pos[0])
            if ty and self.repo.cls(ty):
                return T.mk("cls", ty)
            return T.mk("call", "type", tuple(pos), ())
        if short == "str" and n == 1:
            return T.call("str", pos)
        if short == "eval":
            return self.opaque("eval")
        if short == "super":
            return self.opaque("super")
        if short in ("operator.itemgetter",) and n == 1:
            v = T.Fresh("l")
            return T.mk("lam", 1, T.close(T.load(v, pos[0]), [v]))
        v = T.call(name, pos, kws)
        self.risk(v, fr)
        if not stmt and HIDDEN.match(name):
            self.event(st, v)
        if stmt:
            self.event(st, v)
            # assume library procedures called for effect may write to their
            # first argument when it is an lvalue
            for i, r in enumerate(refs[:1]):
                if r is not None and name.split(".")[-1] in (
                        "heappush", "shuffle", "insort", "insort_left",
                        "insort_right", "put"):
                    self.write(st, r, T.mk("mut", pos[i], name, tuple(pos),
                                           kws), rebind=False)
        return v

    def isinstance(self, x, t):
        if t.op == "tuple":
            return T.or_(*[self.isinstance(x, y) for y in t.args[0]])
        n = self.typename(t)
        if n is None:
            return T.mk("isinst", x, T.show(t))
        return self.isinst(x, n)

    def anyall(self, which, x):
        def f(x):
            if x.op in ("list", "tuple"):
                fn = T.or_ if which == "any" else T.and_
                return fn(*[T.truth(y) for y in x.args[0]])
            if x.op == "comp":
                _, n, cond, body = x.args
                b = T.truth(body)
                if which == "any":
                    return T.any_(n, T.and_(cond, b))
                return T.not_(T.any_(n, T.and_(cond, T.not_(b))))
            if x.op in ("sym", "attr", "index", "slice"):
                i = T.Fresh("i")
                b = T.close(T.truth(T.load(x, i)), [i])
                if which == "any":
                    return T.any_(T.length(x), b)
                return T.not_(T.any_(T.length(x), T.not_(b)))
            return T.mk("truthy", T.mk("call", which, (x,), ()))
        return T.lift(f, x)

    def mapcall(self, fn, xs, st, fr):
        it = self.iter_term(xs, st, None)
        if it["kind"] == "const":
            return T.mk("list", tuple(
                self.apply(fn, [e], [], [None], st, fr)
                for e, _ in it["elems"]))
        if it["kind"] == "ite":
            return T.ite(it["cond"], self.mapcall(fn, it["a"], st, fr),
                         self.mapcall(fn, it["b"], st, fr))
        i = T.Fresh("i")
        s2 = st.copy()
        with T.deeper():
            v = self.apply(fn, [it["elem"](i)], [], [None], s2, fr)
        c = it["cond"](i) if it["cond"] else TRUE
        return T.mkcomp("list", it["n"], T.close(c, [i]), T.close(v, [i]))

    def filtercall(self, fn, xs, st, fr):
        it = self.iter_term(xs, st, None)
        if it["kind"] == "const":
            r = T.mk("list", ())
            for e, _ in it["elems"]:
                c = T.truth(self.apply(fn, [e], [], [None], st, fr))
                r = T.ite(c, T.lift(T.concat, r, T.mk("list", (e,))), r)
            return r
        if it["kind"] == "ite":
            return T.ite(it["cond"], self.filtercall(fn, it["a"], st, fr),
                         self.filtercall(fn, it["b"], st, fr))
        i = T.Fresh("i")
        s2 = st.copy()
        with T.deeper():
            e = it["elem"](i)
            c = T.truth(e) if fn is NONE else T.truth(
                self.apply(fn, [e], [], [None], s2, fr))
        if it["cond"]:
            c = T.and_(it["cond"](i), c)
        return T.mkcomp("list", it["n"], T.close(c, [i]), T.close(e, [i]))

    # ------------------------------------------------------------ top level
    def function(self, fi, params=None, types=None, defaults=False):
        """evaluate a whole function; returns Result"""
        T._level[0] = 0
        fr = Frame(fi, fi.module, fi.cls)
        st = State()
        env = {}
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg is not None:
            names.append("*" + a.vararg.arg)
        names += [x.arg for x in a.kwonlyargs]
        if a.kwarg is not None:
            names.append("**" + a.kwarg.arg)
        psyms = []
        for i, nm in enumerate(names):
            key = "$%d" % i
            if i == 0 and fi.kind == "method":
                key = "$self"
            s = T.Sym(key)
            if i == 0 and fi.kind == "class" and fi.cls is not None:
                s = T.mk("cls", fi.cls.qual)
            psyms.append(s)
            st.heap[key] = s
            env[nm.lstrip("*")] = Ref(key)
            if types and nm in types:
                self.types[s] = types[nm]
        if fi.kind == "method" and fi.cls is not None:
            self.types[T.Sym("$self")] = self.selftype or fi.cls.qual
        st.envs = [env]
        self.callstack.append(fi.qual)
        try:
            out = self.block(fi.node.body, st, fr)
        finally:
            self.callstack.pop()
        rets = []
        if out is not None:
            rets.append((out.pc, out, NONE))
        for x in fr.exits:
            rets.append((x.state.pc, x.state, x.value))
        res = Result()
        res.params = {}
        isgen = self.is_gen(fi.node)
        if not rets:
            res.value = T.mk("raise", "never")
            return res
        # deterministic order does not matter: guards are exclusive
        val = None
        roots = set()
        for g, s, v in rets:
            roots |= set(r for r in s.heap if r.startswith("$"))
        heap = {}
        ordered = rets
        def outcome(s, v):
            if isgen and not v.op == "raise":
                return s.heap.get("$yield", T.mk("list", ()))
            return v
        val = outcome(*ordered[-1][1:])
        for g, s, v in reversed(ordered[:-1]):
            val = T.ite(g, outcome(s, v), val)
        res.value = val
        for r in sorted(roots):
            dflt = T.mk("list", ()) if r in ("$io", "$yield") else T.Sym(r)

            def hv(s, v):
                if v.op == "raise":
                    return T.mk("raise", "state")
                t = s.heap.get(r)
                if t is None:
                    if r.startswith("$g:"):
                        return self.rootdefault(r, T.Sym(r))
                    return self.rootdefault(r, dflt)
                return t
            t = hv(*ordered[-1][1:])
            for g, s, v in reversed(ordered[:-1]):
                t = T.ite(g, hv(s, v), t)
            heap[r] = t
        res.heap = heap
        res.names = set(self.names)
        res.reasons = list(self.reasons)
        res.inlined = set(self.inlined)
        return res

    selftype = None
    dictlike = ()
    getters = {}

    def rootdefault(self, r, dflt):
        if r.startswith("$g:"):
            mn, _, nm = r[3:].rpartition(".")
            m = self.repo.modules.get(mn)
            if m is not None and nm in m.assigns:
                return self.modglobal(m, nm)
            return dflt
        if r.startswith("$c:"):
            cn, _, at = r[3:].rpartition(".")
            c = self.repo.cls(cn)
            if c is not None:
                fa = self.repo.find_attr(c, at)
                if fa is not None:
                    return self.classattr(fa[0], at, fa[1])
        return dflt


WRITERS = frozenset("""append extend insert update pop popitem setdefault
clear remove add discard sort reverse __setitem__ __delitem__""".split())
READERS = frozenset("""len sorted list dict set tuple enumerate zip range str
max min sum float int abs bool repr print isinstance map filter any all
iter next id type frozenset hasattr getattr""".split())


def stored_names(n):
    return set(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and
               isinstance(x.ctx, ast.Store))


def reads_name(e, nm):
    """does the expression read the local name (not a comprehension's)?"""
    if e is None:
        return False
    if isinstance(e, ast.Name):
        return e.id == nm and not isinstance(e.ctx, ast.Store)
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                      ast.DictComp)):
        own = set()
        for g in e.generators:
            own |= stored_names(g.target)
        if nm in own:
            return reads_name(e.generators[0].iter, nm)
    if isinstance(e, (ast.Lambda, ast.FunctionDef)):
        if nm in [x.arg for x in e.args.args]:
            return any(reads_name(x, nm) for x in e.args.defaults)
    return any(reads_name(x, nm) for x in ast.iter_child_nodes(e))


def read_before_set(stmts, nm):
    """(may some statement read the name before it is set, is it surely set
    where control falls out of the end)"""
    read = False
    for s in stmts:
        if isinstance(s, ast.If):
            if reads_name(s.test, nm):
                return True, False
            r1, w1 = read_before_set(s.body, nm)
            r2, w2 = read_before_set(s.orelse, nm)
            read = read or r1 or r2
            done = w1 and w2
        elif isinstance(s, (ast.For, ast.While)):
            if reads_name(s.iter if isinstance(s, ast.For) else s.test, nm):
                return True, False
            if not (isinstance(s, ast.For) and nm in stored_names(s.target)):
                read = read or read_before_set(s.body, nm)[0]
            r2, done = read_before_set(s.orelse, nm)
            read = read or r2
            if isinstance(s, ast.While) and isinstance(
                    s.test, ast.Constant) and s.test.value:
                done = False
        elif isinstance(s, ast.Try):
            r1, w1 = read_before_set(s.body, nm)
            r2, w2 = (False, w1) if w1 else read_before_set(s.orelse, nm)
            read = read or r1 or r2
            done = w1 or w2
            for h in s.handlers:
                if h.name == nm:
                    continue
                r3, w3 = read_before_set(h.body, nm)
                read = read or r3
                done = done and w3
            r4, w4 = read_before_set(s.finalbody, nm)
            read = read or (r4 and True)
            done = done or w4
        elif isinstance(s, ast.With):
            if any(reads_name(x.context_expr, nm) for x in s.items):
                return True, False
            if any(x.optional_vars is not None and
                   nm in stored_names(x.optional_vars) for x in s.items):
                done = True
            else:
                r1, done = read_before_set(s.body, nm)
                read = read or r1
        elif isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            if any(reads_name(x, nm) for x in ast.iter_child_nodes(s)):
                return True, False
            done = True
        elif isinstance(s, ast.AugAssign):
            if nm in stored_names(s.target) or reads_name(s.target, nm) or \
                    reads_name(s.value, nm):
                return True, False
            done = False
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            if reads_name(s.value, nm):
                return True, False
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            if any(reads_name(t, nm) for t in tg):
                return True, False
            done = s.value is not None and any(
                nm in stored_names(t) for t in tg)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            if s.name == nm:
                done = True
            elif reads_name(s, nm):
                return True, False
            else:
                done = False
        elif isinstance(s, ast.Delete):
            if any(isinstance(t, ast.Name) and t.id == nm or
                   reads_name(t, nm) for t in s.targets):
                return True, False
            done = False
        else:
            if reads_name(s, nm):
                return True, False
            done = False
        if read:
            return True, False
        if done:
            return False, True
    return False, False


def unmangled(name, cls):
    pre = "_%s__" % cls.lstrip("_")
    return "__" + name[len(pre):] if name.startswith(pre) else name


def mutable(v):
    return v.op in ("list", "dict", "set") or v.op not in (
        "const", "num", "str", "tuple", "fn", "cls", "ext", "mod")


def written_through(tree, kind, field):
    """names (or attributes) whose object some statement of the tree changes:
    an item or attribute stored or deleted, a changing method called, the
    object handed to a call that is not a plain reader"""
    out = set()

    def base(n):
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            if isinstance(n, kind):
                out.add(getattr(n, field))
            n = n.value
        if isinstance(n, kind):
            out.add(getattr(n, field))

    for n in ast.walk(tree):
        if isinstance(n, (ast.Subscript, ast.Attribute)) and \
                isinstance(n.ctx, (ast.Store, ast.Del)):
            base(n.value)
        elif isinstance(n, ast.AugAssign):
            base(n.target)
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in WRITERS:
                base(n.func.value)
            if isinstance(n.func, ast.Name) and n.func.id in READERS:
                continue
            for a in n.args + [k.value for k in n.keywords]:
                if isinstance(a, kind):
                    out.add(getattr(a, field))
    # through a local name bound to (an item of) the object
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.Lambda)):
            for v in changed_aliases(f):
                for x in carriers(v):
                    base(x)
    return out


def carriers(v):
    """the names and attributes an expression may hand on an item of"""
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)):
            yield x
        elif isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute):
                stack.append(x.func.value)
            elif isinstance(x.func, ast.Name) and x.func.id in (
                    "enumerate", "zip", "reversed", "iter", "list", "tuple",
                    "sorted"):
                stack += x.args
        elif isinstance(x, (ast.List, ast.Tuple, ast.Set)):
            stack += x.elts
        elif isinstance(x, ast.IfExp):
            stack += [x.body, x.orelse]
        elif isinstance(x, ast.BoolOp):
            stack += x.values
        elif isinstance(x, ast.Starred):
            stack.append(x.value)
        elif isinstance(x, ast.BinOp):
            stack += [x.left, x.right]


def changed_aliases(f):
    """what the local names of a function that it writes through are bound
    to"""
    if not hasattr(f, "_aliases"):
        bound = {}
        hot = set()

        def bind(t, v):
            if isinstance(t, ast.Name):
                bound.setdefault(t.id, []).append(v)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for i, x in enumerate(t.elts):
                    same = isinstance(v, (ast.Tuple, ast.List)) and \
                        len(v.elts) == len(t.elts)
                    bind(x, v.elts[i] if same else v)
            elif isinstance(t, ast.Starred):
                bind(t.value, v)

        def root(n):
            while isinstance(n, (ast.Subscript, ast.Attribute)):
                n = n.value
            if isinstance(n, ast.Name):
                hot.add(n.id)

        for n in ast.walk(f):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    bind(t, n.value)
            elif isinstance(n, ast.NamedExpr):
                bind(n.target, n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                bind(n.target, n.iter)
            if isinstance(n, (ast.Subscript, ast.Attribute)) and \
                    isinstance(n.ctx, (ast.Store, ast.Del)):
                root(n.value)
            elif isinstance(n, ast.AugAssign):
                root(n.target)
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and \
                        n.func.attr in WRITERS:
                    root(n.func.value)
                if isinstance(n.func, ast.Name) and n.func.id in READERS:
                    continue
                for a in n.args + [k.value for k in n.keywords]:
                    if isinstance(a, ast.Name):
                        hot.add(a.id)
        out, done = [], set()
        while hot - done:
            nm = (hot - done).pop()
            done.add(nm)
            for v in bound.get(nm, ()):
                out.append(v)
                for x in carriers(v):
                    root(x)
        f._aliases = out
    return f._aliases


def walk_own(node):
    """nodes of a function body without nested function bodies"""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.append(c)


def replace(t, old, new):
    """replace the exact subterm old by the leaf new"""
    memo = {}

    def rec(t, d=0):
        if t is old:
            return new
        if t in memo:
            return memo[t]
        if not T.children(t):
            r = t
        else:
            if any(k == "bv" for k, _ in T.free(t)):
                r = t
                r = T.rebuild(t, rec, d)
            else:
                r = T.rebuild(t, rec, d)
        memo[t] = r
        return r
    return rec(t)
