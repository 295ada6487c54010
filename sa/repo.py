"""Symbol tables of the repository: modules, imports, classes, functions."""
import ast
import os

ROOT = os.environ.get("XBOA_REPO", "/repo")


class FunctionInfo(object):
    def __init__(self, module, cls, node):
        self.module = module
        self.cls = cls
        self.node = node
        self.name = node.name
        self.decorators = [ast.unparse(d) for d in node.decorator_list]

    @property
    def qual(self):
        c = self.cls.name + "." if self.cls else ""
        return "%s:%s%s" % (self.module.name, c, self.name)

    @property
    def kind(self):
        if self.cls is None:
            return "function"
        if "classmethod" in self.decorators:
            return "class"
        if "staticmethod" in self.decorators:
            return "static"
        if self.cls.static_wrapped.get(self.name):
            return self.cls.static_wrapped[self.name]
        return "method"

    @property
    def where(self):
        real = self.module.wheres.get(self.name)
        if real:
            return "%s:%d" % real
        return "%s:%d" % (self.module.rel, getattr(self.node, "lineno", 0))

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]


class ClassInfo(object):
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.methods = {}
        self.attrs = {}       # name -> value node (class level assignments)
        self.static_wrapped = {}
        self.bases = []
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FunctionInfo(module, self, st)
                self.methods[mangle(st.name, self.name)] = fi
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        v = st.value
                        if isinstance(v, ast.Call) and \
                                isinstance(v.func, ast.Name) and \
                                v.func.id in ("staticmethod", "classmethod") \
                                and v.args and isinstance(v.args[0], ast.Name):
                            src = v.args[0].id
                            self.static_wrapped[src] = \
                                "static" if v.func.id == "staticmethod" \
                                else "class"
                            if t.id != src and mangle(src, self.name) in \
                                    self.methods:
                                self.methods[mangle(t.id, self.name)] = \
                                    self.methods[mangle(src, self.name)]
                        else:
                            self.attrs[mangle(t.id, self.name)] = v
                    elif isinstance(t, ast.Tuple):
                        pass
        for b in node.bases:
            self.bases.append(ast.unparse(b))
        # class attributes that class level code goes on changing
        self.dynamic = set()
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            for n in ast.walk(st):
                if isinstance(n, ast.AugAssign) and \
                        isinstance(n.target, ast.Name):
                    self.dynamic.add(mangle(n.target.id, self.name))
                elif isinstance(n, ast.Subscript) and \
                        isinstance(n.ctx, (ast.Store, ast.Del)) and \
                        isinstance(n.value, ast.Name):
                    self.dynamic.add(mangle(n.value.id, self.name))
                elif isinstance(n, ast.Call) and \
                        isinstance(n.func, ast.Attribute) and \
                        isinstance(n.func.value, ast.Name) and \
                        n.func.attr in ("append", "extend", "update",
                                        "insert", "pop", "remove"):
                    self.dynamic.add(mangle(n.func.value.id, self.name))

    @property
    def qual(self):
        return self.module.name + "." + self.name


def mangle(name, cls):
    if name.startswith("__") and not name.endswith("__") and cls:
        return "_" + cls.lstrip("_") + name
    return name


class ModuleInfo(object):
    def __init__(self, name, path, rel, is_pkg=False, source=None):
        self.name = name
        self.wheres = {}      # lowered name -> place in the C++ source
        self.failed = {}      # functions that could not be lowered
        self.path = path
        self.rel = rel
        self.is_pkg = is_pkg
        if source is None:
            with open(path, encoding="utf-8") as f:
                source = f.read()
        self.source = source
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(self.source, path)
        self.functions = {}
        self.classes = {}
        self.imports = {}     # local name -> dotted target
        self.stars = []       # modules star-imported
        self.assigns = {}     # name -> [value nodes]
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = FunctionInfo(self, None, st)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(self, st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = \
                            a.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom):
                base = self.resolve_from(st)
                for a in st.names:
                    if a.name == "*":
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = base + "." + a.name
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    self._target(t, st.value)
            elif isinstance(st, ast.AugAssign):
                self._target(st.target, st)
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                self._target(st.target, st.value)
            elif isinstance(st, (ast.If, ast.For, ast.While, ast.With)):
                if isinstance(st, ast.For):
                    self._target(st.target, st)
                self._scan(st.body)
                self._scan(getattr(st, "orelse", []))
            elif isinstance(st, ast.Try):
                self._scan(st.body)
                for h in st.handlers:
                    self._scan(h.body)
                self._scan(st.orelse)
                self._scan(st.finalbody)

    def _target(self, t, v):
        if isinstance(t, ast.Name):
            self.assigns.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self._target(x, v)

    def resolve_from(self, st):
        if not st.level:
            return st.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if st.level > 1:
            parts = parts[:-(st.level - 1)]
        return ".".join(parts + ([st.module] if st.module else []))


class Repo(object):
    def __init__(self, root=None, tests=False, overlay=None):
        self.root = root or ROOT
        overlay = overlay or {}
        self.modules = {}
        base = os.path.join(self.root, "xboa")
        self.errors = []
        for d, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            rel = os.path.relpath(d, self.root)
            if not tests and (rel.startswith("xboa/test")):
                continue
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                r = os.path.relpath(p, self.root)
                name = r[:-3].replace(os.sep, ".")
                pkg = False
                if name.endswith(".__init__"):
                    name = name[:-9]
                    pkg = True
                try:
                    self.modules[name] = ModuleInfo(name, p, r, pkg,
                                                    overlay.get(r))
                except SyntaxError as e:
                    self.errors.append("%s: %s" % (r, e))

        self.cxx_error = None
        self.add_core()

    def add_core(self):
        """the C++ core, lowered (see cxx.py)"""
        from . import cxx
        core = os.path.join(self.root, "xboa", "core")
        try:
            source, where, failed, losses, seen = cxx.lowered(self.root)
            m = ModuleInfo("cxx", core, "xboa/core", source=source)
        except (cxx.CxxError, SyntaxError, KeyError, IndexError,
                AssertionError, AttributeError, ValueError) as exc:
            self.cxx_error = "%s: %s" % (type(exc).__name__, exc)
            self.errors.append("xboa/core: " + self.cxx_error)
            return
        m.wheres.update(where)
        m.failed.update(failed)
        m.losses, m.seen = losses, seen
        self.modules["cxx"] = m

    def add_module(self, name, path):
        m = ModuleInfo(name, path, os.path.relpath(path, self.root)
                       if path.startswith(self.root) else path)
        self.modules[name] = m
        return m

    # ---- resolution
    def resolve(self, dotted, seen=None):
        """dotted absolute name -> ('module',m) / ('class',c) / ('func',f) /
        ('global', module, name) / ('ext', dotted)"""
        if seen is None:
            seen = set()
        if dotted in seen:
            return ("ext", dotted)
        seen.add(dotted)
        if dotted in self.modules:
            return ("module", self.modules[dotted])
        parts = dotted.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mname = ".".join(parts[:i])
            if mname in self.modules:
                r = self.member(self.modules[mname], parts[i], seen)
                for p in parts[i + 1:]:
                    r = self.sub(r, p, seen)
                return r
        return ("ext", dotted)

    def member(self, m, name, seen=None):
        if seen is None:
            seen = set()
        if name in m.functions:
            return ("func", m.functions[name])
        if name in m.classes:
            return ("class", m.classes[name])
        if m.name + "." + name in self.modules:
            # submodule; an import may shadow it
            if name in m.imports and name not in m.assigns:
                r = self.resolve(m.imports[name], seen)
                if r[0] != "ext":
                    return r
            return ("module", self.modules[m.name + "." + name])
        if name in m.assigns:
            return ("global", m, name)
        if name in m.imports:
            return self.resolve(m.imports[name], seen)
        for s in m.stars:
            if s in self.modules:
                r = self.member(self.modules[s], name, seen)
                if r[0] != "missing":
                    return r
        return ("missing", m, name)

    def sub(self, r, name, seen=None):
        if r[0] == "module":
            return self.member(r[1], name, seen)
        if r[0] == "class":
            c = r[1]
            f = self.find_method(c, name)
            if f:
                return ("func", f)
            return ("classattr", c, name)
        if r[0] == "ext":
            return ("ext", r[1] + "." + name)
        return ("unknown",)

    def bases(self, c):
        out = []
        for b in c.bases:
            r = self.lookup_expr(c.module, b)
            if r and r[0] == "class":
                out.append(r[1])
        return out

    def lookup_expr(self, m, text):
        parts = text.split(".")
        r = self.member(m, parts[0])
        for p in parts[1:]:
            r = self.sub(r, p)
        return r

    def mro(self, c, seen=None):
        seen = seen if seen is not None else []
        if c in seen:
            return seen
        seen.append(c)
        for b in self.bases(c):
            self.mro(b, seen)
        return seen

    def find_method(self, c, name):
        for k in self.mro(c):
            n = mangle(name, k.name) if name.startswith("__") and \
                not name.endswith("__") and k is c else name
            if n in k.methods:
                return k.methods[n]
            if name in k.methods:
                return k.methods[name]
        return None

    def find_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def func(self, qual):
        """'module:Class.method' or 'module:function'"""
        mod, _, rest = qual.partition(":")
        m = self.modules.get(mod)
        if m is None:
            return None
        if "." in rest:
            c, _, f = rest.partition(".")
            ci = m.classes.get(c)
            if ci is None:
                return None
            return self.find_method(ci, mangle(f, c))
        return m.functions.get(rest)

    def cls(self, dotted):
        mod, _, c = dotted.rpartition(".")
        m = self.modules.get(mod)
        return m.classes.get(c) if m else None

    def all_functions(self):
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                done = set()
                for f in c.methods.values():
                    if id(f) not in done:
                        done.add(id(f))
                        yield f
