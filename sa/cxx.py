"""The C++ core, read from clang's typed syntax tree.

clang parses every translation unit of xboa/core (-fsyntax-only, nothing is
generated or run) and prints its tree; `Lower` turns each function into an
equivalent small Python function, so that the dataflow of pyeval decides both
halves of the package with one engine.  The lowering keeps what the code does
and drops how it is written:

 * pointers to records are references; a pointer to anything else is a
   one-element box `p[0]`, and a variable whose address is taken is a box
 * SmartPointer is transparent (its own members are lowered separately)
 * vector and map become list and dict; iterators over maps become keys
 * Py_INCREF and Py_DECREF count in the global PYREF, an integer in which
   the references of each object x are the terms capi.ref(x)
 * PyErr_SetString(E, message) sets the global PYERR to the name of E
 * reference counting is dropped here: sa/cxxrules.py decides it
"""
import concurrent.futures
import json
import os
import re
import subprocess
import sysconfig

UNITS = ["cpplib/Hitcore.cc", "cpplib/WeightContext.cc",
         "cpplib/Bunchcore.cc", "pylib/PyHitcore.cc", "pylib/PyBunchcore.cc",
         "pylib/PyWeightContext.cc"]
MODULE = "cxx"
FUNCTIONS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl",
             "CXXDestructorDecl", "CXXConversionDecl")


class CxxError(Exception):
    """the sources could not be read"""


class Unsupported(Exception):
    """a construct the lowering has no rule for"""


# ---------------------------------------------------------------- the tree
def include_dir():
    for exe in ("/opt/venv/bin/python", "python3"):
        try:
            out = subprocess.run(
                [exe, "-c", "import sysconfig;"
                 "print(sysconfig.get_path('include'))"],
                capture_output=True, text=True, timeout=60).stdout.strip()
        except OSError:
            continue
        if out and os.path.exists(os.path.join(out, "Python.h")):
            return out
    return sysconfig.get_path("include")


def dump(core, unit, include):
    """-> list of JSON documents, with 'file' and 'line' on declarations"""
    cmd = ["clang++", "-x", "c++", "-std=c++17", "-fsyntax-only", "-w",
           "-I" + core, "-I" + include, "-Xclang", "-ast-dump=json",
           "-Xclang", "-ast-dump-filter=xboa", os.path.join(core, unit)]
    try:
        run = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    except (OSError, subprocess.TimeoutExpired) as exc:
        raise CxxError("clang could not be run on %s: %s" % (unit, exc))
    if run.returncode != 0:
        raise CxxError("clang rejects %s: %s" % (unit, run.stderr[-400:]))
    text, decoder, pos, docs = run.stdout, json.JSONDecoder(), 0, []
    while pos < len(text):
        while pos < len(text) and text[pos] in " \n\r\t":
            pos += 1
        if pos >= len(text):
            break
        if text[pos] != "{":
            pos = text.index("\n", pos) + 1
            continue
        doc, pos = decoder.raw_decode(text, pos)
        docs.append(doc)
    for doc in docs:
        place(doc, core, {"file": None, "line": 0})
    return docs


def place(node, core, state):
    """resolves clang's incremental locations"""
    for key in ("loc", "range"):
        loc = node.get(key)
        if not isinstance(loc, dict):
            continue
        parts = [loc] if key == "loc" else [loc.get("begin") or {},
                                            loc.get("end") or {}]
        for index, part in enumerate(parts):
            subs = [part.get("spellingLoc"), part.get("expansionLoc")]
            for sub in ([s for s in subs if s] or [part]):
                if sub.get("file"):
                    state["file"] = sub["file"]
                if sub.get("line"):
                    state["line"] = sub["line"]
            if "line_" not in node and (part.get("offset") is not None or
                                        any(subs)):
                node["line_"] = state["line"]
                node["file_"] = state["file"]
    for child in node.get("inner", ()):
        if isinstance(child, dict) and child:
            place(child, core, state)


def load(root):
    """-> [(unit, docs)]"""
    core = os.path.join(root, "xboa", "core")
    units = [u for u in UNITS if os.path.exists(os.path.join(core, u))]
    if not units:
        raise CxxError("no C++ sources under " + core)
    include = include_dir()
    with concurrent.futures.ThreadPoolExecutor(6) as pool:
        return list(zip(units, pool.map(
            lambda u: dump(core, u, include), units)))


# ------------------------------------------------------------------- types
SCALARS = set("int long short char bool double float unsigned size_t "
              "Py_ssize_t void ssize_t".split()) | {
    "unsigned int", "unsigned long", "long long", "unsigned long long",
    "unsigned char", "long double", "std::size_t", "signed char"}
NARROW = {"char", "signed char", "unsigned char", "short", "unsigned short",
          "int8_t", "uint8_t", "int16_t", "uint16_t"}
RECORDS = {}


def strip(t):
    t = t.strip()
    t = re.sub(r"\b(const|volatile|class|struct|typename|enum)\s+", "", t)
    t = re.sub(r"\s*\bconst$", "", t).strip()
    t = re.sub(r"(::)?\bxboa::core::(utils::)?", "", t)
    t = re.sub(r"\bstd::(__cxx11::)?", "", t)
    return t.strip()


def qual(node):
    t = node.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType", "")


def is_const(node_or_type):
    t = node_or_type if isinstance(node_or_type, str) else qual(node_or_type)
    return bool(re.match(r"\s*const\b", t))


def category(t):
    t = strip(t)
    if t.endswith("&&"):
        return category(t[:-2])
    if t.endswith("&"):
        return category(t[:-1])
    if t.endswith("*"):
        return "ptr"
    if t.endswith("]"):
        return "array"
    if t.startswith(("basic_string<", "string")) and "::" not in t:
        return "str"
    if "_Rb_tree" in t or re.match(r"map<.*>::(const_)?iterator$", t):
        return "mapiter"
    if "__normal_iterator" in t or \
            re.match(r"vector<.*>::(const_)?iterator$", t):
        return "veciter"
    if t.startswith("vector<"):
        return "vec"
    if t.startswith("map<"):
        return "map"
    if t.startswith("pair<"):
        return "pair"
    if t.startswith("SmartPointer<"):
        return "smart"
    if re.search(r"::\s*\*\)", t):
        return "memfn"
    if "(*)" in t:
        return "fnptr"
    if t in SCALARS:
        return "scalar"
    return "rec"


def pointee(t):
    t = strip(t)
    t = re.sub(r"(&+)$", "", t).strip()
    if t.startswith("typeof"):
        return t[:-1].strip()
    assert t.endswith("*"), t
    return strip(t[:-1])


def boxed(t):
    """whether a pointer of type t is a box"""
    if category(t) != "ptr":
        return False
    inner = pointee(t)
    if inner.startswith("typeof"):
        return True
    cat = category(inner)
    if cat == "scalar":
        return inner not in ("char", "void")
    return cat in ("str", "vec", "map", "ptr", "smart", "memfn", "fnptr")


def element(t):
    """type arguments of vector<..> or map<..>"""
    t = strip(t)
    t = re.sub(r"(&+)$", "", t).strip()
    inside = t[t.index("<") + 1:t.rindex(">")]
    out, depth, cur = [], 0, ""
    for char in inside:
        depth += char in "<(" and 1 or 0
        depth -= char in ">)" and 1 or 0
        if char == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += char
    out.append(cur.strip())
    return out


def default(t):
    cat = category(t)
    return {"scalar": "0", "str": "''", "vec": "[]", "map": "{}"}.get(
        cat, "None")


def short(t):
    """a short name for a parameter type, for overloads"""
    t = strip(t)
    t = re.sub(r"[&\s]", "", t)
    t = t.replace("*", "P")
    t = re.sub(r"basic_string<char>", "string", t)
    return re.sub(r"\W+", "_", t).strip("_")


# ------------------------------------------------------- index of functions
class Index:
    """what the translation units declare and define"""

    def __init__(self, units):
        self.names = {}      # declaration id -> lowered name (per unit)
        self.decl = {}       # (unit, id) -> node
        self.owner = {}      # (unit, id) -> class or namespace name
        self.functions = {}  # base name -> [(unit, node, owner, suffix)]
        self.records = {}    # class name -> {fields, value, line}
        self.globals = {}    # lowered name -> (unit, node)
        self.fnvars = set()  # lowered names of function-pointer variables
        self.classes = set()
        self.patterns = set()
        for unit, docs in units:
            for doc in docs:
                self.scan(unit, doc, None, "")
        self.less = {o for name, defs in self.functions.items()
                     for (_u, n, o, _s) in defs if n["name"] == "operator<"}

    def scan(self, unit, node, owner, suffix):
        kind = node.get("kind")
        name = node.get("name", "")
        ident = (unit, node.get("id"))
        if node.get("kind"):
            self.decl[ident] = node
        parent = node.get("parentDeclContextId")
        if parent and (unit, parent) in self.decl:
            target = self.decl[(unit, parent)]
            if target.get("kind") != "TranslationUnitDecl" and \
                    target.get("name"):
                owner = self.scope(unit, target, owner)
        if parent and (unit, parent) in self.patterns:
            return
        if kind in FUNCTIONS:
            self.owner[ident] = owner
            if node.get("isImplicit") or "previousDecl" in node and \
                    (unit, node["previousDecl"]) in self.owner:
                if not node.get("isImplicit"):
                    owner = self.owner[(unit, node["previousDecl"])] or owner
                    self.owner[ident] = owner
            self.add(unit, node, owner, suffix)
            for child in node.get("inner", ()):
                if child.get("kind") == "CompoundStmt":
                    self.scan_body(unit, child)
            return
        if kind == "ClassTemplateDecl" or kind == "FunctionTemplateDecl":
            for child in node.get("inner", ()):
                ck = child.get("kind")
                if ck == "ClassTemplateSpecializationDecl":
                    self.scan(unit, child, owner, suffix)
                elif ck == "CXXRecordDecl":
                    self.decl[(unit, child["id"])] = child
                    self.patterns.add((unit, child["id"]))
                elif ck in FUNCTIONS and any(
                        c.get("kind") == "TemplateArgument"
                        for c in child.get("inner", ())):
                    args = [c for c in child["inner"]
                            if c.get("kind") == "TemplateArgument"]
                    self.owner[(unit, child["id"])] = owner
                    self.decl[(unit, child["id"])] = child
                    self.add(unit, child, owner, "__" + "_".join(
                        self.argname(a) for a in args))
                    for sub in child["inner"]:
                        if sub.get("kind") == "CompoundStmt":
                            self.scan_body(unit, sub)
            return
        if kind in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            sub = ""
            if kind == "ClassTemplateSpecializationDecl":
                sub = "__" + "_".join(
                    self.argname(a) for a in node.get("inner", ())
                    if a.get("kind") == "TemplateArgument")
            fields = []
            for child in node.get("inner", ()):
                if child.get("kind") == "FieldDecl":
                    fields.append(child)
            if node.get("completeDefinition"):
                self.classes.add(name)
                self.records.setdefault(name, (unit, node, fields))
            for child in node.get("inner", ()):
                if child.get("kind"):
                    self.scan(unit, child, name, sub)
            return
        if kind == "NamespaceDecl":
            inner = owner if name in ("xboa", "core", "utils", "C_API", "") \
                else name
            for child in node.get("inner", ()):
                if child.get("kind"):
                    self.scan(unit, child, inner, suffix)
            return
        if kind == "LinkageSpecDecl":
            for child in node.get("inner", ()):
                if child.get("kind"):
                    self.scan(unit, child, owner, suffix)
            return
        if kind == "VarDecl":
            if "previousDecl" in node:
                owner = self.owner.get((unit, node["previousDecl"]), owner)
            self.owner[ident] = owner
            low = "_".join(x for x in (owner, name) if x) + suffix
            if not suffix and node.get("previousDecl"):
                # the definition of a static member of a template instance
                low = self.names.get((unit, node["previousDecl"]), low)
            if category(qual(node)) == "fnptr":
                self.fnvars.add(low)
            if self.initial(node) is not None or low not in self.globals:
                if not (low in self.globals and
                        self.initial(self.globals[low][1]) is not None):
                    self.globals[low] = (unit, node)
            self.names[ident] = low
            return
        for child in node.get("inner", ()):
            if isinstance(child, dict) and child.get("kind"):
                self.scan(unit, child, owner, suffix)

    def scan_body(self, unit, node):
        stack = [node]
        while stack:
            cur = stack.pop()
            if cur.get("id"):
                self.decl[(unit, cur["id"])] = cur
            stack.extend(c for c in cur.get("inner", ()) if c)

    @staticmethod
    def initial(node):
        kids = [c for c in node.get("inner", ())
                if not c.get("kind", "").endswith(("Comment", "Attr"))]
        return kids[-1] if kids else None

    @staticmethod
    def argname(arg):
        return short(arg.get("type", {}).get("qualType", "x")).split(
            "WeightContext_")[-1] or "x"

    def scope(self, unit, target, owner):
        name = target.get("name")
        if target.get("kind") == "NamespaceDecl" and \
                name in ("xboa", "core", "utils", "C_API"):
            if name == "C_API":
                return owner
            return owner if name != "core" else owner
        return name

    def add(self, unit, node, owner, suffix):
        name = node["name"]
        kind = node["kind"]
        if kind == "CXXConstructorDecl":
            name = "new"
        elif kind == "CXXDestructorDecl":
            name = "del"
        name = {"operator=": "assign", "operator<": "less",
                "operator*": "deref", "operator->": "arrow",
                "operator==": "eq"}.get(name, re.sub(r"\W", "_", name))
        base = "_".join(x for x in (owner, name) if x)
        self.names[(unit, node["id"])] = (base, suffix)
        has_body = any(c.get("kind") == "CompoundStmt"
                       for c in node.get("inner", ()))
        if node.get("isImplicit"):
            return
        self.functions.setdefault(base, []).append(
            (unit, node, owner, suffix)) if has_body else None

    def finish(self):
        """-> {lowered name: (unit, node, owner)}; overloads and template
        instantiations get suffixes when there is more than one"""
        out = {}
        self.final = {}
        names = reviewed_names()
        for base, defs in self.functions.items():
            byparams = {}
            for unit, node, owner, suffix in defs:
                params = tuple(short(qual(p)) for p in node.get("inner", ())
                               if p.get("kind") == "ParmVarDecl")
                byparams.setdefault((suffix, params), []).append(
                    (unit, node, owner))
            for (suffix, params), entries in byparams.items():
                low = base + suffix
                known = names.get(low)
                rivals = [p for (s, p) in byparams if s == suffix]
                if known is None and len(rivals) > 1 or \
                        known is not None and list(params) != known and \
                        (known == ["*"] or len(rivals) > 1):
                    low += "__" + "_".join(params)
                if private(low):
                    low = "_" + low
                out.setdefault(low, entries[0])
                self.final[(base, suffix, params)] = low
        return out

    def lookup(self, unit, ident):
        """lowered name of a function declaration"""
        key = (unit, ident)
        if key not in self.names:
            return None
        entry = self.names[key]
        if isinstance(entry, str):
            return entry
        base, suffix = entry
        node = self.decl.get(key)
        params = tuple(short(qual(p)) for p in node.get("inner", ())
                       if p.get("kind") == "ParmVarDecl")
        return self.final.get((base, suffix, params))


def reviewed_names():
    """base name -> parameter types of the function that has it without a
    suffix; ["*"] when every overload carries one"""
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                        "cxx_names.json")
    if not os.path.exists(path):
        return {}
    with open(path) as handle:
        return json.load(handle)


PUBLIC = re.compile(
    r"(Hitcore|Bunchcore|WeightContext|HitId|SmartPointer|PythonComparator|"
    r"Add|Subtract|Multiply|Divide|Not)_(?!initialise|bunch_weight|"
    r"get_index_by_power_recurse)|"
    r"PyHitcore_(get|set|get_variables|set_variables|clear_global_weights|"
    r"setWeightContext__PyObjectP_PyObjectP|getWeightContext|dump_memory|"
    r"_init|_alloc|_free|_richcompare|PyInit_\w+|create_empty_hitcore|"
    r"get_hitcore|set_hitcore|check|import_PyHitcore)$|"
    r"PyBunchcore_(set_item|get_item|del_item|length|moment|"
    r"covariance_matrix|cut_double|moment_tensor|index_by_power|"
    r"sequence_length|init|alloc|dealloc|PyInit_\w+|create_empty_bunchcore|"
    r"get_bunchcore|set_bunchcore)$|"
    r"PyWeightContext_(getDefaultWeight|setDefaultWeight|getWeight|setWeight|"
    r"printAddress|_init|_alloc|_free|richCompare|PyInit_\w+|"
    r"create_empty_weightcontext|is_PyWeightContext|import_PyWeightContext|"
    r"binary_operator__\w+|unary_operator__\w+)$")


def private(low):
    """functions the outside does not see: free to change with the callers"""
    return PUBLIC.match(low) is None


# -------------------------------------------------------------- expressions
PASS = ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr",
        "CXXBindTemporaryExpr", "ConstantExpr", "CXXFunctionalCastExpr",
        "CXXReinterpretCastExpr", "CXXConstCastExpr", "CStyleCastExpr",
        "CXXStaticCastExpr", "ImplicitCastExpr", "CXXDynamicCastExpr",
        "SubstNonTypeTemplateParmExpr")
CONST = {"_Py_NoneStruct": "capi.PyNone", "_Py_TrueStruct": "capi.PyTrue",
         "_Py_FalseStruct": "capi.PyFalse"}
COUNTS = {"Py_INCREF": "+", "Py_XINCREF": "+", "Py_DECREF": "-",
          "Py_XDECREF": "-"}
AMBIGUOUS = {"PyFloat_AsDouble", "PyLong_AsLong", "PyLong_AsSsize_t",
             "PyLong_AsLongLong", "PyLong_AsSize_t"}
MATH = {"fabs": "abs", "sqrt": "math.sqrt", "pow": "math.pow", "abs": "abs",
        "sin": "math.sin", "cos": "math.cos", "exp": "math.exp",
        "log": "math.log", "max": "max", "min": "min"}
FORMAT = re.compile(r"[a-zA-Z][*#!]?|\|")


def kids(node):
    return [c for c in node.get("inner", ())
            if c.get("kind", "x") and
            not c.get("kind", "").endswith(("Comment", "Attr"))]


def peel(node):
    while node.get("kind") in PASS and kids(node):
        node = kids(node)[0]
    return node


class Lower:
    def __init__(self, index, unit, node, owner, suffix=""):
        self.index, self.unit, self.node, self.owner = \
            index, unit, node, owner
        self.suffix = suffix
        self.lines = []
        self.pending = []    # API calls that may leave an error behind
        self.depth = 1
        self.vars = {}       # declaration id -> python name
        self.used = {}
        self.boxes = set()   # ids of variables that are boxes
        self.iters = {}      # iterator id -> map text
        self.veciters = {}   # iterator id -> vector text
        self.steps = []      # what `continue` still has to do, per loop
        self.macros = {}     # reference id -> lvalue text
        self.globals = set()
        self.statics = set()
        self.counter = 0

    # ----- small helpers
    def emit(self, text):
        pending, self.pending = self.pending, []
        late = ["PYERR = capi.api_error(%r, %s, PYERR)" % (
            name, ", ".join(args)) for name, args in pending]
        if late:
            self.globals.add("PYERR")
        if re.match(r"(if|elif|while|for|return|raise)\b", text):
            texts = late + [text]
        else:
            texts = [text] + late
        self.lines.extend("    " * self.depth + t for t in texts)

    def fresh(self, base):
        base = re.sub(r"\W", "_", base) or "tmp"
        if base in ("in", "is", "from", "def", "class", "lambda", "not",
                    "self", "capi", "math", "len", "list", "range", "dict",
                    "abs", "type", "print", "None", "PYERR"):
            base += "_"
        n = self.used.get(base, 0) + 1
        self.used[base] = n
        return base if n == 1 else "%s_%d" % (base, n)

    def ref(self, node):
        return node.get("referencedDecl") or {}

    # ----- the function
    def function(self, name):
        node = self.node
        params, copies = [], []
        kind = node["kind"]
        method = kind in ("CXXMethodDecl", "CXXDestructorDecl") and \
            node.get("storageClass") != "static" and not self.static()
        value = self.owner in self.index.less
        self.value_self = value
        body = [c for c in node["inner"] if c.get("kind") == "CompoundStmt"]
        self.find_addressed(body[0] if body else {})
        for child in node.get("inner", ()):
            if child.get("kind") != "ParmVarDecl":
                continue
            pname = self.fresh(child.get("name") or "arg")
            self.vars[child["id"]] = pname
            params.append(pname)
            t = child["type"].get("desugaredQualType") or \
                child["type"]["qualType"]
            cat = category(t)
            isref = t.rstrip().endswith("&")
            if isref and not is_const(t) and cat in ("scalar", "str", "ptr"):
                self.boxes.add(child["id"])
            elif child["id"] in self.addressed:
                copies.append("%s = [%s]" % (pname, pname))
                self.boxes.add(child["id"])
            elif not isref and cat in ("vec", "map") and \
                    child["id"] in self.mutated:
                copies.append("%s = %s" % (pname, self.copy(pname, t)))
        if method:
            params.insert(0, "self")
        if kind == "CXXConstructorDecl":
            self.constructor(body)
        else:
            for text in copies:
                self.emit(text)
            for stmt in kids(body[0]):
                self.stmt(stmt)
        if not self.lines:
            self.emit("pass")
        heads = []
        names = sorted(self.globals)
        if names:
            heads.append("    global " + ", ".join(names))
        return "\n".join(["def %s(%s):" % (name, ", ".join(params))] +
                         heads + self.lines)

    def static(self):
        prev = self.node.get("previousDecl")
        while prev:
            decl = self.index.decl.get((self.unit, prev), {})
            if decl.get("storageClass") == "static":
                return True
            prev = decl.get("previousDecl")
        return False

    def find_addressed(self, body):
        """variables whose address is taken, and those changed in place"""
        self.addressed, self.mutated = set(), set()
        self.escaped = set()     # address handed out for writing
        readonly = set()
        stack = [body]
        while stack:
            n = stack.pop()
            k = n.get("kind")
            if k == "ImplicitCastExpr" and len(kids(n)) == 1 and \
                    qual(n).startswith("const ") and \
                    category(qual(n)) == "ptr":
                readonly.add(peel(kids(n)[0]).get("id"))
            if k == "UnaryOperator" and n.get("opcode") == "&":
                target = peel(kids(n)[0])
                r = self.ref(target)
                if n.get("id") not in readonly:
                    self.escaped.add(r.get("id"))
                if r.get("kind") in ("VarDecl", "ParmVarDecl"):
                    decl = self.index.decl.get((self.unit, r["id"]), r)
                    cat = category(qual(decl) or qual(r))
                    if cat in ("scalar", "str", "vec", "map", "ptr",
                               "memfn", "fnptr"):
                        self.addressed.add(r["id"])
            if k in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr"):
                self.reference_args(n)
            if k in ("BinaryOperator", "CompoundAssignOperator",
                     "CXXOperatorCallExpr", "CXXMemberCallExpr"):
                self.mark_mutated(n)
            stack.extend(c for c in n.get("inner", ())
                         if isinstance(c, dict) and c)

    def reference_args(self, n):
        """scalar variables handed to non-const reference parameters"""
        callee = self.callee_decl(n)
        if callee is None:
            return
        params = [p for p in callee.get("inner", ())
                  if p.get("kind") == "ParmVarDecl"]
        args = kids(n)[1:] if n["kind"] != "CXXConstructExpr" else kids(n)
        for p, a in zip(params, args):
            t = qual(p)
            if t.rstrip().endswith("&") and not is_const(t) and \
                    category(t) in ("scalar", "str", "ptr"):
                r = self.ref(peel(a))
                if r.get("kind") in ("VarDecl", "ParmVarDecl"):
                    self.addressed.add(r["id"])

    def callee_decl(self, n):
        head = peel(kids(n)[0]) if kids(n) else {}
        if n["kind"] == "CXXConstructExpr":
            return None
        if head.get("kind") == "MemberExpr":
            return self.index.decl.get(
                (self.unit, head.get("referencedMemberDecl")))
        return self.index.decl.get((self.unit, self.ref(head).get("id")))

    def mark_mutated(self, n):
        k = n["kind"]
        target = None
        if k == "CXXMemberCallExpr":
            head = peel(kids(n)[0])
            if head.get("kind") == "MemberExpr" and head.get("name") in (
                    "push_back", "insert", "erase", "clear", "resize",
                    "pop_back", "assign", "swap"):
                target = kids(head)[0] if kids(head) else None
        elif k == "CXXOperatorCallExpr":
            fn = self.ref(peel(kids(n)[0])).get("name")
            if fn in ("operator=", "operator+="):
                target = kids(n)[1]
        elif n.get("opcode", "").endswith("=") and n.get("opcode") not in (
                "==", "!=", "<=", ">="):
            target = kids(n)[0]
        while target is not None:
            target = peel(target)
            if target.get("kind") == "CXXOperatorCallExpr":
                target = kids(target)[1]
            elif target.get("kind") in ("ArraySubscriptExpr", "MemberExpr",
                                        "CXXMemberCallExpr") and \
                    kids(target):
                target = kids(target)[0]
            else:
                break
        if target is not None:
            r = self.ref(target)
            if r.get("id"):
                self.mutated.add(r["id"])

    def constructor(self, body):
        index = self.index
        value = self.owner in index.less
        fields = index.records.get(self.owner, (None, None, []))[2]
        inits = {}
        for init in self.node.get("inner", ()):
            if init.get("kind") == "CXXCtorInitializer" and \
                    init.get("anyInit"):
                inits[init["anyInit"].get("name")] = init
        texts = []
        for field in fields:
            init = inits.get(field["name"])
            sub = kids(init) if init else []
            t = field["type"].get("desugaredQualType") or \
                field["type"]["qualType"]
            if sub and sub[0].get("kind") == "CXXDefaultInitExpr":
                sub = []
            if sub:
                if sub[0].get("kind") == "ImplicitValueInitExpr":
                    text = default(t)
                else:
                    text = self.value(sub[0], t)
            else:
                text = self.field_default(field, t)
            texts.append((field["name"], text))
        if value:
            self.fields = {}
            for fname, text in texts:
                low = self.fresh("field_" + fname)
                self.fields[fname] = low
                self.emit("%s = %s" % (low, text))
            for stmt in kids(body[0]):
                self.stmt(stmt)
            self.emit("return (%s,)" % ", ".join(
                self.fields[f["name"]] for f in fields))
            return
        self.emit("self = %s()" % self.owner)
        for fname, text in texts:
            if text is not None:
                self.emit("self.%s = %s" % (fname, text))
        self.returns = "self"
        for stmt in kids(body[0]):
            self.stmt(stmt)
        self.emit("return self")

    def field_default(self, field, t):
        init = [c for c in kids(field)]
        if init:
            return self.value(init[-1], t)
        cat = category(t)
        return {"vec": "[]", "map": "{}", "str": "''",
                "smart": "None"}.get(cat)

    # ----- values
    def copy(self, text, t):
        cat = category(t)
        if cat == "map":
            return "dict(%s)" % text
        if cat == "vec":
            if category(element(t)[0]) in ("vec", "map"):
                return "[%s for row in %s]" % (
                    self.copy("row", element(t)[0]), text)
            return "list(%s)" % text
        return text

    def value(self, node, t=None):
        """the value of an initialiser or argument; containers and records
        are copied when they come from an lvalue"""
        inner = node
        while inner.get("kind") in ("ExprWithCleanups", "ParenExpr",
                                    "MaterializeTemporaryExpr",
                                    "CXXBindTemporaryExpr"):
            inner = kids(inner)[0]
        return self.expr(inner)

    def is_lvalue(self, node):
        return node.get("valueCategory") == "lvalue"

    def expr(self, node):
        kind = node.get("kind")
        method = getattr(self, "x_" + kind, None)
        if method is None:
            raise Unsupported("expression %s" % kind)
        return method(node)

    def cond(self, node):
        return self.expr(node)

    # leaves
    def x_IntegerLiteral(self, n):
        return str(n["value"])

    def x_FloatingLiteral(self, n):
        text = str(n["value"])
        try:
            return repr(float(text))
        except ValueError:
            raise Unsupported("float " + text)

    def x_CharacterLiteral(self, n):
        return repr(chr(n["value"]))

    def x_StringLiteral(self, n):
        return n["value"]

    def x_CXXBoolLiteralExpr(self, n):
        return "True" if n["value"] else "False"

    def x_GNUNullExpr(self, n):
        return "None"
    x_CXXNullPtrLiteralExpr = x_GNUNullExpr

    def x_ImplicitValueInitExpr(self, n):
        return default(qual(n))

    def x_CXXScalarValueInitExpr(self, n):
        return default(qual(n))

    def x_CXXThisExpr(self, n):
        return "self"

    def x_UnaryExprOrTypeTraitExpr(self, n):
        return "capi.sizeof"

    # casts
    def x_ImplicitCastExpr(self, n):
        return self.cast(n)
    x_CStyleCastExpr = x_CXXReinterpretCastExpr = x_ImplicitCastExpr
    x_CXXStaticCastExpr = x_CXXConstCastExpr = x_ImplicitCastExpr
    x_CXXFunctionalCastExpr = x_ImplicitCastExpr

    def cast(self, n):
        sub = kids(n)[0]
        ck = n.get("castKind")
        if ck in ("NullToPointer", "NullToMemberPointer"):
            return "None"
        if ck == "FloatingToIntegral":
            return "int(%s)" % self.expr(sub)
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            return "(%s != 0)" % self.expr(sub)
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            return "(%s is not None)" % self.expr(sub)
        if ck == "IntegralToFloating":
            return self.expr(sub)
        return self.expr(sub)

    def pass_(self, n):
        return self.expr(kids(n)[0])
    x_ParenExpr = x_ExprWithCleanups = x_MaterializeTemporaryExpr = pass_
    x_CXXBindTemporaryExpr = x_ConstantExpr = pass_
    x_SubstNonTypeTemplateParmExpr = pass_

    def x_CXXDefaultArgExpr(self, n):
        if kids(n):
            return self.expr(kids(n)[0])
        return "None"

    # names
    def x_DeclRefExpr(self, n):
        r = self.ref(n)
        kind, name, ident = r.get("kind"), r.get("name"), r.get("id")
        if ident in self.macros:
            return self.macros[ident]
        if ident in self.vars:
            text = self.vars[ident]
            return text + "[0]" if ident in self.boxes else text
        if kind in FUNCTIONS:
            low = self.index.lookup(self.unit, ident)
            if low is None:
                entry = self.index.names.get((self.unit, ident))
                if isinstance(entry, tuple):
                    low = entry[0] + entry[1]
            return low or "capi." + re.sub(r"\W", "_", name)
        if kind == "EnumConstantDecl":
            return "capi." + name
        if kind == "VarDecl":
            if name in CONST:
                return CONST[name]
            if name.startswith("PyExc_"):
                return repr(name[6:])
            low = self.index.names.get((self.unit, ident))
            if isinstance(low, str):
                if low in self.index.fnvars:
                    return low + "_ptr"
                return low
            return "capi." + name
        raise Unsupported("name %s %s" % (kind, name))

    def x_MemberExpr(self, n):
        base = kids(n)[0] if kids(n) else None
        name = n.get("name", "")
        if base is None:
            raise Unsupported("member without base")
        inner = peel(base)
        owner_id = n.get("referencedMemberDecl")
        decl = self.index.decl.get((self.unit, owner_id), {})
        if decl.get("kind") == "VarDecl":
            return self.x_DeclRefExpr({"referencedDecl": decl})
        # map iterators: it->first, it->second
        it = self.iterator(inner)
        if it is not None:
            key, table = it
            if name == "first":
                return key
            if name == "second":
                return "%s[%s]" % (table, key)
            raise Unsupported("iterator member " + name)
        text = self.deref(base) if n.get("isArrow") else self.expr(base)
        t = strip(qual(base)).rstrip("*& ").strip()
        if inner.get("kind") == "CXXThisExpr" and self.value_self:
            if hasattr(self, "fields"):
                return self.fields[name]
            return "self[%d]" % self.field_index(self.owner, name)
        cls = t.split("::")[-1]
        if cls in self.index.less:
            return "%s[%d]" % (text, self.field_index(cls, name))
        return "%s.%s" % (text, name)

    def field_index(self, cls, name):
        fields = self.index.records[cls][2]
        for i, f in enumerate(fields):
            if f["name"] == name:
                return i
        raise Unsupported("field %s.%s" % (cls, name))

    def deref(self, node):
        """the object an arrow expression goes to"""
        text = self.expr(node)
        t = qual(node)
        inner = peel(node)
        if inner.get("kind") == "CXXOperatorCallExpr" and \
                category(qual(kids(inner)[1])) == "veciter":
            return text
        if category(t) == "ptr" and boxed(t):
            return text + "[0]"
        return text

    def iterator(self, node):
        """(key text, map text) if the node denotes a map iterator's target:
        `it`, `*it` or `it.operator->()`"""
        node = peel(node)
        if node.get("kind") == "CXXOperatorCallExpr":
            fn = self.ref(peel(kids(node)[0])).get("name")
            if fn in ("operator->", "operator*") and \
                    category(qual(kids(node)[1])) == "mapiter":
                return self.iterator(kids(node)[1])
            return None
        r = self.ref(node)
        if r.get("id") in self.iters:
            return self.vars[r["id"]], self.iters[r["id"]]
        return None

    # operators
    def x_UnaryOperator(self, n):
        op = n["opcode"]
        sub = kids(n)[0]
        if op == "&":
            return self.address(sub)
        if op == "*":
            inner = peel(sub)
            if inner.get("kind") == "CXXThisExpr":
                return "self"
            t = qual(sub)
            text = self.expr(sub)
            if category(t) == "ptr" and boxed(t):
                return text + "[0]"
            return text
        if op == "!":
            return "(not %s)" % self.expr(sub)
        if op == "-":
            return "(-%s)" % self.expr(sub)
        if op == "+":
            return self.expr(sub)
        if op == "~":
            return "(~%s)" % self.expr(sub)
        if op in ("++", "--"):
            raise Unsupported("%s inside an expression" % op)
        if op == "__extension__":
            return self.expr(sub)
        raise Unsupported("unary " + op)

    def address(self, sub):
        target = peel(sub)
        r = self.ref(target)
        ident = r.get("id")
        if ident in self.boxes:
            return self.vars[ident]
        if target.get("kind") == "UnaryOperator" and \
                target.get("opcode") == "*":
            return self.expr(kids(target)[0])
        if ident in self.macros:
            return "[%s]" % self.macros[ident]
        if target.get("kind") == "DeclRefExpr" and r.get("kind") in FUNCTIONS:
            return self.expr(target)
        cat = category(qual(target))
        if cat in ("rec", "smart") or target.get("kind") == "CXXThisExpr":
            return self.expr(target)
        if target.get("kind") == "DeclRefExpr" and \
                r.get("kind") in ("VarDecl", "ParmVarDecl"):
            return self.expr(target)
        # address of an element: read-only temporaries
        return "[%s]" % self.expr(sub)

    def x_BinaryOperator(self, n):
        op = n["opcode"]
        left, right = kids(n)
        if op in (".*", "->*"):
            raise Unsupported("member pointer outside a call")
        if op == "=":
            raise Unsupported("assignment inside an expression")
        if op == ",":
            raise Unsupported("comma")
        a, b = self.expr(left), self.expr(right)
        if op in ("==", "!=") and "None" in (a, b):
            other = b if a == "None" else a
            return "(%s is %sNone)" % (other, "not " if op == "!=" else "")
        if op in ("==", "!="):
            ca, cb = category(qual(left)), category(qual(right))
            if ca == "ptr" or cb == "ptr":
                return "(%s %s %s)" % (a, "is" if op == "==" else "is not", b)
        if op == "&&":
            return "(%s and %s)" % (a, b)
        if op == "||":
            return "(%s or %s)" % (a, b)
        if op == "/":
            if self.integral(n):
                return "capi.int_div(%s, %s)" % (a, b)
        if op == "%":
            return "capi.int_mod(%s, %s)" % (a, b)
        return "(%s %s %s)" % (a, op, b)

    def integral(self, n):
        t = strip(qual(n))
        return category(t) == "scalar" and t not in ("double", "float",
                                                     "long double")

    def x_ConditionalOperator(self, n):
        c, a, b = kids(n)
        return "(%s if %s else %s)" % (self.expr(a), self.expr(c),
                                       self.expr(b))

    def x_ArraySubscriptExpr(self, n):
        a, b = kids(n)
        return "%s[%s]" % (self.expr(a), self.expr(b))

    def x_InitListExpr(self, n):
        t = strip(qual(n))
        cls = t.split("::")[-1]
        if category(t) == "rec" and cls in self.index.less:
            return "(%s,)" % ", ".join(self.expr(c) for c in kids(n))
        out = []
        for c in kids(n):
            if c.get("kind") == "ImplicitValueInitExpr":
                out.append("0")
            else:
                out.append(self.expr(c))
        return "[%s]" % ", ".join(out)

    def x_CXXConstructExpr(self, n):
        t = strip(qual(n))
        cat = category(t)
        args = [c for c in kids(n) if c.get("kind") != "CXXDefaultArgExpr"]
        if cat == "str":
            if not args:
                return "''"
            return self.expr(args[0])
        if cat == "vec":
            if not args:
                return "[]"
            if category(qual(args[0])) == "vec":
                text = self.expr(args[0])
                return self.copy(text, t) if self.is_lvalue(args[0]) else text
            if category(qual(args[0])) == "veciter":
                a, b = self.veciter(args[0]), self.veciter(args[1])
                if a[0] == b[0] and a[1] == "begin" and b[1] == "end":
                    return self.copy(a[0], t)
                raise Unsupported("vector from a range")
            elem = element(t)[0]
            count = self.expr(args[0])
            fill = self.expr(args[1]) if len(args) > 1 else default(elem)
            if category(elem) in ("vec", "map"):
                return "[%s for row_%d in range(%s)]" % (
                    self.copy(fill, elem) if len(args) > 1 else fill,
                    self.next(), count)
            return "[%s] * %s" % (fill, count)
        if cat == "map":
            if not args:
                return "{}"
            text = self.expr(args[0])
            return self.copy(text, t) if self.is_lvalue(args[0]) else text
        if cat == "smart":
            if not args:
                return "None"
            return self.expr(args[0])
        if cat == "mapiter" or cat == "veciter":
            return self.expr(args[0])
        if cat == "pair":
            return "(%s,)" % ", ".join(self.expr(a) for a in args)
        return self.construct(n, t, args)

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def next(self):
        self.counter += 1
        return self.counter

    def construct(self, n, t, args):
        cls = re.sub(r"<.*", "", t).split("::")[-1]
        if cls not in self.index.classes:
            if len(args) == 1 and category(qual(args[0])) == "rec" and \
                    strip(qual(args[0])) == t:
                return self.expr(args[0])
            if cls not in ("logic_error", "runtime_error",
                           "invalid_argument", "out_of_range",
                           "domain_error", "length_error", "exception"):
                raise Unsupported("construction of " + cls)
            return "capi.%s(%s)" % (cls, ", ".join(
                self.expr(a) for a in args))
        same = len(args) == 1 and \
            re.sub(r"<.*", "", strip(qual(args[0]))).split("::")[-1] == cls
        if same and cls in self.index.less:
            return self.expr(args[0])
        if same and not self.is_lvalue(args[0]):
            return self.expr(args[0])
        ctor = n.get("ctorType", {}).get("qualType", "")
        low = self.ctor_name(cls, ctor, n)
        if low is None:
            if not args:
                return "%s_default()" % cls
            if same:
                return "%s_copy(%s)" % (cls, self.expr(args[0]))
            raise Unsupported("constructor of " + cls)
        texts = [self.argument(a, None) for a in args]
        return "%s(%s)" % (low, ", ".join(texts))

    def ctor_name(self, cls, ctor, n):
        """the constructor with the given signature"""
        found = []
        want = [short(p) for p in split_params(ctor)]
        for (base, suffix, params), low in self.index.final.items():
            if base == cls + "_new" and list(params) == want:
                found.append((suffix, low))
        if not found:
            cands = [(b, s, p, low) for (b, s, p), low in
                     self.index.final.items() if b == cls + "_new" and
                     len(p) == len(want)]
            if len({low.split("__")[0] for _b, _s, _p, low in cands}) == 1 \
                    and want:
                found = [(s, low) for _b, s, _p, low in cands]
        if not found:
            return None
        if len(found) == 1:
            return found[0][1]
        t = strip(qual(n))
        tail = "__" + "_".join(short(a).split("WeightContext_")[-1]
                               for a in element(t)) if "<" in t else ""
        for suffix, low in found:
            if suffix == tail:
                return low
        return found[0][1]

    def x_CXXNewExpr(self, n):
        sub = [c for c in kids(n)]
        t = pointee(qual(n))
        if category(t) in ("map", "vec", "str", "scalar"):
            return "[%s]" % (self.expr(sub[0]) if sub else default(t))
        if category(t) == "smart":
            return "None"
        if not sub:
            return "%s_default()" % t.split("::")[-1]
        return self.expr(sub[0])

    # calls
    def argument(self, node, ptype):
        """an argument; scalar references pass the box"""
        if ptype and ptype.rstrip().endswith("&") and \
                not is_const(ptype) and \
                category(ptype) in ("scalar", "str", "ptr"):
            target = peel(node)
            ident = self.ref(target).get("id")
            if ident in self.boxes:
                return self.vars[ident]
            raise Unsupported("reference to an expression")
        if ptype and ptype.rstrip().endswith("&") and is_const(ptype) and \
                category(ptype) in ("vec", "map") and \
                self.is_lvalue(node) or node.get("kind") == \
                "ImplicitCastExpr" and self.is_lvalue(peel(node)) and \
                category(qual(node)) in ("vec", "map"):
            # read only: the callee sees the value, as if it were copied
            return self.copy(self.expr(node), qual(node))
        return self.expr(node)

    def arguments(self, n, args):
        decl = self.callee_decl(n)
        params = [qual(p) for p in (decl or {}).get("inner", ())
                  if p.get("kind") == "ParmVarDecl"]
        out = []
        for i, a in enumerate(args):
            if a.get("kind") == "CXXDefaultArgExpr":
                if i < len(params):
                    extra = [p for p in decl["inner"]
                             if p.get("kind") == "ParmVarDecl"][i]
                    init = kids(extra)
                    out.append(self.expr(init[-1]) if init else "None")
                continue
            out.append(self.argument(a, params[i] if i < len(params)
                                     else None))
        return out

    def x_CallExpr(self, n):
        head, args = kids(n)[0], kids(n)[1:]
        target = peel(head)
        r = self.ref(target)
        name = r.get("name", "")
        if r.get("kind") in FUNCTIONS:
            if name in MATH and not self.index.names.get(
                    (self.unit, r.get("id"))):
                return "%s(%s)" % (MATH[name], ", ".join(
                    self.expr(a) for a in args))
            low = self.index.lookup(self.unit, r.get("id"))
            if low is None:
                entry = self.index.names.get((self.unit, r.get("id")))
                if isinstance(entry, tuple):
                    low = entry[0] + entry[1]
            if low is not None:
                return "%s(%s)" % (low, ", ".join(self.arguments(n, args)))
            return self.api(name, args, n)
        if r.get("kind") == "VarDecl" and \
                category(qual(target)) == "fnptr":
            low = self.index.names.get((self.unit, r.get("id")))
            if isinstance(low, str) and low in self.index.fnvars:
                return "%s(%s)" % (low, ", ".join(
                    self.expr(a) for a in args))
        return "%s(%s)" % (self.expr(head),
                           ", ".join(self.expr(a) for a in args))

    def api(self, name, args, n):
        if name in ("PyArg_ParseTuple", "PyArg_ParseTupleAndKeywords",
                    "_PyArg_ParseTuple_SizeT",
                    "_PyArg_ParseTupleAndKeywords_SizeT"):
            raise Unsupported(name + " inside an expression")
        if name == "PyErr_Occurred":
            self.globals.add("PYERR")
            return "PYERR"
        if name in COUNTS or name == "Py_SET_REFCNT":
            raise Unsupported(name + " inside an expression")
        if name == "Py_TYPE":
            return "%s.ob_type" % self.expr(args[0])
        if name in ("PyObject_TypeCheck", "Py_IS_TYPE"):
            return "capi.%s(%s)" % (name, ", ".join(
                self.expr(a) for a in args))
        if name == "_Py_NewRef" or name == "Py_NewRef":
            obj = self.expr(args[0])
            if obj not in CONST.values():
                self.globals.add("PYREF")
                self.emit("PYREF = PYREF + capi.ref(%s)" % obj)
            return obj
        if name == "move" or name == "forward":
            return self.expr(args[0])
        if name == "make_pair":
            return "(%s,)" % ", ".join(self.expr(a) for a in args)
        if not re.match(r"_?Py|__builtin_", name):
            raise Unsupported("call of " + name)
        texts = [self.expr(a) for a in args]
        if name == "Py_BuildValue" and len(texts) == 2:
            made = {"'d'": "PyFloat_FromDouble", "'i'": "PyLong_From",
                    "'n'": "PyLong_From", "'l'": "PyLong_From",
                    "'k'": "PyLong_From",
                    "'s'": "PyUnicode_FromString"}.get(texts[0].replace('"', "'"))
            if made:
                return "capi.%s(%s)" % (made, texts[1])
        if re.match(r"PyLong_From(Long|LongLong|Size_t|Ssize_t|UnsignedLong|"
                    r"UnsignedLongLong)$", name):
            name = "PyLong_From"
        if name == "PyFloat_AS_DOUBLE":
            return "capi.PyFloat_AsDouble(%s)" % texts[0]
        if name in AMBIGUOUS:
            self.pending.append((name, texts))
        return "capi.%s(%s)" % (re.sub(r"\W", "_", name), ", ".join(texts))

    @staticmethod
    def position(vec, pos):
        return {"begin": "0", "end": "len(%s)" % vec}.get(pos, pos)

    def veciter(self, node):
        """(vector text, 'begin' | 'end' | index text)"""
        node = peel(node)
        if self.ref(node).get("id") in self.veciters:
            ident = self.ref(node)["id"]
            return self.veciters[ident], self.vars[ident]
        while node.get("kind") == "CXXConstructExpr" and \
                category(qual(node)) == "veciter":
            node = peel(kids(node)[0])
        if node.get("kind") == "CXXMemberCallExpr":
            head = peel(kids(node)[0])
            if head.get("name") in ("begin", "cbegin"):
                return self.object(head), "begin"
            if head.get("name") in ("end", "cend"):
                return self.object(head), "end"
        if node.get("kind") == "CXXOperatorCallExpr":
            fn = self.ref(peel(kids(node)[0])).get("name")
            if fn in ("operator+", "operator-"):
                vec, pos = self.veciter(kids(node)[1])
                off = self.expr(kids(node)[2])
                base = {"begin": None, "end": "len(%s)" % vec}.get(pos, pos)
                if fn == "operator+":
                    return vec, off if base is None else \
                        "(%s + %s)" % (base, off)
                if base is not None:
                    return vec, "(%s - %s)" % (base, off)
        raise Unsupported("vector iterator")

    def object(self, member):
        base = kids(member)[0]
        return self.deref(base) if member.get("isArrow") else self.expr(base)

    def x_CXXMemberCallExpr(self, n):
        head, args = kids(n)[0], kids(n)[1:]
        target = peel(head)
        args = [a for a in args]
        if target.get("kind") == "BinaryOperator" and \
                target.get("opcode") in (".*", "->*"):
            obj, fn = kids(target)
            text = self.expr(obj)
            return "%s(%s)" % (self.expr(fn), ", ".join(
                [text] + [self.expr(a) for a in args]))
        if target.get("kind") != "MemberExpr":
            raise Unsupported("member call")
        name = target.get("name")
        base = kids(target)[0]
        t = qual(base)
        cat = category(pointee(t)) if category(t) == "ptr" else category(t)
        if cat in ("vec", "map", "str"):
            return self.container(cat, self.object(target), name, args, n)
        if cat == "smart":
            obj = self.object(target)
            if peel(base).get("kind") == "CXXThisExpr":
                pass
            elif name == "get":
                return obj
            elif name == "set":
                raise Unsupported("SmartPointer::set inside an expression")
            decl = self.index.lookup(self.unit,
                                     target.get("referencedMemberDecl"))
            if peel(base).get("kind") != "CXXThisExpr":
                return "%s(%s)" % (decl or "capi.smart_" + name, ", ".join(
                    [obj] + [self.expr(a) for a in args]))
        obj = self.object(target)
        ident = target.get("referencedMemberDecl")
        decl = self.index.decl.get((self.unit, ident), {})
        if decl.get("pure"):
            self.virtual = True
            return "virtual_%s(%s)" % (name, ", ".join(
                [obj] + [self.expr(a) for a in args]))
        low = self.index.lookup(self.unit, ident)
        if low is None:
            entry = self.index.names.get((self.unit, ident))
            if isinstance(entry, tuple):
                low = entry[0] + entry[1]
        if low is None:
            raise Unsupported("call of member " + name)
        first = [] if decl.get("storageClass") == "static" else [obj]
        return "%s(%s)" % (low, ", ".join(first + self.arguments(n, args)))

    def container(self, cat, obj, name, args, n):
        args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        if name in ("size", "length"):
            return "len(%s)" % obj
        if name == "empty":
            return "(len(%s) == 0)" % obj
        if name == "c_str" or name == "data":
            return obj
        if cat == "vec":
            if name == "at":
                return "%s[%s]" % (obj, self.expr(args[0]))
            if name == "front":
                return "%s[0]" % obj
            if name == "back":
                return "%s[-1]" % obj
            if name == "push_back" or name == "emplace_back":
                text = self.stored(args[0])
                return "%s.append(%s)" % (obj, text)
            if name == "clear":
                return "%s.clear()" % obj
            if name == "pop_back":
                return "%s.pop()" % obj
            if name == "insert":
                vec, pos = self.veciter(args[0])
                if len(args) == 2:
                    at = {"begin": "0", "end": "len(%s)" % vec}.get(pos, pos)
                    return "%s.insert(%s, %s)" % (vec, at,
                                                  self.stored(args[1]))
                a, b = self.veciter(args[1]), self.veciter(args[2])
                if pos == "end" and a[0] == b[0] and a[1] == "begin" and \
                        b[1] == "end":
                    return "%s.extend(%s)" % (vec, a[0])
                raise Unsupported("vector insert")
        if cat == "map":
            if name == "clear":
                return "%s.clear()" % obj
            if name == "at":
                return "%s[%s]" % (obj, self.expr(args[0]))
            if name == "count":
                return "(1 if %s in %s else 0)" % (self.expr(args[0]), obj)
            if name == "erase":
                key = args[0]
                if category(qual(key)) == "mapiter":
                    inner = peel(key)
                    while inner.get("kind") == "CXXConstructExpr" and \
                            len(kids(inner)) == 1:
                        inner = peel(kids(inner)[0])
                    it = self.iterator(inner)
                    if it is None:
                        raise Unsupported("erase by iterator")
                    return "%s.pop(%s, None)" % (obj, it[0])
                return "%s.pop(%s, None)" % (obj, self.expr(key))
            if name in ("insert", "emplace"):
                args = [a for a in args
                        if category(qual(a)) != "mapiter"]
                pair = args[-1]
                inner = peel(pair)
                while inner.get("kind") == "CXXConstructExpr" and \
                        len(kids(inner)) == 1:
                    inner = peel(kids(inner)[0])
                if name == "emplace" and len(args) == 2:
                    parts = args
                elif inner.get("kind") == "CallExpr":
                    parts = kids(inner)[1:]
                else:
                    parts = [c for c in kids(inner)
                             if c.get("kind") != "CXXDefaultArgExpr"]
                if len(parts) != 2:
                    raise Unsupported("map insert")
                return "%s.setdefault(%s, %s)" % (
                    obj, self.expr(parts[0]), self.expr(parts[1]))
        raise Unsupported("%s::%s" % (cat, name))

    def stored(self, node):
        """an argument copied into a container"""
        text = self.expr(node)
        inner = node
        while inner.get("kind") in ("ExprWithCleanups", "ParenExpr",
                                    "ImplicitCastExpr"):
            inner = kids(inner)[0]
        if self.is_lvalue(inner) and inner.get("kind") != \
                "MaterializeTemporaryExpr":
            return self.copy(text, qual(node))
        return text

    def map_end(self, node):
        """map text if the node is <map>.end()"""
        node = peel(node)
        while node.get("kind") == "CXXConstructExpr" and kids(node) and \
                category(qual(node)) == "mapiter":
            node = peel(kids(node)[0])
        if node.get("kind") == "CXXMemberCallExpr":
            head = peel(kids(node)[0])
            if head.get("name") in ("end", "cend") and \
                    category(qual(node)) == "mapiter":
                return self.object(head)
        return None

    def map_find(self, node):
        """(map, key) if the node is <map>.find(key)"""
        node = peel(node)
        while node.get("kind") == "CXXConstructExpr" and kids(node) and \
                category(qual(node)) == "mapiter":
            node = peel(kids(node)[0])
        if node.get("kind") == "CXXMemberCallExpr":
            head = peel(kids(node)[0])
            if head.get("name") == "find" and \
                    category(qual(node)) == "mapiter":
                return self.object(head), self.expr(kids(node)[1])
        return None

    def map_begin(self, node):
        node = peel(node)
        while node.get("kind") == "CXXConstructExpr" and kids(node) and \
                category(qual(node)) == "mapiter":
            node = peel(kids(node)[0])
        if node.get("kind") == "CXXMemberCallExpr":
            head = peel(kids(node)[0])
            if head.get("name") in ("begin", "cbegin") and \
                    category(qual(node)) == "mapiter":
                return self.object(head)
        return None

    def x_CXXOperatorCallExpr(self, n):
        parts = kids(n)
        fn = self.ref(peel(parts[0])).get("name", "")
        args = parts[1:]
        op = fn.replace("operator", "")
        cats = [category(qual(a)) for a in args]
        if op in ("==", "!=") and "mapiter" in cats:
            for a, b in ((args[0], args[1]), (args[1], args[0])):
                end = self.map_end(b)
                if end is None:
                    continue
                found = self.map_find(a)
                if found is not None:
                    table, key = found
                else:
                    it = self.iterator(a)
                    if it is None:
                        raise Unsupported("iterator comparison")
                    key, table = it
                return "(%s %sin %s)" % (key, "not " if op == "==" else "",
                                         table)
            raise Unsupported("iterator comparison")
        if cats[0] == "veciter":
            if op in ("*", "->"):
                vec, pos = self.veciter(args[0])
                return "%s[%s]" % (vec, self.position(vec, pos))
            if op in ("==", "!=", "<", ">", "<=", ">=", "-") and \
                    cats[1] == "veciter":
                (va, pa), (vb, pb) = map(self.veciter, args)
                if va != vb:
                    raise Unsupported("iterators of two vectors")
                if pb == "end" and op in ("==", "!="):
                    op = {"==": ">=", "!=": "<"}[op]
                return "(%s %s %s)" % (self.position(va, pa), op,
                                       self.position(vb, pb))
            raise Unsupported("vector iterator " + op)
        if op == "[]":
            obj, key = self.expr(args[0]), self.expr(args[1])
            if cats[0] == "map":
                value = element(qual(args[0]))[1]
                if "(" not in obj + key:
                    return "(%s[%s] if %s in %s else %s)" % (
                        obj, key, key, obj, default(value))
                return "%s.get(%s, %s)" % (obj, key, default(value))
            return "%s[%s]" % (obj, key)
        if cats[0] == "smart" and op in ("->", "*"):
            return self.expr(args[0])
        if op in ("+",) and "str" in cats:
            return "(%s + %s)" % (self.expr(args[0]), self.expr(args[1]))
        if op in ("==", "!=", "<", ">", "<=", ">="):
            a, b = self.expr(args[0]), self.expr(args[1])
            if op == "<" and cats[0] == "rec":
                low = self.index.lookup(
                    self.unit, self.ref(peel(parts[0])).get("id"))
                if low:
                    return "%s(%s, %s)" % (low, a, b)
            if cats[0] == "smart":
                return "(%s %s %s)" % (a, "is" if op == "==" else "is not", b)
            return "(%s %s %s)" % (a, op, b)
        if op == "*" and cats[0] == "mapiter":
            it = self.iterator(n)
            if it is not None:
                return "(%s, %s[%s])" % (it[0], it[1], it[0])
        if op == "<<":
            return "capi.out(%s, %s)" % (self.expr(args[0]),
                                         self.expr(args[1]))
        if op == "=":
            raise Unsupported("assignment inside an expression")
        raise Unsupported("operator " + op)

    def x_CXXThrowExpr(self, n):
        raise Unsupported("throw inside an expression")

    def x_AtomicExpr(self, n):
        raise Unsupported("atomic")

    # ------------------------------------------------------------ statements
    def block(self, node):
        self.depth += 1
        mark = len(self.lines)
        if node.get("kind") == "CompoundStmt":
            for stmt in kids(node):
                self.stmt(stmt)
        else:
            self.stmt(node)
        if len(self.lines) == mark:
            self.emit("pass")
        self.depth -= 1

    def stmt(self, node):
        kind = node.get("kind")
        method = getattr(self, "s_" + kind, None)
        if method is not None:
            return method(node)
        return self.effect(node)

    def s_CompoundStmt(self, n):
        for stmt in kids(n):
            self.stmt(stmt)

    def s_NullStmt(self, n):
        pass

    def s_ReturnStmt(self, n):
        if hasattr(self, "returns"):
            self.emit("return self")
            return
        sub = kids(n)
        if not sub:
            self.emit("return")
            return
        node = sub[0]
        text = self.value_of(node)
        self.emit("return " + text)

    def value_of(self, node):
        """an expression that may hold calls needing statements before"""
        self.before(node)
        return self.value(node)

    def before(self, node):
        """statements for calls which cannot be expressions: argument
        parsing, with its outputs"""
        for call in self.find_calls(node):
            self.parse_args(call)

    def find_calls(self, node):
        out = []
        stack = [node]
        while stack:
            n = stack.pop()
            if n.get("kind") == "CallExpr":
                name = self.ref(peel(kids(n)[0])).get("name", "")
                if "PyArg_Parse" in name:
                    out.append(n)
            stack.extend(c for c in n.get("inner", ())
                         if isinstance(c, dict) and c)
        return out

    def parse_args(self, call):
        name = self.ref(peel(kids(call)[0])).get("name", "")
        args = kids(call)[1:]
        if "Keywords" in name:
            tup = self.expr(args[0])
            kw = self.expr(args[1])
            fmt = peel(args[2])["value"].strip('"')
            names = self.string_list(args[3])
            outs = args[4:]
        else:
            tup, kw, names = self.expr(args[0]), "None", None
            fmt = peel(args[1])["value"].strip('"')
            outs = args[2:]
        units, optional, rest = [], False, fmt.split(":")[0].split(";")[0]
        for unit in FORMAT.findall(rest):
            if unit == "|":
                optional = True
            else:
                units.append((unit, optional))
        if len(units) != len(outs):
            raise Unsupported("argument format %r with %d places" % (
                fmt, len(outs)))
        ok = self.fresh("parsed")
        self.emit("%s = capi.PyArg_Parse(%s, %s, %r, %r)" % (
            ok, tup, kw, rest, names))
        for pos, (unit, opt) in enumerate(units):
            box = self.expr(outs[pos])
            key = names[pos] if names and pos < len(names) else None
            if opt:
                self.emit("%s[0] = capi.optional(%s, %s, %d, %r, %r, %s[0])"
                          % (box, tup, kw, pos, unit, key, box))
            else:
                self.emit("%s[0] = capi.argument(%s, %s, %d, %r, %r)"
                          % (box, tup, kw, pos, unit, key))
        call["inner"] = [{"kind": "LoweredText", "text": ok}]
        call["kind"] = "LoweredText"
        call["text"] = ok

    def x_LoweredText(self, n):
        return n["text"]

    def string_list(self, node):
        r = self.ref(peel(node))
        decl = self.index.decl.get((self.unit, r.get("id")))
        if decl is None:
            raise Unsupported("keyword list")
        out, stack = [], [Index.initial(decl)]
        found = []

        def walk(n):
            if n.get("kind") == "StringLiteral":
                found.append(n["value"].strip('"'))
            for c in n.get("inner", ()):
                if isinstance(c, dict) and c:
                    walk(c)
        walk(Index.initial(decl))
        return found

    def s_IfStmt(self, n):
        parts = [c for c in n.get("inner", ()) if c.get("kind")]
        if n.get("hasInit"):
            self.stmt(parts.pop(0))
        if n.get("hasVar"):
            self.stmt(parts.pop(0))
        cond, then = parts[0], parts[1]
        self.before(cond)
        self.emit("if %s:" % self.expr(cond))
        self.block(then)
        if len(parts) > 2:
            mark = len(self.lines)
            self.emit("else:")
            self.block(parts[2])

    def s_DeclStmt(self, n):
        for decl in kids(n):
            kind = decl.get("kind")
            if kind in ("TypedefDecl", "TypeAliasDecl", "UsingDecl",
                        "StaticAssertDecl"):
                continue
            if kind != "VarDecl":
                raise Unsupported("declaration " + kind)
            self.declare(decl)

    def declare(self, decl):
        ident, t = decl["id"], qual(decl)
        cat = category(t)
        init = Index.initial(decl)
        if cat == "mapiter":
            name = self.fresh(decl["name"])
            self.vars[ident] = name
            if init is not None:
                self.set_iterator(ident, init)
            return
        if cat == "veciter":
            vec, pos = self.veciter(init)
            name = self.fresh(decl["name"])
            self.vars[ident] = name
            self.veciters[ident] = vec
            self.emit("%s = %s" % (name, self.position(vec, pos)))
            return
        if decl.get("storageClass") == "static":
            # a constant table; keyword lists are read through string_list
            if cat == "array":
                self.vars[ident] = self.fresh(decl["name"])
                try:
                    self.emit("%s = %s" % (self.vars[ident],
                                           self.expr(init)))
                except Unsupported:
                    self.emit("%s = None" % self.vars[ident])
                return
            raise Unsupported("static local")
        isref = t.rstrip().endswith("&")
        if isref and not is_const(t) and cat in ("scalar", "str", "ptr"):
            self.macros[ident] = self.lvalue(init)
            return
        name = self.fresh(decl["name"])
        if init is None:
            text = default(t) if cat in ("vec", "map", "str", "smart") \
                else ("None" if cat != "rec" else None)
            if text is None:
                cls = re.sub(r"<.*", "", strip(t)).split("::")[-1]
                text = "%s_default()" % cls
            else:
                text = text if cat in ("vec", "map", "str", "smart") else \
                    "capi.undefined"
        else:
            text = self.value_of(self.uncopied(ident, t, init))
        self.vars[ident] = name
        if ident in self.addressed:
            self.boxes.add(ident)
            self.emit("%s = [%s]" % (name, text))
        else:
            self.emit("%s = %s" % (name, text))

    def uncopied(self, ident, t, init):
        """the initialiser of a container that is only ever read, without
        the copy"""
        if ident in self.mutated or ident in self.escaped or \
                category(t) != "vec":
            return init
        inner = init
        while inner.get("kind") in ("ExprWithCleanups", "ParenExpr",
                                    "MaterializeTemporaryExpr",
                                    "CXXBindTemporaryExpr"):
            inner = kids(inner)[0]
        args = [c for c in kids(inner) if c.get("kind") !=
                "CXXDefaultArgExpr"]
        if inner.get("kind") == "CXXConstructExpr" and len(args) == 1 and \
                category(qual(args[0])) == "vec" and \
                self.is_lvalue(args[0]):
            source = args[0]
            while source.get("kind") == "ImplicitCastExpr" and \
                    source.get("castKind") == "NoOp":
                source = kids(source)[0]
            if is_const(qual(source)):
                return source
        return init

    def set_iterator(self, ident, init):
        found = self.map_find(init)
        if found is not None:
            self.iters[ident] = found[0]
            self.emit("%s = %s" % (self.vars[ident], found[1]))
            return
        begin = self.map_begin(init)
        if begin is not None:
            self.iters[ident] = begin
            return
        inner = peel(init)
        if inner.get("kind") == "CXXConstructExpr" and not kids(inner):
            return
        raise Unsupported("iterator initialiser")

    # loops
    def s_ForStmt(self, n):
        parts = n.get("inner", [])
        parts = [c if c.get("kind") else None for c in parts]
        init, _var, cond, step, body = parts
        if self.map_loop(init, cond, step, body):
            return
        if self.count_loop(init, cond, step, body):
            return
        if self.vec_loop(init, cond, step, body):
            return
        if init is not None:
            self.stmt(init)
        if cond is not None and self.find_calls(cond):
            raise Unsupported("argument parsing in a loop condition")
        self.emit("while %s:" % (self.expr(cond) if cond else "True"))
        self.steps.append(step)
        self.depth += 1
        mark = len(self.lines)
        self.stmt(body)
        if step is not None:
            self.stmt(step)
        if len(self.lines) == mark:
            self.emit("pass")
        self.depth -= 1
        self.steps.pop()

    def loop_block(self, body):
        self.steps.append(None)
        self.block(body)
        self.steps.pop()

    def vec_loop(self, init, cond, step, body):
        """for (it = v.begin(); it != v.end(); ++it), v not resized"""
        if init is None or cond is None or step is None or \
                init["kind"] != "DeclStmt" or len(kids(init)) != 1:
            return False
        decl = kids(init)[0]
        if decl.get("kind") != "VarDecl" or category(qual(decl)) != "veciter":
            return False
        vec, pos = self.veciter(Index.initial(decl))
        c, s = peel(cond), peel(step)
        if c.get("kind") != "CXXOperatorCallExpr" or \
                self.ref(peel(kids(c)[0])).get("name") != "operator!=" or \
                s.get("kind") != "CXXOperatorCallExpr" or \
                self.ref(peel(kids(s)[0])).get("name") != "operator++" or \
                self.ref(peel(kids(s)[1])).get("id") != decl["id"] or \
                self.ref(peel(kids(c)[1])).get("id") != decl["id"]:
            return False
        end = self.veciter(kids(c)[2])
        if end != (vec, "end") or pos != "begin" or \
                self.assigned(body, decl["id"]) or \
                not self.invariant(kids(c)[2], body):
            return False
        name = self.fresh(decl["name"])
        self.vars[decl["id"]] = name
        self.veciters[decl["id"]] = vec
        self.emit("for %s in range(len(%s)):" % (name, vec))
        self.loop_block(body)
        return True

    def has_continue(self, node):
        stack = [node]
        while stack:
            n = stack.pop()
            k = n.get("kind")
            if k == "ContinueStmt":
                return True
            if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
                continue
            stack.extend(c for c in n.get("inner", ()) if c)
        return False

    def map_loop(self, init, cond, step, body):
        """for (it = m.begin(); it != m.end(); ++it)"""
        if init is None or cond is None or step is None:
            return False
        ident = None
        begin = None
        if init["kind"] == "DeclStmt" and len(kids(init)) == 1 and \
                kids(init)[0].get("kind") == "VarDecl" and \
                category(qual(kids(init)[0])) == "mapiter":
            decl = kids(init)[0]
            ident = decl["id"]
            begin = self.map_begin(Index.initial(decl))
            self.vars[ident] = self.fresh(decl["name"])
        else:
            node = peel(init)
            if node.get("kind") == "CXXOperatorCallExpr" and \
                    self.ref(peel(kids(node)[0])).get("name") == "operator=":
                r = self.ref(peel(kids(node)[1]))
                if r.get("id") in self.vars and \
                        category(qual(kids(node)[1])) == "mapiter":
                    ident = r["id"]
                    begin = self.map_begin(kids(node)[2])
        if ident is None or begin is None:
            return False
        c = peel(cond)
        if c.get("kind") != "CXXOperatorCallExpr" or \
                self.ref(peel(kids(c)[0])).get("name") != "operator!=":
            raise Unsupported("iterator loop condition")
        ends = [self.map_end(a) for a in kids(c)[1:]]
        if begin not in ends:
            raise Unsupported("iterator loop over two maps")
        s = peel(step)
        if s.get("kind") != "CXXOperatorCallExpr" or \
                self.ref(peel(kids(s)[0])).get("name") != "operator++":
            raise Unsupported("iterator loop step")
        self.iters[ident] = begin
        self.emit("for %s in %s:" % (self.vars[ident], begin))
        self.loop_block(body)
        return True

    def count_loop(self, init, cond, step, body):
        """for (T i = a; i < b; ++i), i unchanged in the body, b invariant"""
        if init is None or cond is None or step is None or \
                init["kind"] != "DeclStmt" or len(kids(init)) != 1:
            return False
        decl = kids(init)[0]
        if decl.get("kind") != "VarDecl" or \
                category(qual(decl)) != "scalar":
            return False
        ident = decl["id"]
        if ident in self.addressed:
            return False
        c = peel(cond)
        if c.get("kind") != "BinaryOperator" or \
                c.get("opcode") not in ("<", "<="):
            return False
        left, right = kids(c)
        if self.ref(peel(left)).get("id") != ident:
            return False
        s = peel(step)
        if not (s.get("kind") == "UnaryOperator" and
                s.get("opcode") == "++" and
                self.ref(peel(kids(s)[0])).get("id") == ident):
            return False
        if self.assigned(body, ident):
            return False
        if not self.invariant(right, body):
            return False
        start = self.expr(Index.initial(decl))
        stop = self.expr(right)
        if c["opcode"] == "<=":
            stop = "%s + 1" % stop
        name = self.fresh(decl["name"])
        self.vars[ident] = name
        head = "range(%s)" % stop if start == "0" else \
            "range(%s, %s)" % (start, stop)
        self.emit("for %s in %s:" % (name, head))
        self.loop_block(body)
        return True

    def assigned(self, node, ident):
        stack = [node]
        while stack:
            n = stack.pop()
            k = n.get("kind")
            if k in ("BinaryOperator", "CompoundAssignOperator") and \
                    n.get("opcode", "").endswith("=") and \
                    n["opcode"] not in ("==", "!=", "<=", ">="):
                if self.ref(peel(kids(n)[0])).get("id") == ident:
                    return True
            if k == "UnaryOperator" and n.get("opcode") in ("++", "--") and \
                    self.ref(peel(kids(n)[0])).get("id") == ident:
                return True
            if k == "CXXOperatorCallExpr" and \
                    self.ref(peel(kids(n)[0])).get("name") in (
                        "operator=", "operator++", "operator--",
                        "operator+=", "operator-=") and \
                    self.ref(peel(kids(n)[1])).get("id") == ident:
                return True
            stack.extend(c for c in n.get("inner", ()) if c)
        return False

    def invariant(self, bound, body):
        """no variable of the bound is assigned, and no container whose size
        it takes is resized, in the body"""
        idents, members = set(), set()
        stack = [bound]
        while stack:
            n = stack.pop()
            if n.get("kind") == "DeclRefExpr":
                idents.add(self.ref(n).get("id"))
            if n.get("kind") == "MemberExpr":
                members.add(n.get("name"))
            stack.extend(c for c in n.get("inner", ()) if c)
        if any(self.assigned(body, i) for i in idents):
            return False
        stack = [body]
        while stack:
            n = stack.pop()
            if n.get("kind") == "CXXMemberCallExpr":
                head = peel(kids(n)[0])
                if head.get("name") in ("push_back", "insert", "erase",
                                        "clear", "resize", "pop_back",
                                        "emplace_back"):
                    base = peel(kids(head)[0])
                    if self.ref(base).get("id") in idents or \
                            base.get("name") in members:
                        return False
            if n.get("kind") == "CXXOperatorCallExpr" and \
                    self.ref(peel(kids(n)[0])).get("name") == "operator=":
                if self.ref(peel(kids(n)[1])).get("id") in idents:
                    return False
            stack.extend(c for c in n.get("inner", ()) if c)
        return True

    def s_WhileStmt(self, n):
        parts = [c for c in n.get("inner", ()) if c.get("kind")]
        cond, body = parts[-2], parts[-1]
        c = peel(cond)
        if c.get("kind") == "CallExpr" and \
                self.ref(peel(kids(c)[0])).get("name") == "PyDict_Next":
            args = kids(c)[1:]
            key, val = self.expr(args[2]), self.expr(args[3])
            a, b = self.fresh("key_"), self.fresh("value_")
            self.emit("for %s, %s in capi.PyDict_items(%s):" % (
                a, b, self.expr(args[0])))
            self.depth += 1
            self.emit("%s[0] = %s" % (key, a))
            self.emit("%s[0] = %s" % (val, b))
            self.steps.append(None)
            self.stmt(body)
            self.steps.pop()
            self.depth -= 1
            return
        if self.find_calls(cond):
            raise Unsupported("argument parsing in a loop condition")
        self.emit("while %s:" % self.expr(cond))
        self.loop_block(body)

    def s_DoStmt(self, n):
        body, cond = [c for c in n.get("inner", ()) if c.get("kind")]
        c = peel(cond)
        if c.get("kind") == "IntegerLiteral" and c.get("value") == "0":
            self.stmt(body)
            return
        if self.has_continue(body):
            raise Unsupported("continue in a do loop")
        self.emit("while True:")
        self.steps.append(None)
        self.depth += 1
        self.stmt(body)
        self.steps.pop()
        self.emit("if not %s:" % self.expr(cond))
        self.emit("    break")
        self.depth -= 1

    def s_CXXForRangeStmt(self, n):
        parts = n.get("inner", [])
        decls = [c for c in parts if c.get("kind") == "DeclStmt"]
        body = parts[-1]
        range_init = Index.initial(kids(decls[0])[0])
        var = kids(decls[-1])[0]
        t = qual(range_init)
        obj = self.expr(range_init)
        cat = category(t)
        ident = var["id"]
        name = self.fresh(var.get("name") or "item")
        vt = qual(var)
        if var.get("kind") == "DecompositionDecl":
            if cat != "map":
                raise Unsupported("structured binding")
            parts = [c for c in kids(var) if c.get("kind") == "BindingDecl"]
            self.vars[parts[0]["id"]] = name
            self.macros[parts[1]["id"]] = "%s[%s]" % (obj, name)
            self.emit("for %s in %s:" % (name, obj))
            self.loop_block(body)
            return
        self.vars[ident] = name
        if cat == "map":
            self.iters[ident] = obj
            self.emit("for %s in %s:" % (name, obj))
        elif cat == "vec":
            ref = vt.rstrip().endswith("&") and not is_const(vt)
            if ref and category(vt) in ("scalar", "str", "ptr", "smart"):
                self.macros[ident] = "%s[%s]" % (obj, name)
                self.emit("for %s in range(len(%s)):" % (name, obj))
            else:
                self.emit("for %s in %s:" % (name, obj))
        else:
            raise Unsupported("range for over " + cat)
        self.loop_block(body)

    def s_BreakStmt(self, n):
        self.emit("break")

    def s_ContinueStmt(self, n):
        if self.steps and self.steps[-1] is not None:
            self.stmt(self.steps[-1])
        self.emit("continue")

    def s_SwitchStmt(self, n):
        parts = [c for c in n.get("inner", ()) if c.get("kind")]
        cond, body = parts[-2], parts[-1]
        key = self.fresh("switch")
        self.emit("%s = %s" % (key, self.expr(cond)))
        arms, current, labels = [], None, []

        def flat(node, labels):
            while node.get("kind") in ("CaseStmt", "DefaultStmt"):
                sub = [c for c in node.get("inner", ()) if c.get("kind")]
                labels.append(None if node["kind"] == "DefaultStmt"
                              else sub[0])
                node = sub[-1]
            return node
        for stmt in kids(body):
            if stmt.get("kind") in ("CaseStmt", "DefaultStmt"):
                labels = []
                first = flat(stmt, labels)
                arms.append((labels, [first]))
            elif arms:
                arms[-1][1].append(stmt)
        for number, (labels, stmts) in enumerate(arms):
            last = self.tail(stmts[-1])
            if last not in ("BreakStmt", "ReturnStmt", "CXXThrowExpr",
                            "CallExpr"):
                if number + 1 < len(arms):
                    raise Unsupported("switch falls through")
        first = True
        for labels, stmts in arms:
            if None in labels:
                self.emit("else:" if not first else "if True:")
            else:
                tests = " or ".join("%s == %s" % (key, self.expr(lab))
                                    for lab in labels)
                self.emit("%s %s:" % ("if" if first else "elif", tests))
            first = False
            self.depth += 1
            mark = len(self.lines)
            for stmt in stmts:
                if stmt.get("kind") != "BreakStmt":
                    self.stmt(stmt)
            if len(self.lines) == mark:
                self.emit("pass")
            self.depth -= 1

    def tail(self, node):
        while node.get("kind") in ("CompoundStmt", "DoStmt", "IfStmt"):
            sub = [c for c in kids(node)]
            if not sub:
                return None
            node = sub[0] if node["kind"] == "DoStmt" else sub[-1]
        return peel(node).get("kind")

    def s_CXXTryStmt(self, n):
        parts = kids(n)
        self.emit("try:")
        self.block(parts[0])
        for catch in parts[1:]:
            sub = [c for c in catch.get("inner", ()) if c.get("kind")]
            if len(sub) == 2:
                t = strip(qual(sub[0])).rstrip("& ")
                self.vars[sub[0]["id"]] = self.fresh(
                    sub[0].get("name") or "err")
                self.emit("except %s:" % self.exception(t))
            else:
                self.emit("except Exception:")
            self.block(sub[-1])

    def exception(self, t):
        t = strip(t)
        if category(t) == "str":
            return "std_string"
        return "std_" + t.split("::")[-1].rstrip("& ")

    # effects
    def effect(self, node):
        node0 = node
        while node.get("kind") in ("ExprWithCleanups", "ParenExpr",
                                   "ImplicitCastExpr", "ConstantExpr") or (
                node.get("kind") == "CStyleCastExpr" and
                node.get("castKind") == "ToVoid"):
            node = kids(node)[0]
        kind = node.get("kind")
        if kind == "CXXThrowExpr":
            sub = kids(node)
            if not sub:
                self.emit("raise")
                return
            t = qual(sub[0])
            self.emit("raise %s()" % self.exception(t))
            return
        if kind == "CXXDeleteExpr":
            what = kids(node)[0]
            self.emit("capi.delete(%s%s)" % (
                self.expr(what), ", True" if re.search(
                    r"\bPy\w+ \*", qual(what)) else ""))
            return
        if kind in ("BinaryOperator", "CompoundAssignOperator"):
            op = node["opcode"]
            if op == ",":
                for sub in kids(node):
                    self.effect(sub)
                return
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                return self.assign(kids(node)[0], op, kids(node)[1], node)
        if kind == "UnaryOperator" and node["opcode"] in ("++", "--"):
            target = kids(node)[0]
            inner = peel(target)
            if inner.get("kind") == "CXXOperatorCallExpr" and \
                    category(qual(kids(inner)[1])) == "map":
                obj, key, dflt = self.map_slot(inner)
                self.emit("%s[%s] = %s.get(%s, %s) %s 1" % (
                    obj, key, obj, key, dflt, node["opcode"][0]))
                return
            self.emit("%s %s= 1" % (self.lvalue(target), node["opcode"][0]))
            return
        if kind == "CXXOperatorCallExpr":
            fn = self.ref(peel(kids(node)[0])).get("name", "")
            if fn == "operator=":
                return self.assign_object(kids(node)[1], kids(node)[2], node)
            if fn in ("operator+=", "operator-=", "operator*=",
                      "operator/="):
                self.before(kids(node)[2])
                self.emit("%s %s %s" % (self.lvalue(kids(node)[1]), fn[8:],
                                        self.expr(kids(node)[2])))
                return
            if fn in ("operator++", "operator--"):
                ident = self.ref(peel(kids(node)[1])).get("id")
                if ident in self.veciters:
                    self.emit("%s %s= 1" % (self.vars[ident], fn[8]))
                    return
                raise Unsupported("iterator step")
        if kind == "CXXMemberCallExpr":
            head = peel(kids(node)[0])
            if head.get("kind") == "MemberExpr":
                base = kids(head)[0]
                t = qual(base)
                cat = category(pointee(t)) if category(t) == "ptr" \
                    else category(t)
                own = peel(base).get("kind") == "CXXThisExpr"
                if cat == "smart" and head["name"] == "set" and not own:
                    self.emit("%s = %s" % (self.lvalue(base),
                                           self.expr(kids(node)[1])))
                    self.global_of(base)
                    return
                if cat == "str" and len(kids(node)) == 2 and \
                        head["name"] in ("assign", "append"):
                    self.emit("%s %s %s" % (
                        self.lvalue(base) if category(t) != "ptr" else
                        self.object(head),
                        "=" if head["name"] == "assign" else "+=",
                        self.expr(kids(node)[1])))
                    return
                if cat == "vec" and head["name"] in ("resize", "assign",
                                                     "erase"):
                    return self.reshape(head, kids(node)[1:], base)
        if kind == "CallExpr":
            name = self.ref(peel(kids(node)[0])).get("name", "")
            args = kids(node)[1:]
            if name in COUNTS:
                obj = self.expr(args[0])
                if obj in CONST.values():
                    return      # None, True and False are never counted
                self.globals.add("PYREF")
                if "X" in name:
                    self.emit("if %s != None:" % obj)
                self.emit("%sPYREF = PYREF %s capi.ref(%s)" % (
                    "    " if "X" in name else "", COUNTS[name], obj))
                return
            if name == "Py_SET_REFCNT":
                self.emit("%s.ob_refcnt = %s" % (self.expr(args[0]),
                                                 self.expr(args[1])))
                return
            if name == "Py_SET_TYPE":
                self.emit("%s.ob_type = %s" % (self.expr(args[0]),
                                               self.expr(args[1])))
                return
            if name in ("PyErr_SetString", "PyErr_SetNone",
                        "PyErr_Format", "PyErr_SetObject"):
                self.globals.add("PYERR")
                self.emit("PYERR = %s" % self.expr(args[0]))
                return
            if name == "PyErr_Clear":
                self.globals.add("PYERR")
                self.emit("PYERR = None")
                return
            if name == "PyErr_NoMemory":
                self.globals.add("PYERR")
                self.emit("PYERR = 'MemoryError'")
                return
            if name == "memcpy":
                self.emit("%s[0] = %s[0]" % (self.expr(args[0]),
                                             self.expr(args[1])))
                return
        if node.get("kind") in ("CallExpr", "CXXMemberCallExpr"):
            self.before(node)
        text = self.expr(node)
        if text not in ("None", "0") and not re.fullmatch(r"\w+", text):
            self.emit(text)

    def global_of(self, node):
        """declare the global a target names"""
        inner = peel(node)
        while inner.get("kind") in ("MemberExpr", "ArraySubscriptExpr") and \
                kids(inner):
            decl = self.index.decl.get(
                (self.unit, inner.get("referencedMemberDecl")), {})
            if decl.get("kind") == "VarDecl":
                break
            return
        r = self.ref(inner)
        ident = r.get("id")
        decl = None
        if inner.get("kind") == "MemberExpr":
            ident = inner.get("referencedMemberDecl")
        if ident in self.vars or ident in self.macros:
            return
        low = self.index.names.get((self.unit, ident))
        if isinstance(low, str):
            if low in self.index.fnvars:
                low += "_ptr"
            self.globals.add(low)

    def map_slot(self, inner):
        obj = self.expr(kids(inner)[1])
        key = self.expr(kids(inner)[2])
        return obj, key, default(element(qual(kids(inner)[1]))[1])

    def lvalue(self, node):
        inner = peel(node)
        if inner.get("kind") == "CXXOperatorCallExpr":
            fn = self.ref(peel(kids(inner)[0])).get("name")
            if fn == "operator[]":
                base = kids(inner)[1]
                if category(qual(base)) == "map":
                    obj, key, _d = self.map_slot(inner)
                    return "%s[%s]" % (obj, key)
                return "%s[%s]" % (self.lvalue_base(base),
                                   self.expr(kids(inner)[2]))
        self.global_of(node)
        return self.expr(node)

    def lvalue_base(self, node):
        inner = peel(node)
        if inner.get("kind") == "CXXOperatorCallExpr" and \
                self.ref(peel(kids(inner)[0])).get("name") == "operator[]":
            return self.lvalue(inner)
        return self.expr(node)

    def assign(self, left, op, right, node):
        inner = peel(left)
        if inner.get("kind") == "MemberExpr" and \
                inner.get("name") == "ml_doc":
            return
        rnode = peel(right)
        if op == "=" and rnode.get("kind") == "BinaryOperator" and \
                rnode.get("opcode") == "=":
            self.assign(kids(rnode)[0], "=", kids(rnode)[1], rnode)
            self.emit("%s = %s" % (self.lvalue(left),
                                   self.expr(kids(rnode)[0])))
            return
        self.before(right)
        text = self.value(right)
        if op == "=":
            self.emit("%s = %s" % (self.lvalue(left), text))
            self.api_error(right)
            return
        oper = op[:-1]
        if inner.get("kind") == "CXXOperatorCallExpr" and \
                category(qual(kids(inner)[1])) == "map":
            obj, key, dflt = self.map_slot(inner)
            self.emit("%s[%s] = %s.get(%s, %s) %s %s" % (
                obj, key, obj, key, dflt, oper, text))
            return
        if oper == "/" and self.integral(left) and self.integral(right):
            low = self.lvalue(left)
            self.emit("%s = capi.int_div(%s, %s)" % (low, low, text))
            return
        self.emit("%s %s %s" % (self.lvalue(left), op, text))

    def api_error(self, right):
        pass

    def assign_object(self, left, right, node):
        cat = category(qual(left))
        self.before(right)
        if cat == "mapiter":
            r = self.ref(peel(left))
            return self.set_iterator(r["id"], right)
        text = self.stored(right) if cat in ("vec", "map") \
            else self.value(right)
        if cat == "rec":
            cls = strip(qual(left)).split("::")[-1]
            low = None
            for (base, suffix, params), name in self.index.final.items():
                if base == cls + "_assign":
                    low = name
            if low:
                self.emit("%s(%s, %s)" % (low, self.expr(left), text))
                return
            if cls in self.index.less:
                self.emit("%s = %s" % (self.lvalue(left), text))
                return
            raise Unsupported("assignment of " + cls)
        if peel(left).get("kind") == "UnaryOperator" and \
                peel(kids(peel(left))[0]).get("kind") == "CXXThisExpr":
            raise Unsupported("assignment to *this")
        r = self.ref(peel(left))
        decl = self.index.decl.get((self.unit, r.get("id")), {})
        if cat in ("vec", "map") and decl.get("kind") == "ParmVarDecl" and \
                qual(decl).rstrip().endswith("&"):
            name = self.expr(left)
            if cat == "vec":
                self.emit("%s[:] = %s" % (name, text))
            else:
                tmp = self.fresh("copied")
                self.emit("%s = %s" % (tmp, text))
                self.emit("%s.clear()" % name)
                self.emit("%s.update(%s)" % (name, tmp))
            return
        self.emit("%s = %s" % (self.lvalue(left), text))

    def reshape(self, head, args, base):
        name = head["name"]
        vec = self.object(head)
        args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        t = qual(base)
        t = pointee(t) if category(t) == "ptr" else t
        elem = element(t)[0]
        if name == "erase":
            where, pos = self.veciter(args[0])
            if len(args) != 1:
                raise Unsupported("erase of a range")
            pos = {"begin": "0"}.get(pos, pos)
            if pos == "end":
                raise Unsupported("erase at the end")
            self.emit("del %s[%s]" % (where, pos))
            return
        count = self.expr(args[0])
        fill = self.expr(args[1]) if len(args) > 1 else default(elem)
        if category(elem) in ("vec", "map"):
            fills = "[%s for row_%d in range(%s)]" % (
                self.copy(fill, elem), self.next(), "%s")
        else:
            fills = "[%s] * (%s)" % (fill, "%s")
        if name == "assign":
            self.emit("%s = %s" % (vec, fills % count))
            return
        self.emit("%s = %s[:%s] + %s" % (
            vec, vec, count, fills % ("max(0, %s - len(%s))" % (count, vec))))


def split_params(signature):
    """parameter types of 'void (A, B<C, D>)'"""
    if "(" not in signature:
        return []
    inside = signature[signature.index("(") + 1:signature.rindex(")")]
    out, depth, cur = [], 0, ""
    for char in inside:
        depth += char in "<(" and 1 or 0
        depth -= char in ">)" and 1 or 0
        if char == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += char
    if cur.strip():
        out.append(cur.strip())
    return [] if out == ["void"] else out


# ------------------------------------------------------------------ modules
PRELUDE = '''
import math
import capi

PYERR = None
PYREF = 0


def virtual_convert(converter, value, out):
    out[0] = capi.converted(converter, value)
    return capi.converts(converter, value)


def virtual_compare(comparator, variable, cut_value):
    return capi.compares(comparator, variable, cut_value)
'''


class Core:
    """the lowered core"""

    def __init__(self, root):
        self.root = root
        self.units = load(root)
        self.index = Index(self.units)
        self.defs = self.index.finish()
        self.where = {}
        self.failed = {}
        self.losses = []     # (function, file, line, text)
        self.seen = {}       # conversions and static locals looked at
        self.texts = {}
        for low, (unit, node, owner) in sorted(self.defs.items()):
            self.where[low] = (self.relative(node.get("file_"), unit),
                               node.get("line_") or 0)
            try:
                self.texts[low] = Lower(self.index, unit, node,
                                        owner).function(low)
            except Unsupported as exc:
                self.failed[low] = str(exc)
            except (LookupError, AttributeError, TypeError,
                    ValueError) as exc:
                self.failed[low] = "shape of the source: %s: %s" % (
                    type(exc).__name__, exc)
            self.lossy(low, node)
        self.values = {}
        for low, (unit, node) in sorted(self.index.globals.items()):
            self.global_value(low, unit, node)

    def lossy(self, low, fn):
        """conversions the source does not spell out and that lose part of
        the value; static locals made from what one call was given"""
        self.seen[low] = 0
        local, line = set(), [fn.get("line_") or 0]
        stack = [(c, None) for c in reversed(kids(fn))]

        def note(text):
            self.losses.append((low, self.where[low][0], line[0], text))

        def leaves(n):
            out, todo = [], [n]
            while todo:
                x = todo.pop()
                if x.get("kind") in ("DeclRefExpr", "MemberExpr", "CallExpr",
                                     "CXXMemberCallExpr",
                                     "CXXOperatorCallExpr"):
                    out.append(x)
                    continue
                todo += kids(x)
            return out

        def kind(t):
            t = strip(t).rstrip("&").strip()
            return "narrow" if t in NARROW else "float" if t == "float" \
                else "real" if t in ("double", "long double") else \
                "whole" if category(t) == "scalar" and t not in (
                    "void", "bool") else None

        while stack:
            n, _up = stack.pop()
            k = n.get("kind")
            line[0] = n.get("line_") or line[0]
            if k in ("ParmVarDecl", "VarDecl"):
                if k == "VarDecl" and n.get("storageClass") == "static":
                    self.seen[low] += 1
                    todo = list(kids(n))
                    while todo:
                        x = todo.pop()
                        ref = x.get("referencedDecl") or {}
                        if x.get("kind") == "CXXThisExpr" or \
                                ref.get("id") in local:
                            note("the static local %s keeps what it was "
                                 "given in the first call" % n.get("name"))
                            break
                        todo += kids(x)
                else:
                    local.add(n.get("id"))
            elif k == "ImplicitCastExpr" and not n.get(
                    "isPartOfExplicitCast") and kids(n):
                ck = n.get("castKind")
                sub = peel(kids(n)[0])
                if ck in ("FloatingCast", "IntegralCast",
                          "FloatingToIntegral"):
                    self.seen[low] += 1
                    a, b = kind(qual(kids(n)[0])), kind(qual(n))
                    if not leaves(sub):
                        pass
                    elif ck == "FloatingCast" and (a, b) == ("real", "float"):
                        note("a double is kept as a float")
                    elif ck == "FloatingToIntegral":
                        note("a real number is cut to a whole one")
                    elif (a, b) == ("whole", "narrow") and any(
                            kind(qual(x)) == "whole" for x in leaves(sub)):
                        note("a whole number is kept in a %s"
                             % strip(qual(n)))
            elif k == "CompoundAssignOperator":
                self.seen[low] += 1
                r = n.get("computeResultType", {})
                r = kind(r.get("desugaredQualType") or r.get("qualType", ""))
                t = kind(qual(n))
                rhs = kids(n)[1]
                if (t, r) in (("whole", "real"), ("narrow", "real")):
                    note("a real number is cut to a whole one")
                elif (t, r) == ("float", "real"):
                    note("a double is kept as a float")
                elif (t, r) == ("narrow", "whole") and any(
                        kind(qual(x)) == "whole" for x in leaves(rhs)):
                    note("a whole number is kept in a %s" % strip(qual(n)))
            elif k == "ForStmt":
                parts = n.get("inner", [])
                decl = [d for d in kids(parts[0]) if d.get("kind") ==
                        "VarDecl"] if parts and parts[0].get(
                            "kind") == "DeclStmt" else []
                cond = parts[2] if len(parts) > 2 else {}
                for d in decl:
                    self.seen[low] += 1
                    if kind(qual(d)) == "narrow" and any(
                            kind(qual(x)) == "whole" for x in leaves(cond)):
                        note("the loop counter %s is a %s and never reaches "
                             "a greater number" % (d["name"],
                                                   strip(qual(d))))
            stack += [(c, n) for c in reversed(kids(n))]

    def relative(self, path, unit):
        core = os.path.join(self.root, "xboa", "core")
        if not path:
            return os.path.join("xboa/core", unit)
        path = os.path.normpath(path)
        if path.startswith(self.root):
            return os.path.relpath(path, self.root)
        return path

    def global_value(self, low, unit, node):
        init = Index.initial(node)
        if low in self.index.fnvars:
            low += "_ptr"
        self.where[low] = (self.relative(node.get("file_"), unit),
                           node.get("line_") or 0)
        if "docstring" in low or low.startswith("SmartPointer_ref_count_") \
                and low == "SmartPointer_ref_count_":
            return
        if init is None or category(qual(node)) == "smart":
            self.values[low] = default(qual(node))
            return
        lower = Lower(self.index, unit, node, None)
        lower.value_self = False
        lower.addressed, lower.mutated = set(), set()
        try:
            self.values[low] = self.table(lower, init)
        except (Unsupported, KeyError, AssertionError) as exc:
            self.failed[low] = str(exc)

    def table(self, lower, init):
        inner = peel(init)
        t = strip(qual(init))
        if inner.get("kind") == "InitListExpr":
            cells = [self.table(lower, c) for c in kids(inner)]
            if re.match(r"PyMethodDef\b.*\[", t):
                rows = {c[0]: c[1:] for c in (
                    re.findall(r'"[^"]*"|[^\s,\[\]]+', x) for x in cells)
                    if c[0] != "None"}
                return "{%s}" % ", ".join(
                    "%s: (%s)" % (k, ", ".join(v)) for k, v in rows.items())
            if t == "PyMethodDef":
                return "[%s]" % ", ".join(cells[:3])
            if re.match(r"Py\w+$|_typeobject$", t):
                return "{%s}" % ", ".join(
                    "%d: %s" % (i, c) for i, c in enumerate(cells)
                    if c != "None")
            return "[%s]" % ", ".join(cells)
        if inner.get("kind") == "ImplicitValueInitExpr":
            return "None"
        try:
            text = lower.expr(init)
        except Unsupported:
            text = "'?'"
        if text == "0" or text.endswith("docstring") or \
                inner.get("kind") == "StringLiteral" and " " in text:
            text = "None"
        if re.match(r"[\d\s()|<]+$", text):
            text = str(eval(text))     # flags: integer constants only
        return text

    def source(self):
        out = [PRELUDE.strip("\n")]
        excs = sorted(set(re.findall(
            r"\b(?:raise|except \(?)\s*(std_\w+)",
            "\n".join(self.texts.values()))) | {
                "std_runtime_error", "std_logic_error"})
        for exc in excs:
            out.append("class %s(Exception):\n    pass" % exc)
        for cls in sorted(self.index.classes - self.index.less):
            out.append("class %s:\n    pass" % cls)
        used = "\n".join(self.texts.values()) + "\n".join(
            self.values.values())
        for cls in sorted(self.index.classes):
            if re.search(r"\b%s_default\(" % cls, used):
                _u, _n, fields = self.index.records.get(cls, (0, 0, []))
                body = ["    self = %s()" % cls]
                for f in fields:
                    t = f["type"].get("desugaredQualType") or \
                        f["type"]["qualType"]
                    if category(t) == "rec":
                        continue
                    body.append("    self.%s = %s" % (f["name"], default(t)))
                out.append("def %s_default():\n%s\n    return self" % (
                    cls, "\n".join(body)))
        for low in sorted(self.texts):
            if "_del" in low and self.texts[low].endswith("):\n    pass"):
                continue
            out.append(self.texts[low])
        for low in sorted(self.failed):
            if low in self.defs:
                out.append("def %s(*args):\n    raise capi.Unsupported(%r)"
                           % (low, self.failed[low]))
        for low, text in self.ordered_values():
            out.append("%s = %s" % (low, text))
        return "\n\n\n".join(out) + "\n"

    def ordered_values(self):
        done, out = set(), []
        pending = sorted(self.values.items())
        names = {low for low, _t in pending}
        while pending:
            rest = []
            for low, text in pending:
                needs = {w for w in re.findall(r"\w+", text)
                         if w in names and w != low}
                if needs <= done:
                    out.append((low, text))
                    done.add(low)
                else:
                    rest.append((low, text))
            if len(rest) == len(pending):
                out.extend(rest)
                break
            pending = rest
        return out


_CACHE = {}


def lowered(root):
    """-> (source, where, failed, losses, seen) of the core under root; CxxError"""
    core = os.path.join(root, "xboa", "core")
    stamp = []
    for sub in ("", "cpplib", "pylib", "utils"):
        d = os.path.join(core, sub)
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else ():
            if f.endswith((".cc", ".hh", ".h", ".cpp", ".hpp")):
                st = os.stat(os.path.join(d, f))
                stamp.append((d, f, st.st_mtime_ns, st.st_size))
    key = tuple(stamp)
    if key not in _CACHE:
        made = Core(root)
        _CACHE[key] = (made.source(), made.where, made.failed, made.losses,
                       made.seen)
    return _CACHE[key]


if __name__ == "__main__":
    import sys
    core = Core(sys.argv[1] if len(sys.argv) > 1 else "/repo")
    print(core.source())
    for low, why in sorted(core.failed.items()):
        print("# FAILED", low, why)
