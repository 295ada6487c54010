"""development aid: writes first drafts of reference functions from reviewed
code: docstrings, prints and comments are dropped. Usage: snapshot.py"""
import ast
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.repo import Repo
from sa import specs as S

PLAN = {}


def plan(mod, out, default, **kw):
    PLAN[mod] = (out, default, kw)


class Strip(ast.NodeTransformer):
    def body(self, node):
        self.generic_visit(node)
        b = []
        for s in node.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                    isinstance(s.value.func, ast.Name) and \
                    s.value.func.id == "print" and not s.value.keywords:
                continue
            b.append(s)
        node.body = b or [ast.Pass()]
        return node
    visit_FunctionDef = visit_If = visit_For = visit_While = visit_With = \
        visit_ExceptHandler = body

    def visit_Try(self, node):
        return self.body(node)


def draft(repo, mod, have):
    out, default, kw = PLAN[mod]
    m = repo.modules[mod]
    lines = []
    for st in m.tree.body:
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            if isinstance(st, ast.ImportFrom) and st.level:
                base = mod.split(".")
                if not m.is_pkg if hasattr(m, "is_pkg") else True:
                    base = base[:-1]
                base = base[:len(base) - (st.level - 1)]
                st.module = ".".join(base + ([st.module] if st.module else []))
                st.level = 0
            lines.append(ast.unparse(st))
        elif isinstance(st, ast.Try):
            for x in st.body:
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    lines.append(ast.unparse(x))
    defs = []
    for f in m.functions.values():
        lines.append("from %s import %s" % (mod, f.node.name))
        defs.append((mod + ":" + f.node.name, f.node.name, f))
    for c in m.classes.values():
        lines.append("from %s import %s" % (mod, c.name))
        for f in c.methods.values():
            defs.append(("%s:%s.%s" % (mod, c.name, f.node.name),
                         c.name + "_" + f.node.name.strip("_"), f))
    text = []
    for target, name, f in defs:
        short = target.split(":")[1]
        props = kw.get(short.split(".")[-1], default)
        if "overview_doc" in short or target in have or props is None:
            continue
        node = Strip().visit(ast.parse(ast.unparse(f.node)).body[0])
        node.name = "ref_" + name
        node.decorator_list = []
        extra = ""
        if isinstance(props, tuple):
            props, extra = props
            extra = ", " + extra
        text.append('\n\n@spec("%s", props="%s"%s)\n%s' % (
            target, props, extra, ast.unparse(node)))
    head = "# drafted from reviewed code, parsed and never executed\n"
    return out, head + "\n".join(lines), text
