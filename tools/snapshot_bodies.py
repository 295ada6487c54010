"""drafts specs/bodies.py: the reviewed module and class level statements"""
import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.repo import Repo
SKIP = ("xboa.examples", "xboa.Bunch", "xboa.Common", "xboa.Hit")
MAP = open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                        "body_props.txt")).read()
out = ['"""Module and class level values of the reviewed tree, one function per '
       'body."""\n']
r = Repo()


def keep(s):
    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import,
                      ast.ImportFrom)):
        return False
    if isinstance(s, ast.Expr):
        return isinstance(s.value, ast.Call)
    if isinstance(s, ast.If):
        return False
    if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and \
            s.targets[0].id in ("__doc__", "dump_handle", "__slots__"):
        return False
    if isinstance(s, ast.Try):
        return any(isinstance(n, (ast.Assign, ast.AugAssign))
                   for n in ast.walk(s))
    return True


out.append("PROPMAP = " + MAP)
n = 0
for m in r.modules.values():
    if m.name.startswith(SKIP):
        continue
    for c in [None] + list(m.classes.values()):
        node = m.tree if c is None else c.node
        b = [s for s in node.body if keep(s) and
             not isinstance(s, ast.Pass)]
        if not b:
            continue
        n += 1
        q = m.name + (":" + c.name if c else "")
        out.append('\n@body("%s")\ndef body_%d():' % (q, n))
        for s in b:
            for line in ast.unparse(s).split("\n"):
                out.append("    " + line)
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(
    __file__))), "specs", "bodies.py"), "w").write("\n".join(out) + "\n")
print(n)
