"""development aid: drafts specs/cxx_core.py and sa/cxx_names.json from the
lowered C++ core of the reviewed tree"""
import ast
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import cxx, repo as R        # noqa: E402

RULES = [
    (r"SmartPointer_", "P20"),
    (r"_?(CppPy|PyCpp)", "P19 P20"),
    (r"HitId_", "P06 P07"),
    (r"(Add|Subtract|Multiply|Divide|Not)_", "P07"),
    (r"WeightContext_(get|set|clear)", "P06 P07"),
    (r"WeightContext_(new|assign|clone)", "P05 P07"),
    (r"WeightContext_", "P07"),
    (r"PyWeightContext_(get|set)", "P06 P07 P19 P20"),
    (r"PyWeightContext_(_alloc|_free|_init|create)", "P07 P19 P20"),
    (r"PyWeightContext_(import|PyInit)", "P19 P21"),
    (r"_?PyWeightContext_", "P07 P19"),
    (r"Hitcore_(.*weight.*|clear_global.*)$", "P01 P06"),
    (r"Hitcore_(new|assign|del)", "P01 P05"),
    (r"_?Hitcore_", "P01"),
    (r"_?PyHitcore_.*([wW]eight).*", "P06 P19 P20"),
    (r"PyHitcore_(_alloc|_free|_init|create|get_hitcore|set_hitcore)",
     "P01 P19 P20"),
    (r"PyHitcore_(import|PyInit)", "P19 P21"),
    (r"PyHitcore__richcompare", "P05 P19"),
    (r"_?PyHitcore_", "P01 P19"),
    (r"Bunchcore_(get_moment_tensor|get_index_by_power)|"
     r"_Bunchcore_get_index_by_power", "P13"),
    (r"Bunchcore_get_moment$|_Bunchcore_bunch_weight", "P12 P13"),
    (r"Bunchcore_covariance", "P12 P14"),
    (r"Bunchcore_cut", "P12 P16"),
    (r"PythonComparator", "P16 P19 P20"),
    (r"Bunchcore_", "P12"),
    (r"PyBunchcore_(moment_tensor|index_by_power)", "P13 P19"),
    (r"PyBunchcore_moment", "P12 P13 P19"),
    (r"PyBunchcore_covariance", "P12 P14 P19"),
    (r"PyBunchcore_cut", "P12 P16 P19"),
    (r"PyBunchcore_PyInit", "P19 P21"),
    (r"PyBunchcore_(alloc|dealloc|init)", "P12 P19 P20"),
    (r"_PyBunchcore_setWeightContext", "P06 P12 P13 P14 P19"),
    (r"_?PyBunchcore_", "P12 P19"),
]


def props(name):
    for pattern, text in RULES:
        if re.match(pattern, name):
            return text
    return "P19"


def names():
    """the lowered names, before reviewed_names exist"""
    path = os.path.join(HERE, "sa", "cxx_names.json")
    if os.path.exists(path):
        os.remove(path)
    core = cxx.Core(R.ROOT)
    groups = {}
    for (base, suffix, params), low in core.index.final.items():
        groups.setdefault(base + suffix, []).append(list(params))
    with open(path, "w") as out:
        json.dump({k: (v[0] if len(v) == 1 else ["*"])
                   for k, v in sorted(groups.items())}, out, indent=0,
                  sort_keys=True)


def main():
    names()
    cxx._CACHE.clear()
    core = cxx.Core(R.ROOT)
    tree = ast.parse(core.source())
    out = ['"""The reviewed C++ core, lowered by sa/cxx.py (parsed, never '
           'executed)."""']
    n = 0
    for node in tree.body:
        if not isinstance(node, ast.FunctionDef) or \
                node.name.startswith("virtual_"):
            continue
        n += 1
        text = ast.unparse(node)
        text = re.sub(r"^def \w+\(", "def ref_%s(" % node.name.strip("_"),
                      text)
        out.append('\n\n@spec("cxx:%s", props="%s", io=True)\n%s' % (
            node.name, props(node.name), text))
    with open(os.path.join(HERE, "specs", "cxx_core.py"), "w") as handle:
        handle.write("\n".join(out) + "\n")
    path = os.path.join(HERE, "sa", "baseline_functions.txt")
    lines = [x for x in open(path).read().split("\n")
             if x and not x.startswith("cxx:")]
    lines += ["cxx:" + x.name for x in tree.body
              if isinstance(x, ast.FunctionDef)]
    with open(path, "w") as handle:
        handle.write("\n".join(lines) + "\n")
    print(n, core.failed)


if __name__ == "__main__":
    main()
