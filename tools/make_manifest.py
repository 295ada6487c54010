#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = """P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19
P20 P21 P22 P23 P24
P25 P26 P27 P28 P29 P30 P31 P32 P33 P34""".split()
NOT_APPLICABLE = {
    "P35": "how closely an iterative or randomised numerical method "
           "converges depends on run-time data; no sound static bound on it "
           "is in reach here",
    "P36": "how many digits survive printing and parsing a float is a "
           "property of run-time values and of library routines, not of the "
           "program text",
}
TECH = "static value-graph comparison with reference functions"
NOTE = ("Decided from the source text on every run; nothing is executed. A "
        "violation is reported only where the value graph of the code "
        "definitely differs from that of the reference or a rule matches a "
        "definite construct; what the analysis cannot normalise is listed "
        "as undecided in the evidence. Trusted: the reference functions in "
        "/verif/specs, the normal form in /verif/sa, exact arithmetic for "
        "floating point.")
SHAPE = ("; queries over the resolved class and import structure (decorators, "
         "bases, operators, what names stand for, effects of importing) and over the syntax "
         "tree (containers shared between places, in-place operators on the "
         "caller's arrays, left finally clauses, lossy C++ conversions)")
TABLES = ("evaluation of the module and class level tables from the source "
          "and consistency rules over them (%s); " + TECH)
SPECIAL = {
    "P08": (TABLES % "columns, units and headers of writer against reader",
            NOTE),
    "P09": (TABLES % "prefix times base unit", NOTE),
    "P10": (TABLES % "coverage, charges, masses, inverse codes", NOTE),
    "P20": (TECH + "; forward dataflow over the C++ core for objects used "
            "after their last reference was given up", NOTE),
    "P21": ("scope, attribute and call-signature resolution over every "
            "module, definite-assignment dataflow; " + TECH, NOTE),
    "P22": ("typestate dataflow on the control-flow graph with exception "
            "edges (opened, closed, handed over); " + TECH, NOTE),
}


def main():
    props = [json.loads(x) for x in open(os.path.join(
        HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CLAIMED:
            tech, note = SPECIAL.get(i, (TECH, NOTE))
            checks.append({
                "property": i,
                "quick_cmd": "python3 check.py %s --tier quick" % i,
                "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": tech + ("" if i in ("P07", "P10", "P20") else
                                     SHAPE), "level": "other", "level_note": note})
        else:
            na.append({"property": i, "reason": NOT_APPLICABLE.get(
                i, "no check has been built for it yet")})
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa specs",
         "checks": checks, "not_applicable": na,
         "notes": "python3 tools/make_manifest.py writes this file"}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
