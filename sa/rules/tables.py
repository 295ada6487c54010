"""Internal consistency of the tables of the library.

The tables (units, particle codes, file formats) are evaluated from the text
of the module and class bodies, and judged by what they mean: a unit is its
prefix times its base unit, an antiparticle has the opposite charge, what is
written in a column is read from the same column."""
import math
import re
from . import rule, Report
from .. import bodies
from .. import terms as T


class Unknown(Exception):
    pass


def plain(t):
    """the Python value of a term, or Unknown"""
    n = T.num_value(t)
    if n is not None:
        return float(n)
    if t.op == "const":
        return t.args[0]
    if t.op == "sum" or t.op == "poly":
        raise Unknown()
    if t.op in ("list", "tuple") and isinstance(t.args[0], tuple):
        return [plain(x) for x in t.args[0]]
    if t.op == "dict":
        return dict((plain(k), soft(v)) for k, v in t.args[0])
    if t.op == "store":
        base = plain(t.args[0])
        if isinstance(base, dict):
            base[plain(t.args[1])] = soft(t.args[2])
            return base
    raise Unknown()


def soft(t):
    try:
        return plain(t)
    except Unknown:
        return Unknown


def body_values(repo, qual):
    """name -> term of a module or class body"""
    cache = repo.__dict__.setdefault("_tables", {})
    if qual in cache:
        return cache[qual]
    mod, _, cn = qual.partition(":")
    m = repo.modules.get(mod)
    cls = m.classes.get(cn) if m is not None and cn else None
    vals = None
    if m is not None and not (cn and cls is None):
        src = m.tree if cls is None else cls.node
        try:
            T.budget(400000, 60)
            vals = bodies.evaluate(repo, m, cls,
                                   [s for s in src.body if bodies.keep(s)])[1]
        except (T.Blowup, OverflowError, RecursionError):
            vals = None
    cache[qual] = (m, cls, vals)
    return cache[qual]


def table(repo, qual, name, rep):
    """(value, where) of a table, or (None, where) and an unknown"""
    m, cls, vals = body_values(repo, qual)
    c = qual + ("." if ":" in qual else ":") + name
    if m is None:
        rep.unknown(c, "the module is gone")
        return None, qual
    where = "%s:%d" % (m.rel, getattr(cls.node, "lineno", 1) if cls else 1)
    for s in (cls.node if cls else m.tree).body:
        if name in bodies.targets([s]) or \
                (cls and "_%s%s" % (cls.name, name) in bodies.targets([s])):
            where = "%s:%d" % (m.rel, s.lineno)
            break
    t = None
    if vals is not None:
        for n in (name, "_%s%s" % (cls.name, name) if cls else name):
            if n in vals:
                t = vals[n]
    if t is None:
        rep.unknown(c, "not evaluated")
        return None, where
    v = soft(t)
    if v is Unknown or not isinstance(v, dict):
        rep.unknown(c, "not a table of constants")
        return None, where
    return v, where


def close(a, b, tol):
    return abs(a - b) <= tol * max(abs(a), abs(b), 1e-300)


# ---------------------------------------------------------------- units

PREFIX = {"p": 1e-12, "n": 1e-9, "mu": 1e-6, "u": 1e-6, "m": 1e-3,
          "c": 1e-2, "d": 1e-1, "": 1., "h": 1e2, "k": 1e3, "M": 1e6,
          "G": 1e9, "T": 1e12, "P": 1e15}
JOULE = 6.24150974e12       # MeV
BASE = {"m": 1e3, "s": 1e9, "eV": 1e-6, "eV/c": 1e-6, "eV/c2": 1e-6,
        "V": 1e-6, "T": 1e-3, "Gauss": 1e-7, "G": None, "Hz": 1e-9,
        "W": JOULE * 1e-9, "J": JOULE, "V/m": 1e-9, "V/mm": 1e-6}
FIXED = {"": 1., "rad": 1., "radian": 1., "radians": 1.,
         "deg": math.pi / 180., "degree": math.pi / 180.,
         "degrees": math.pi / 180., "echarge": 1.,
         "Coulomb": 6.24150974e18, "C": 6.24150974e18}


def unit_value(name):
    """the value of a unit in mm, ns, MeV, MV, kT, rad, e; or None"""
    if name in FIXED:
        return FIXED[name]
    got = set()
    for b, v in BASE.items():
        if v is not None and name.endswith(b):
            p = name[:len(name) - len(b)]
            if p in PREFIX:
                got.add(round(math.log(PREFIX[p] * v), 9))
    if len(got) == 1:
        return math.exp(got.pop())
    return None


def judge_units(units, say):
    for k in sorted(units, key=str):
        v = units[k]
        c = "units[%s]" % k
        if v is Unknown or not isinstance(v, float) or \
                not isinstance(k, str):
            say("unknown", c, "no number")
            continue
        w = unit_value(k)
        if w is None:
            say("unknown", c, "no unit this rule knows")
        elif close(v, w, 1e-6):
            say("ok", c, "")
        else:
            say("bad", c, "%s is %.9g, the physical value in the units of "
                "xboa is %.9g" % (k, v, w))


CONSTANTS = {"c_light": (299.792458, 1e-9), "pi": (math.pi, 1e-7),
             "echarge": (1., 1e-9)}


@rule("units", "P09", 2, "every unit name has the value of its prefix times "
      "its base unit in mm, ns, MeV; the constants have their values")
def units(repo):
    rep = Report()
    got = []
    judge_units({"mm": 1., "cm": 10., "GeV/c": 1e3, "kW": 6.24150974e6},
                lambda k, c, t: got.append(k))
    assert got == ["ok"] * 4, got
    got = []
    judge_units({"cm": 1., "furlong": 3.}, lambda k, c, t: got.append(k))
    assert got == ["bad", "unknown"], got
    q = "xboa.common._common"
    for name, judge in (("units", judge_units), ("constants", constants)):
        v, where = table(repo, q, name, rep)
        if v is None:
            continue

        def say(kind, c, text):
            c = "%s:%s" % (q, c)
            if kind == "ok":
                rep.ok(c)
            elif kind == "bad":
                rep.bad(c, where, text)
            else:
                rep.unknown(c, text)
        judge(v, say)
    return rep


def constants(v, say):
    for k, (w, tol) in sorted(CONSTANTS.items()):
        c = "constants[%s]" % k
        if k not in v or not isinstance(v[k], float):
            say("unknown", c, "no number")
        elif close(v[k], w, tol):
            say("ok", c, "")
        else:
            say("bad", c, "is %.12g, not %.12g" % (v[k], w))


# ------------------------------------------------------------ particles

# PDG code -> (mass in MeV, charge, name); the tolerance covers the choice
# of atomic or nuclear masses
PDG = {11: (0.510999, -1), 12: (0., 0), 13: (105.658, -1), 14: (0., 0),
       15: (1776.9, -1), 16: (0., 0), 22: (0., 0), 111: (134.977, 0),
       211: (139.570, 1), 321: (493.677, 1), 2112: (939.565, 0),
       2212: (938.272, 1), 130: (497.61, 0), 310: (497.61, 0),
       311: (497.61, 0), 3122: (1115.68, 0), 3222: (1189.37, 1),
       3212: (1192.64, 0), 3112: (1197.45, -1), 3322: (1314.86, 0),
       3312: (1321.71, -1), 3334: (1672.45, -1),
       1000010020: (1875.61, 1), 1000010030: (2808.92, 1),
       1000020030: (2808.39, 2), 1000020040: (3727.38, 2),
       0: (0., 0)}


def judge_particles(mass, name, charge, say):
    codes = [k for k in charge if isinstance(k, float)]
    for k in sorted(codes):
        c = "pdg %d" % k
        q, m = charge[k], mass.get(abs(k), Unknown)
        if abs(k) not in mass:
            say("bad", c, "has a charge and no mass")
            continue
        if k not in name:
            say("bad", c, "has a charge and no name")
            continue
        if not isinstance(q, float) or not isinstance(m, float):
            say("unknown", c, "no number")
            continue
        if -k in charge and isinstance(charge[-k], float) and k and \
                charge[-k] != -q:
            say("bad", c, "has charge %g, its antiparticle %g" %
                (q, charge[-k]))
            continue
        if int(abs(k)) in PDG:
            pm, pq = PDG[int(abs(k))]
            if k < 0:
                pq = -pq
            if q != pq:
                say("bad", c, "has charge %g, not %g" % (q, pq))
                continue
            if not close(m, pm, 1e-3) and abs(m - pm) > 1e-9:
                say("bad", c, "has mass %g, not %g" % (m, pm))
                continue
        twin = [j for j in name if j != k and name[j] == name[k] and
                isinstance(name[k], str)]
        if twin:
            say("bad", c, "has the name %s of %d" % (name[k], twin[0]))
            continue
        n = name[k]
        if isinstance(n, str) and n[-1:] in "+-" and \
                (q > 0) != (n[-1] == "+"):
            say("bad", c, "is called %s and has charge %g" % (n, q))
            continue
        say("ok", c, "")
    for k in sorted(k for k in name if isinstance(k, float)):
        if k not in charge:
            say("bad", "pdg %d" % k, "has a name and no charge")
    for k in sorted(k for k in mass if isinstance(k, float)):
        if k not in charge:
            say("bad", "pdg %d" % k, "has a mass and no charge")


# the codes of the other programs: ICOOL's reference manual (particle types
# 1 to 5), the MARS particle list in the comment of _common.py
FOREIGN = {
    "icool": {0: 0, 1: -11, 2: -13, 3: 211, 4: 321, 5: 2212, -1: 11, -2: 13,
              -3: -211, -4: -321, -5: -2212},
    "mars": {1: 2212, 2: 2112, 3: 211, 4: -211, 5: 321, 6: -321, 7: -13,
             8: 13, 9: 22, 10: 11, 11: -11, 12: -2212, 13: 111,
             14: 1000010020, 15: 1000010030, 16: 1000020030, 17: 1000020040,
             18: 14, 19: -14, 20: 12, 21: -12, 22: 130, 23: 310, 24: 311,
             25: -311, 26: 3122, 27: -3122, 31: -2112},
}


def judge_codes(there, back, known, want, say, label):
    for k in sorted(there, key=str):
        v = there[k]
        c = "%s code %s" % (label, k)
        if v is Unknown:
            say("unknown", c, "no constant")
            continue
        if want and k in want and v != want[k] and v != 0:
            say("bad", c, "means pdg %d, the table gives %d" % (want[k], v))
            continue
        if known and v not in known:
            say("bad", c, "is mapped to %s, which is no particle of the "
                "charge table" % (v,))
            continue
        same = [j for j in there if there[j] == v]
        b = back.get(v)
        if v not in back:
            say("bad", c, "cannot be written: pdg %s has no code" % (v,))
        elif b is Unknown:
            say("unknown", c, "no constant")
        elif b not in same:
            say("bad", c, "is read as pdg %s, which is written as %s" %
                (v, b))
        else:
            say("ok", c, "")
    for v in sorted(back, key=str):
        b = back[v]
        if b is Unknown:
            continue
        if b not in there:
            say("bad", "%s from pdg %s" % (label, v),
                "is written as %s, which is no code that can be read" % (b,))
        elif there[b] != v and there[b] is not Unknown:
            say("bad", "%s from pdg %s" % (label, v),
                "is written as %s, which is read as %s" % (b, there[b]))


@rule("particles", "P10", 5, "mass, charge and name tables cover the same "
      "particles with the charges and masses of the PDG list; foreign codes "
      "map there and back")
def particles(repo):
    rep = Report()
    got = []
    judge_particles({13.: 105.66}, {13.: "mu-", -13.: "mu+"},
                    {13.: -1., -13.: 1.}, lambda k, c, t: got.append(k))
    assert got == ["ok", "ok"], got
    got = []
    judge_particles({13.: 105.66, 211.: 0.1},
                    {13.: "mu-", -13.: "mu-", 211.: "pi+", 22.: "p"},
                    {13.: -1., -13.: -1., 211.: 1.},
                    lambda k, c, t: got.append(k))
    assert got == ["bad"] * 4, got
    got = []
    judge_codes({1.: 13., 2.: 14.}, {13.: 1., 14.: 1.}, {13., 14.}, {},
                lambda k, c, t: got.append(k), "x")
    assert got == ["ok", "bad", "bad"], got
    q = "xboa.common._common"

    def say(kind, c, text):
        c = "%s:%s" % (q, c)
        if kind == "ok":
            rep.ok(c)
        elif kind == "bad":
            rep.bad(c, where, text)
        else:
            rep.unknown(c, text)
    mass, where = table(repo, q, "pdg_pid_to_mass", rep)
    name, where = table(repo, q, "pdg_pid_to_name", rep)
    charge, where = table(repo, q, "pdg_pid_to_charge", rep)
    if mass is not None and name is not None and charge is not None:
        judge_particles(mass, name, charge, say)
    for f in ("icool", "mars", "muon1"):
        there, where = table(repo, q, f + "_pid_to_pdg", rep)
        back, where = table(repo, q, "pdg_pid_to_" + f, rep)
        if there is not None and back is not None:
            judge_codes(there, back, charge or (),
                        FOREIGN.get(f), say, f)
    return rep


# -------------------------------------------------------------- formats

HIT = "xboa.hit._hit:Hit"
FACTORY = "xboa.hit.factory._builtin_hit_factory:BuiltinHitFactory"
KIND = {"x": "m", "y": "m", "z": "m", "t": "s", "px": "eV/c", "py": "eV/c",
        "pz": "eV/c", "energy": "eV", "bx": "T", "by": "T", "bz": "T",
        "ex": "V/m", "ey": "V/m", "ez": "V/m", "ct": "m", "mass": "eV/c2",
        "p": "eV/c", "proper_time": "s", "path_length": "m"}


def dimension(unit):
    for b in BASE:
        if unit.endswith(b) and unit[:len(unit) - len(b)] in PREFIX and \
                unit_value(unit) is not None:
            yield b


def judge_formats(wf, wu, rf, ru, unit_names, say):
    for f in sorted(rf, key=str):
        c = "format %s" % f
        if f not in wf:
            say("bad", c, "can be read and not written")
            continue
        a, b = wf[f], rf[f]
        if Unknown in (a, b) or not isinstance(a, list) or \
                not isinstance(b, list):
            say("unknown", c, "no constant list of columns")
        elif a != b:
            i = [k for k in range(max(len(a), len(b)))
                 if a[k:k + 1] != b[k:k + 1]][0]
            say("bad", c, "column %d is written as %s and read as %s" % (
                i + 1, (a + ["(nothing)"] * 99)[i],
                (b + ["(nothing)"] * 99)[i]))
        else:
            twice = [x for x in a if x and a.count(x) > 1]
            if twice:
                say("bad", c, "has the column %s twice" % twice[0])
            else:
                say("ok", c, "")
        for who, fs, us in (("written", wf, wu), ("read", rf, ru)):
            cols, u = fs.get(f), us.get(f)
            if not isinstance(cols, list) or not isinstance(u, dict):
                say("unknown", c + " units " + who, "no constants")
                continue
            for col in cols:
                cc = "%s %s %s" % (c, col, who)
                if col == "":
                    continue
                if col not in u:
                    say("bad", cc, "has no unit")
                    continue
                x = u[col]
                if not isinstance(x, str):
                    say("unknown", cc, "no constant")
                elif unit_names is not None and x not in unit_names:
                    say("bad", cc, "has the unit %s, which is not in "
                        "common.units" % x)
                elif x and col in KIND and list(dimension(x)) and \
                        KIND[col] not in dimension(x):
                    say("bad", cc, "has the unit %s" % x)
                elif who == "written" and isinstance(ru.get(f), dict) and \
                        col in ru[f] and ru[f][col] != x and \
                        isinstance(ru[f][col], str):
                    say("bad", cc, "is written in %s and read in %s" % (
                        x or "1", ru[f][col] or "1"))
                else:
                    say("ok", cc, "")


@rule("formats", "P08", 5, "each built-in text format has the same columns "
      "in the same units for writing and reading, all of them units of "
      "common.units of the right dimension; headers have as many lines as "
      "reading skips")
def formats(repo):
    rep = Report()
    got = []
    judge_formats({"a": ["x", "t"]}, {"a": {"x": "mm", "t": "s"}},
                  {"a": ["x", "t"]}, {"a": {"x": "mm", "t": "s"}},
                  {"mm", "s"}, lambda k, c, t: got.append(k))
    assert got == ["ok"] * 5, got
    got = []
    judge_formats({"a": ["x", "t"]}, {"a": {"x": "mm", "t": "s"}},
                  {"a": ["t", "x"]}, {"a": {"x": "cm", "t": "m"}},
                  {"mm", "s", "m"}, lambda k, c, t: got.append((k, c)))
    assert [k for k, c in got] == ["bad"] * 5, got
    where = HIT

    def say(kind, c, text):
        c = "%s.%s" % (HIT, c)
        if kind == "ok":
            rep.ok(c)
        elif kind == "bad":
            rep.bad(c, where, text)
        else:
            rep.unknown(c, text)
    wf, where = table(repo, HIT, "__file_formats", rep)
    wu, where = table(repo, HIT, "__file_units", rep)
    rf, _ = table(repo, FACTORY, "file_formats", rep)
    ru, _ = table(repo, FACTORY, "file_units", rep)
    un, _ = table(repo, "xboa.common._common", "units", rep)
    if None not in (wf, wu, rf, ru):
        judge_formats(wf, wu, rf, ru, un, say)
    wh, where = table(repo, HIT, "__file_headers", rep)
    skip, _ = table(repo, "xboa.bunch._bunch:Bunch",
                    "__number_of_header_lines", rep)
    if wh is not None and skip is not None:
        for f in sorted(wh, key=str):
            h, n = wh[f], skip.get(f)
            c = "header of %s" % f
            if not isinstance(h, str) or not isinstance(n, float):
                say("unknown", c, "not in both tables")
                continue
            lines = h.split("\n")
            if lines[-1]:
                say("bad", c, "does not end its last line")
                continue
            lines.pop()
            # lines the reader recognises as comments need not be skipped
            left = [x for x in lines[int(n):] if not x.startswith("#")]
            if n > len(lines):
                say("bad", c, "has %d lines, reading skips %d" % (
                    len(lines), n))
            elif left:
                say("bad", c, "has %d lines, reading skips %d" % (
                    len(lines), n))
            else:
                say("ok", c, "")
    return rep
