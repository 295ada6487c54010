"""module and class level values"""
from . import rule, Report
from .. import bodies

PROPS = """P01 P02 P03 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P19 P20 P21 P22 P24 P27 P30 P31
P32 P33 P34"""


@rule("value", PROPS, 1, "module and class level names have the value of the "
      "reviewed body (tables may gain entries)")
def values(repo, prop):
    rep = Report()
    for c, where, kind, text in bodies.check(repo, prop):
        if kind == "ok":
            rep.ok(c)
        elif kind == "bad":
            rep.bad(c, where, text)
        else:
            rep.unknown(c, text)
    return rep
