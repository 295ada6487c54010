"""C++ core: part of a value is lost in a conversion the source does not
spell out, or a static local keeps what the first call was given"""
from . import rule, Report
from .. import specs as S

PROPS = "P01 P05 P06 P07 P12 P13 P14 P16 P20"


def owners(repo):
    if not hasattr(repo, "_cxx_owners"):
        repo._cxx_owners = {s.target[4:]: set(s.props) for s in S.load(repo)
                            if s.target.startswith("cxx:")}
    return repo._cxx_owners


@rule("lossy", PROPS, 1, "the compiled core keeps every number in a type "
      "that can hold it, and no static local outlives the call it was made "
      "from")
def lossy(repo, prop):
    rep = Report()
    m = repo.modules.get("cxx")
    if m is None:
        rep.unknown("xboa/core", repo.cxx_error or "not read")
        return rep
    own = owners(repo)
    bad = {}
    for low, path, line, text in m.losses:
        bad.setdefault(low, []).append((path, line, text))
    for low in sorted(m.seen):
        mine = own.get(low, set()) - {"P19", "P20", "P21"} or {"P20"}
        if prop not in mine:
            continue
        c = "cxx:%s conversions" % low
        if low not in bad:
            rep.ok(c)
        for path, line, text in sorted(set(bad.get(low, ()))):
            rep.bad("%s/%s" % (c, text), "%s:%d" % (path, line), text)
    return rep
