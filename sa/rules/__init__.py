"""Registry of the rule families: each rule takes the Repo and returns a
Report of the instances it looked at and the findings it is sure of."""
RULES = []


class Finding(object):
    def __init__(self, construct, where, text):
        self.construct = construct      # stable: file/function/what
        self.where = where              # file:line
        self.text = text


class Report(object):
    def __init__(self):
        self.instances = []     # what was looked at
        self.findings = []
        self.undecided = []     # (construct, why)

    def ok(self, construct):
        self.instances.append(construct)

    def bad(self, construct, where, text):
        self.instances.append(construct)
        self.findings.append(Finding(construct, where, text))

    def unknown(self, construct, why):
        self.undecided.append((construct, why))


def rule(name, props, floor=1, text=""):
    def deco(fn):
        RULES.append((name, props.split(), floor, text or fn.__doc__ or "",
                      fn))
        return fn
    return deco


def load_all():
    import importlib
    import os
    d = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            importlib.import_module("sa.rules." + f[:-3])
    return RULES
