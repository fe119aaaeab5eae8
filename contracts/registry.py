"""Which contract module decides which property."""
import importlib
import os
import glob
import re
from irv.spec import Contract


class Property:
    def __init__(self, pid, harness, sources=(), assumptions=(), bound=None, exclude=(), cflags=(), once=False, ldflags=()):
        self.id = pid
        self.harness = harness
        self.sources = list(sources)     # extra repository sources (normally found through the include graph)
        self.exclude = list(exclude)     # repository sources the harness stands in for
        self.cflags = list(cflags)
        self.ldflags = list(ldflags)
        self.once = once                 # the contracts are histories of the static state themselves
        self.assumptions = list(assumptions)
        self.contracts = []
        self.bound = bound               # stated size bound of every contract that does not state its own

    def contract(self, title, overrides=(), name=None, **opts):
        def d(f):
            if self.bound:
                opts.setdefault('bound', self.bound)
            if self.once:
                opts.setdefault('once', True)
            ov = [(re.compile(p), g) for p, g in overrides]
            self.contracts.append(Contract(f, self.id, name or f.__name__, title, opts, ov))
            return f
        return d


def load(pid):
    d = os.path.dirname(__file__)
    for f in sorted(glob.glob(d + '/c*.py')):
        m = importlib.import_module('contracts.' + os.path.basename(f)[:-3])
        for v in vars(m).values():
            if isinstance(v, Property) and v.id == pid:
                return v
    raise SystemExit('unknown property ' + pid)
