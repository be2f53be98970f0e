"""Properties and cases."""
import importlib


class Case:
    def __init__(self, name, fn, params=None, tier='quick', budget=None,
                 witnesses=2):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.tier = tier
        self.budget = budget
        self.witnesses = witnesses


class Prop:
    """Collects the cases of one property."""

    def __init__(self, pid, functions, bounds, assumptions=(), outside=''):
        self.id = pid
        self.functions = list(functions)
        self.bounds = bounds
        self.assumptions = list(assumptions)
        self.outside = outside
        self.cases = []

    def case(self, fn, name=None, tier='quick', budget=None, witnesses=2,
             **params):
        nm = name or fn.__name__
        if params:
            nm += '[' + ','.join('%s=%s' % (k, params[k])
                                 for k in params) + ']'
        self.cases.append(Case(nm, fn, params, tier, budget, witnesses))

    def cases_for(self, tier):
        return [c for c in self.cases
                if tier == 'thorough' or c.tier == 'quick']


def load(pid):
    return importlib.import_module('props.' + pid.lower()).P


def find(pid, name):
    for c in load(pid).cases:
        if c.name == name:
            return c
    raise KeyError(name)
