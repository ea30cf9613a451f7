"""Effects over the analysis contexts of all properties.

The contexts other properties are decided in are analysed again, without
evaluating their obligations; the effects recorded in each (draws of random
numbers, mutations, writes to modules, classes or global state) are handed to
a judge before the context is dropped.
"""
import importlib
import multiprocessing
import os
from .report import Report
from .lab import Rejected

NAMES = ['C%02d' % i for i in range(6, 48) if i not in (28, 45)]


class Silent(Report):
    """Runs the contexts of a property; obligations are not evaluated."""

    def __init__(self, prop, seed, judge, raising=False):
        super().__init__(prop, 'quick', seed)
        self.judge, self.key, self.current = judge, '', None
        self.raising = raising

    def flush(self):
        L = self.current
        if L is not None:
            self.judge(self, L, L.ip.events[L.ip.base_events:])
        self.current = None

    def lab(self, **kw):
        self.flush()
        self.current = super().lab(**kw)
        self.current.ip.raise_mode = self.raising
        self.current.ip.track = True
        return self.current

    def context(self, key, where=''):
        self.key = key
        return super().context(key, where)

    def eq(self, key, L, got, spec, where, what='', **kw):
        return 'ok'

    def accepts(self, key, L, out, where, what='', explore=True):
        if not out.live:
            raise Rejected(out)
        return 'ok'

    def rejects(self, key, L, out, where, what, types=None):
        return 'ok'


def in_library(e):
    return e.site.startswith('sdepy/') and \
        not e.site.startswith('sdepy/client.py')


def run(args):
    name, judge, seed, raising = args
    mod = importlib.import_module('sa.props.' + name.lower())
    found = []
    R = Silent(name, seed, lambda R, L, evs: judge(
        name, R.key, L, evs, found.append), raising)
    try:
        mod.check(R)
        R.flush()
    except Exception as e:
        if os.environ.get('SA_DEBUG'):
            raise
        found.append(('failed', name, '', '%s: %s' % (type(e).__name__, e)))
    fns = {}
    nctx = 0
    for L in R.labs.values():
        nctx += L.contexts - 1
        for k, c in L.ip.analysed.items():
            fns[k] = fns.get(k, 0) + c
    return name, found, nctx, fns


def sweep(judge, seed, names=None, raising=False):
    """judge(property, context, lab, events, report) over all contexts.

    If raising, external calls made while settings are altered may raise.
    """
    jobs = [(n, judge, seed, raising) for n in names or NAMES]
    with multiprocessing.get_context('fork').Pool(
            min(8, os.cpu_count() or 1)) as p:
        return p.map(run, jobs, 1)
