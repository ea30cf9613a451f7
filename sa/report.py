"""Obligations, verdicts, evidence files and exit codes."""
import json
import os
import time
import traceback
import numpy as np
from . import terms as tm
from .lab import Lab, Rejected, AnalysisError, exc_name
from .interp import Dead, NeedFork

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Undecided(Exception):
    pass


class Report:

    def __init__(self, prop, tier, seed, title=''):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.title = title
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.obs = []           # (key, verdict, where, what)
        self.labs = {}
        self.floor = 1
        self.rule = ''
        self.explanation = ''
        self.assumptions = []
        self.extra = {}
        self._keys = {}
        self.lab_kw = {}
        self.spent = []
        self._mark = {}
        self.unmodelled = []    # in the current context
        self.points = {'n': 12} if self.thorough else {}

    def again(self, k):
        """Setup another pass over all obligations."""
        self.seed += 1000
        self.lab_kw = {'set_order': (-1)**k, 'hash_salt': k}
        self.spent += self.labs.values()
        self.labs = {}

    # ------------------------------------------------------------------ labs

    def lab(self, **kw):
        """A freshly reset laboratory."""
        kw = {**self.lab_kw, **kw}
        k = tuple(sorted(kw.items()))
        if k not in self.labs:
            self.labs[k] = Lab(**kw)
        else:
            self.unmodelled += self._unmodelled(self.labs[k])
        self._mark.pop(k, None)
        return self.labs[k].reset()

    def _unmodelled(self, L):
        k = [k for k, x in self.labs.items() if x is L]
        n = self._mark.get(k[0], 0) if k else 0
        return list(L.ip.opaques[max(n, len(L._base[5])):])

    # ----------------------------------------------------------- obligations

    def add(self, key, verdict, where='', what=''):
        n = self._keys.get(key, 0)
        self._keys[key] = n + 1
        self.obs.append((key, verdict, where, what))
        return verdict

    def good(self, key, where='', what=''):
        return self.add(key, 'ok', where, what)

    def bad(self, key, where, what):
        # nothing is held against code that was not understood in full
        ops = self.unmodelled + [o for L in self.labs.values()
                                 for o in self._unmodelled(L)]
        if ops:
            return self.unknown(key, '%s, but: unmodelled %s' % (
                what[:60], ops[0]))
        return self.add(key, 'violated', where, what)

    def unknown(self, key, what):
        return self.add(key, 'undecided', '', what)

    def must(self, key, cond, where, what):
        """Decided obligation."""
        assert not isinstance(cond, str) and isinstance(where, str), key
        return self.good(key, where) if cond else self.bad(key, where, what)

    def eq(self, key, L, got, spec, where, what='', **kw):
        """The value number of a result is that of its specification."""
        from .lab import X
        if isinstance(spec, X):
            spec = spec.t
        if got is None:
            return self.bad(key, where, 'no result where one is specified')
        r = L.equal(got, spec, seed=self.seed, **{**self.points, **kw})
        if r.verdict == 'EQ':
            return self.good(key, where)
        if r.verdict == 'UNKNOWN':
            return self.unknown(key, r.why)
        w = ''
        if r.witness is not None:
            w = '; found %s, specified %s' % tuple(
                _short(x) for x in r.witness)
        return self.bad(key, where, '%s: %s%s' % (
            what or 'result differs from its specification', r.why, w))

    def context(self, key, where=''):
        """with R.context(key, where): a group of obligations; a call that is
        specified to be accepted and has no normal exit is a violation, an
        unsupported construct leaves it undecided."""
        return _Context(self, key, where)

    def accepts(self, key, L, out, where, what='', explore=True):
        """The call has a normal exit, and no value leads to another."""
        if not out.live:
            raise Rejected(out)
        for pc, _, e in out.raised:
            t = tm.const(True)
            for c, pol in reversed(pc):
                t = tm.mk('ite', c, t, tm.const(False)) if pol else \
                    tm.mk('ite', c, tm.const(False), t)
            r = L.equal(t, tm.const(False), seed=self.seed,
                        explore=explore)
            if r.verdict == 'UNKNOWN':
                return self.unknown(key, r.why)
            if r.verdict != 'EQ':
                return self.bad(key, where, '%s raises %s at %s' % (
                    what, exc_name(e), e.site))
        return self.good(key, where)

    def rejects(self, key, L, out, where, what, types=None):
        """The call has no normal exit, only raising ones."""
        if L.ip.opaques[len(L._base[5]):]:
            return self.unknown(key, L.ip.opaques[-1])
        if out.live:
            return self.bad(key, where, what + ': accepted')
        if types and not set(out.excs) <= set(types):
            return self.bad(key, where, '%s: raises %s' % (what, out.excs))
        return self.good(key, where)

    # ---------------------------------------------------------------- output

    def known(self):
        out = []
        try:
            with open(os.path.join(ROOT, 'known_findings.txt')) as f:
                for line in f:
                    line = line.strip()
                    if line.startswith('known: property=%s ' % self.prop):
                        key, _, what = line.split(' key=', 1)[1].partition(
                            ' :: ')
                        out.append((key, what))
        except OSError:
            pass
        return out

    def finish(self):
        known = self.known()
        viol, found = [], []
        for key, verdict, where, what in self.obs:
            if verdict != 'violated':
                continue
            k = [x for x in known if x[0] == key]
            if k:
                found.append(k[0])
            else:
                viol.append((key, where, what))
        n = {}
        for o in self.obs:
            n[o[1]] = n.get(o[1], 0) + 1
        fns, nev, nctx = {}, 0, 0
        for L in self.spent + list(self.labs.values()):
            for k, c in L.ip.analysed.items():
                fns[k] = fns.get(k, 0) + c
            L.reset()
            nev += L.n_events
            nctx += L.contexts - 1
        decided = n.get('ok', 0) + n.get('violated', 0)
        d = os.environ.get('SDEPY_EVIDENCE') or os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        samples = [{'obligation': o[0], 'verdict': o[1], 'at': o[2],
                    'note': o[3][:300]} for o in
                   self.obs[::max(1, len(self.obs) // 8)]][:10]
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed,
            'level': 'other',
            'coverage': {
                'explanation': self.explanation,
                'rule': self.rule,
                'contexts': nctx,
                'functions_analysed': len(fns),
                'function_activations': sum(fns.values()),
                'events': nev,
                'obligations': len(self.obs),
                'discharged': n.get('ok', 0),
                'undecided': n.get('undecided', 0),
                'undecided_list': sorted({'%s: %s' % (o[0], o[3][:160])
                                          for o in self.obs
                                          if o[1] == 'undecided'})[:40],
                'known_findings': len(found),
                'functions': sorted(fns)[:150],
                'samples': samples,
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(viol),
        }
        ev['coverage'].update(self.extra)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s %s: %d obligations, %d discharged, %d violated, '
              '%d undecided; %d functions in %d contexts; %.1f s' % (
                  self.prop, self.tier, len(self.obs), n.get('ok', 0),
                  n.get('violated', 0), n.get('undecided', 0), len(fns), nctx,
                  time.time() - self.t0))
        und = [o for o in self.obs if o[1] == 'undecided']
        for key, verdict, _, what in und[:int(os.environ.get('SA_MAX', 8))]:
            if verdict == 'undecided':
                print('  undecided %s: %s' % (key, what[:200]))
        seen = set()
        for key, what in found:
            if key not in seen:
                seen.add(key)
                print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        if viol:
            p = os.path.join(d, self.prop + '.violation.txt')
            with open(p, 'w') as f:
                for key, where, what in viol:
                    f.write('property %s\nobligation %s\nat %s\n%s\n\n' % (
                        self.prop, key, where, what))
                    if len(seen) < 6:
                        print('  %s at %s: %s' % (key, where, what[:400]))
                        seen.add(key)
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
            return 1
        if decided < self.floor:
            print('WARNING: only %d obligations decided, at least %d expected'
                  % (decided, self.floor))
            if decided * 10 < self.floor:
                return 2
        return 0


def _short(x):
    s = np.array2string(np.asarray(x), threshold=6, precision=5) \
        if isinstance(x, np.ndarray) else repr(x)
    return ' '.join(s.split())[:140]


class _Context:
    def __init__(self, rep, key, where):
        self.rep, self.key, self.where = rep, key, where

    def __enter__(self):
        self.rep.unmodelled = []
        self.rep._mark = {k: len(L.ip.opaques)
                          for k, L in self.rep.labs.items()}
        return self

    def __exit__(self, et, e, tb):
        R = self.rep
        if et is None:
            return False
        if et is Rejected:
            errs = [exc_name(x) for _, _, x in e.out.raised]
            L = [lab for lab in R.labs.values()]
            ops = [o for lab in L for o in lab.ip.opaques[len(lab._base[5]):]]
            if ops:
                R.unknown(self.key, 'unmodelled: ' + ops[0])
            elif not e.out.raised:
                R.unknown(self.key, 'no exit')
            else:
                R.bad(self.key, self.where or e.out.raised[0][2].site,
                      'a call within the specification is rejected: %s' % e)
            return True
        if issubclass(et, (KeyboardInterrupt, SystemExit)):
            return False
        if os.environ.get('SA_DEBUG'):
            traceback.print_exception(et, e, tb, limit=-6)
        R.unknown(self.key, 'analysis: %s: %s' % (et.__name__, str(e)[:200]))
        return True
