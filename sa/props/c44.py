"""Package names, shortcuts and analytical kfuncs."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .c33 import live
from . import c26, c27

META = {
    'title': 'package names and shortcuts stand for what they document',
    'statement':
    'The package provides all documented names. Each shortcut of a source or '
    'process is a kfunc subclass of the class it stands for, realizing the '
    'same values with the same parameters and sources; full names are the '
    'plain classes. Analytical functions of the package are kfuncs of the '
    'functions of the same name, times and points (strike and maturity) '
    'being the variables: calling with parameters only stores them, params '
    'gives the documented defaults and the values stored, evaluations equal '
    'those of the function with the same arguments, whichever way these are '
    'split among calls, and leave the stored parameters unchanged.',
    'over': ['inputs', 'histories'],
    'quant': 'all shortcuts and functions, parameters and splits of them',
    'why': 'Tests use a few shortcuts; a swapped or stale one goes unnoticed '
           'where results are random.',
    'files': ['shortcuts.py', '__init__.py', 'kfun.py', '_config.py'],
    'mech': [('shortcuts', 'sdepy/shortcuts.py'),
             ('package namespace', 'sdepy/__init__.py')],
    'technique': 'abstract interpretation of the package; subclass relations '
                 'and value numbers of realizations and results',
    'note': 'Decided for each documented name; processes on a timeline of 3 '
            'points, for all values.',
}
W = 'sdepy/shortcuts.py '
SHORT = {
    'dw': 'wiener_source', 'dn': 'poisson_source', 'dj': 'cpoisson_source',
    'odd_dw': 'odd_wiener_source', 'even_dn': 'even_poisson_source',
    'even_dj': 'even_cpoisson_source', 'true_dw': 'true_wiener_source',
    'true_dn': 'true_poisson_source', 'true_dj': 'true_cpoisson_source',
    'wiener': 'wiener_process', 'lognorm': 'lognorm_process',
    'oruh': 'ornstein_uhlenbeck_process', 'hwff': 'hull_white_process',
    'hw1f': 'hull_white_1factor_process',
    'cir': 'cox_ingersoll_ross_process', 'heston_xy': 'full_heston_process',
    'heston': 'heston_process', 'jumpdiff': 'jumpdiff_process',
    'mjd': 'merton_jumpdiff_process', 'kou': 'kou_jumpdiff_process'}
OTHER = ('process piecewise montecarlo source true_source norm_rv uniform_rv '
         'exp_rv double_exp_rv rvmap paths_generator integrator SDE SDEs '
         'integrate wiener_SDE lognorm_SDE ornstein_uhlenbeck_SDE '
         'hull_white_SDE cox_ingersoll_ross_SDE full_heston_SDE heston_SDE '
         'jumpdiff_SDE merton_jumpdiff_SDE kou_jumpdiff_SDE kfunc iskfunc'
         ).split()


def check(R):
    R.explanation = ('The package is interpreted, and its names used with '
                     'unknown arguments.')
    R.rule = 'one obligation per (name, use)'
    R.floor = 150
    with R.context('names', 'sdepy/__init__.py'):
        names(R)
    for s, f in SHORT.items():
        with R.context('shortcut ' + s, W + s):
            shortcut(R, s, f)
    for p, fs in c26.NAMES.items():
        for f in fs:
            with R.context('kfunc %s_%s' % (p, f), W + p):
                analytical(R, '%s_%s' % (p, f), p, f)
    for f in c27.FUN:
        with R.context('kfunc ' + f, W + f):
            black(R, f)


def names(R):
    L = R.lab()
    for n in list(OTHER) + list(SHORT.values()) + list(SHORT) + \
            [p + '_' + f for p, fs in c26.NAMES.items() for f in fs] + \
            list(c27.FUN):
        try:
            v = L.public(n)
        except Exception:
            v = None
        R.must('name ' + n, v is not None, 'sdepy/__init__.py',
               'missing name ' + n)
    for n in SHORT.values():
        R.must('plain ' + n, L.rep(live(L.call(
            L.public('iskfunc'), L.public(n)))) is False,
            'sdepy/shortcuts.py', '%s is a kfunc' % n)
    for n in list(SHORT) + [p + '_' + f for p, fs in c26.NAMES.items()
                            for f in fs] + list(c27.FUN):
        R.must('kfunc ' + n, L.rep(live(L.call(
            L.public('iskfunc'), L.public(n)))) is True,
            'sdepy/shortcuts.py', '%s is not a kfunc' % n)


def shortcut(R, s, f):
    L = R.lab()
    S, F = L.public(s), L.public(f)
    n = L.client('def sub(a, b):\n    return issubclass(a, b)\n'
                 'def inst(a, b):\n    return isinstance(a, b)\n')
    others = [L.public(k) for k in SHORT.values() if k != f and
              k != 'hull_white_process']
    key = 'shortcut ' + s
    R.must(key + ' subclass', L.rep(live(L.call(n['sub'], S, F))) is True,
           W + s, 'is not a subclass of ' + f)
    i = live(L.call(S, paths=L.dim(4)))
    R.must(key + ' instance', L.rep(live(L.call(n['inst'], i, F))) is True,
           W + s, 'does not make instances of ' + f)
    R.must(key + ' others', not any(L.rep(live(L.call(n['sub'], S, o)))
                                    is True for o in others
                                    if L.rep(live(L.call(n['sub'], F, o)))
                                    is not True), W + s,
           'is a subclass of another class')
    if f.endswith('_source'):
        return
    tt = L.timeline('t', (0., .5, 1.2))
    kw = dict(paths=L.dim(2))
    sh = ()
    hw = f in ('hull_white_process', 'hull_white_1factor_process')
    src = ('dw', 'dj') if 'jumpdiff' in f else ('dw',)
    for k in src:
        kw[k] = L.source(k, 2, (2,) if 'heston' in f else
                         (1,) if f == 'hull_white_process' else sh)
    a = L.call(live(L.call(F, **kw)), tt)
    b = L.call(live(L.call(S, **kw)), tt)
    c = L.call(S, tt, **kw)
    va, vb, vc = live(a), live(b), live(c)
    if L.cls_of(va) != 'process':
        va, vb, vc = (L.ip.seq(z) for z in (va, vb, vc))
    else:
        va, vb, vc = [va], [vb], [vc]
    R.must(key + ' results', len(va) == len(vb) == len(vc), W + s,
           'number of results')
    for j, (x, y, z) in enumerate(zip(va, vb, vc)):
        R.eq('%s realization %d' % (key, j), L, L.term(y), X(L.term(x)),
             W + s, 'realization')
        R.eq('%s at once %d' % (key, j), L, L.term(z), X(L.term(x)), W + s,
             'realization')


def splits(R, key, L, f, plain, var, par, where):
    """Evaluate in all ways."""
    names_ = list(par)
    vals = {n: v for n, (v, t) in par.items()}

    def terms(o):
        r = live(o)
        return [X(L.term(z)) for z in L.ip.seq(r)] if f == 'bsd1d2' \
            else [X(L.term(r))]
    vs = [v for v, t in var]
    K = L.public(f)
    for nm, sub in (('all', names_), ('half', names_[::2]), ('none', [])):
        first = {n: vals[n] for n in sub}
        rest = {n: vals[n] for n in names_ if n not in sub}
        want = terms(L.call(plain, *vs, **vals))
        part = terms(L.call(plain, *vs, **first))
        i = live(L.call(K, **first))
        R.must('%s %s is a kfunc' % (key, nm), L.rep(live(L.call(
            L.public('iskfunc'), i))) is True, where,
            'parameters only do not make a kfunc')
        got = [('call', terms(L.call(i, *vs, **rest)), want),
               ('stored', terms(L.call(i, *vs)), part),
               ('at once', terms(L.call(K, *vs, **vals)), want)]
        if rest:
            j = live(L.call(i, **rest))
            got.append(('chain', terms(L.call(j, *vs)), want))
        got.append(('stored after', terms(L.call(i, *vs)), part))
        for how, g, w in got:
            for k, (x, y) in enumerate(zip(g, w)):
                R.eq('%s %s %s %d' % (key, nm, how, k), L, x.t, y, where,
                     'evaluation')
        d = L.get(i, 'params')
        for n, (v, t) in par.items():
            R.eq('%s %s params[%s]' % (key, nm, n), L, L.term(
                live(L.item(d, n))), t if n in sub else
                X(tm.const(np.asarray(DEFAULT(key, n)))), where, 'params')


def DEFAULT(key, n):
    p = key.split()[1]
    for q, (_, params, _, _) in c26.PROCESS.items():
        if p.startswith(q + '_'):
            return {k: d for k, _, d in params}[n]
    return {k: d for k, _, d in c27.PAR}[n]


def analytical(R, name, p, f):
    L = R.lab()
    if f == 'log_pdf':
        var, par = c26.args_of(L, p, f, 'scalars')
    else:
        var, par = c26.args_of(L, p, f, 'times')
    splits(R, 'kfunc ' + name, L, name, L.public(name, 'analytical'), var,
           par, W + name)


def black(R, f):
    L = R.lab()
    args = c27.args_of(L, 'strikes')
    splits(R, 'kfunc ' + f, L, f, L.public(f, 'analytical'),
           [(v, t) for n, v, t in args[:2]],
           {n: (v, t) for n, v, t in args[2:]}, W + f)
