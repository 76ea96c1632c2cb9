"""Scenarios for histories of calls."""

import numpy as np

import fembvgen
import lib
from fitgen import hexm, rows

KINDS = ('gpnh', 'mtd', 'kernel_aa', 'aa', 'crom', 'kmeans', 'varx', 'km', 'pw')
FACTORS = {'gpnh': 'two', 'kernel_aa': 'two', 'aa': 'two', 'crom': 'two', 'mtd': 'three',
           'kmeans': 'theta', 'varx': 'theta', 'km': 'one', 'pw': 'one'}
SETS = {'one': '{"G"}', 'two': '{"D", "G"}', 'three': '{"D", "G", "P"}', 'theta': '{"G", "T"}'}

USED = {}     # how often each kind of refusal was asked of each estimator


def histories(ctx, depths):
    """All histories of the model; checks its invariants."""
    res = {}
    for name, factors in SETS.items():
        res[name] = ctx.behaviours(
            'LifecycleMC', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
            'INVARIANTS Parameters Working Results Caller History\n'
            'CONSTANTS Factors = %s Depth = %d Careful = TRUE\n' % (factors, depths[name]))
    ctx.extra['histories_of_the_model'] = {k: len(v) for k, v in res.items()}
    return res


def refusals(r, s):
    """Invalid requests this estimator must refuse."""
    kind, k = s['model'], s['k']
    w = []
    if kind in ('km', 'pw'):
        return ['transform:features'] if kind == 'km' or s['options']['p'] else []
    sp = s['spoiled']

    def attr(name, *values):
        for i, v in enumerate(values):
            why = 'attr:%s:%d' % (name, i)
            sp[why] = v
            w.append(why)
    attr('n_components', 0, -1, 2.5, '2')
    attr('max_iterations', 0, -3, 1.5, None)
    attr('tolerance', -1e-6, 'x', None)
    attr('init', 'bogus')
    custom = s['init'] == 'custom'
    if kind in ('kmeans', 'varx'):
        if custom:
            w += ['weights:rows', 'weights:columns', 'weights:sum', 'weights:double', 'weights:flat', 'weights:slightly',
                  'weights:compensated', 'weights:half']
            w += ['parameters:rows', 'parameters:columns'] if kind == 'kmeans' else ['parameters:mu', 'parameters:absent']
            if kind == 'varx' and max(s['mem']) > 0:
                w.append('parameters:A')
        if s['sets'][0].get('U') is not None:
            w.append('external_factors:rows')
        w.append('transform:features')
        if kind == 'varx' and max(s['mem']) > 0:
            w.append('transform:short')
        return w
    w += ['weights:' + h for h in ('missing', 'rows', 'columns', 'sum', 'double', 'flat', 'slightly',
                                  'compensated', 'half')]
    w += ['dictionary:' + h for h in ('missing', 'rows', 'columns', 'flat')]
    if kind in ('aa', 'kernel_aa'):
        w += ['dictionary:' + h for h in ('sum', 'double', 'slightly', 'half')]
        if k > 1:
            w.append('dictionary:compensated')
    if kind == 'mtd':
        w += ['order_weights:' + h for h in ('missing', 'rows', 'sum', 'double', 'slightly', 'half')]
        w += ['transition_matrices:' + h for h in ('missing', 'rows', 'columns', 'sum', 'double',
                                                  'slightly', 'half')]
        if k > 1:
            w.append('transition_matrices:compensated')
            P = [np.array([[float.fromhex(v) for v in row] for row in p]) for t in s['sets'] for p in t['P']]
            if all(abs(p.sum(axis=1) - 1).max() > 0.01 for p in P):
                w.append('transition_matrices:transposed')
        if len(s['sets'][0]['P']) > 1:
            w.append('transition_matrices:lagwise')
    if kind == 'kernel_aa':
        w += ['kernel:columns', 'kernel:rows']
    w.append('transform:features')
    return w


def dataset(r, s, n):
    kind, k, d = s['model'], s['k'], s['d']
    size = s['scales'][len(s['sets']) % 2] if s.get('scales') else 1.0
    X = size * r.standard_normal((n, d)) + s['shift']
    t = {'X': hexm(X)}
    if kind in ('gpnh', 'kernel_aa', 'aa', 'crom', 'mtd'):
        t['D'] = hexm(rows(r, k, n) if kind in ('kernel_aa', 'aa') else size * r.standard_normal((k, d)) + s['shift'])
        t['G'] = hexm(rows(r, n, k))
        if kind == 'mtd':
            q = len(s['options']['lags'])
            t['L'] = [float(v).hex() for v in rows(r, 1, q)[0]]
            t['P'] = [hexm(rows(r, k, k).T) for _ in range(q)]
    elif kind in ('kmeans', 'varx'):
        mm = max(s['mem'])
        t['G'] = hexm(rows(r, n - mm, k))
        if kind == 'kmeans':
            t['mu'] = hexm(r.standard_normal((k, d)))
        else:
            t['mu'] = hexm(0.5 * r.standard_normal((k, d)))
            if mm:
                t['A'] = [[hexm(0.4 * r.standard_normal((d, d))) for _ in range(mm)] for _ in range(k)]
            if s['e']:
                t['B'] = [hexm(r.standard_normal((d, s['e']))) for _ in range(k)]
    if kind == 'km':
        t['w'] = [float(v).hex() for v in 0.5 + r.rand(n)]
    if s.get('e'):
        t['U'] = hexm(r.standard_normal((n, s['e'])))
    t['series'] = []
    for _ in range(2):
        m = n if kind in ('kernel_aa', 'aa') else max(s['least'] + int(r.randint(1, 7)), 2)
        if kind in ('kmeans', 'varx'):
            m = s['least'] + int(r.randint(1, 7))
        u = {'X': hexm(r.standard_normal((m, d)) + s['shift'])}
        if s.get('e'):
            u['U'] = hexm(r.standard_normal((m, s['e'])))
        t['series'].append(u)
    return t


def columnwise(a):
    """The matrix with columns instead of rows of unit sum."""
    a = np.array([[float.fromhex(v) for v in row] for row in a]) + 0.01
    return a / a.sum(axis=0)


def scenario(r, kind, calls, checks):
    k = int(r.choice([1, 2, 2, 3]))
    d = int(r.randint(1, 4))
    s = {'model': kind, 'k': k, 'd': d, 'seed': int(r.randint(1000)), 'checks': checks, 'calls': calls,
         'shift': float(r.choice([0, 0, 1])), 'via': 'fit_transform' if r.rand() < .7 else 'fit',
         'horizon': int(r.randint(0, 5)), 'spoiled': {}, 'complete': True, 'least': 0,
         'verbose': int(r.choice([0, 1, 1, 2, 10])),
         'frozenby': {'dictionary': ['D'], 'weights': ['G'], 'order_weights': ['P'], 'transition_matrices': ['P']}}
    names = {'two': ['D', 'G'], 'three': ['D', 'G', 'P'], 'theta': ['G', 'T'], 'one': []}[FACTORS[kind]]
    for a in ('n_components', 'max_iterations', 'tolerance', 'init'):
        s['frozenby'][a] = names if r.rand() < .4 else [f for f in names if r.rand() < .5]
    o = s['options'] = {}
    if kind in ('gpnh', 'kernel_aa', 'aa', 'crom', 'mtd', 'kmeans', 'varx'):
        o.update(max_iterations=int(r.randint(1, 6)), tolerance=0, require_monotonic_cost_decrease=False)
    if kind in ('gpnh', 'kernel_aa', 'aa', 'crom', 'mtd'):
        s['init'] = ['custom', 'custom', 'random', 'furthest_sum', None][r.randint(5)]
        if kind in ('gpnh', 'crom', 'mtd'):
            o['epsilon_states'] = float(r.choice([0, 0.1, 2]))
        if kind in ('crom', 'mtd'):
            o['lags'] = [[1], [2], [1, 2], [1, 3]][r.randint(4)]
            s['least'] = max(o['lags'])
            if kind == 'mtd':
                o['epsilon_weights'] = float(r.choice([0, 0.1, 1]))
        if kind in ('kernel_aa', 'aa') and r.rand() < .2:
            o['delta'] = 0.2
        if r.rand() < .15:
            o['line_search_memory'] = 3
        if checks == ['repeat'] and r.rand() < .5:      # long enough for the line search to matter
            o['max_iterations'] = int(r.randint(4, 16))
            s['scales'] = [float(10.0 ** r.uniform(-0.5, 1)), float(10.0 ** r.uniform(-0.5, 1.5))]
            if r.rand() < .6:
                o['line_search_memory'] = int(r.choice([2, 5, 12]))
            if r.rand() < .3:
                o['gamma'] = float(r.choice([0.0, 0.1, 0.9]))
            if r.rand() < .3:
                o['alpha_min'], o['alpha_max'] = float(r.choice([1e-3, 1, 30])), float(r.choice([50, 1e4]))
        s['complete'] = s['init'] == 'custom' and kind != 'crom'
    elif kind in ('kmeans', 'varx'):
        plain = not any(c['frozen'] for c in calls)
        s['init'] = 'random' if plain and r.rand() < .35 else 'custom'
        s['tv'] = [None, None, 0, 0.5, 1, 2, 3][r.randint(7)]
        s['mem'] = [0] * k
        s['e'] = 0
        if kind == 'varx':
            d = s['d'] = min(d, 2)
            s['memory'] = [0, 1, 2][r.randint(3)] if r.rand() < .6 else [int(v) for v in r.randint(0, 3, k)]
            s['mem'] = s['memory'] if isinstance(s['memory'], list) else [s['memory']] * k
            s['e'] = int(r.choice([0, 0, 1, 2]))
        s['least'] = max(s['mem'])
        s['complete'] = s['init'] == 'custom'
    elif kind == 'km':
        s['init'] = 'none'
        o['n_init'] = int(r.randint(1, 3))
        s['w'] = bool(r.rand() < .4)
    else:
        s['init'] = 'none'
        s['k'] = k = max(k, 2)
        s['d'] = d = min(d, 2)
        p = int(r.randint(1 if any(c['op'] == 'refuse' for c in calls) else 0, 3))
        o.update(p=p, s=int(r.randint(0, 3)), include_trend=bool(r.rand() < .7))
        s['e'] = int(r.choice([0, 1])) if o['s'] else 0
        if p == 0 and not s['e']:
            o['p'] = 1
        s['least'] = max(o['p'], o['s'])
    base = s['least'] + (4 if kind not in ('varx', 'pw') else 8)
    square = (checks == ['refuse'] and kind in ('gpnh', 'kernel_aa', 'aa', 'crom', 'mtd', 'kmeans')
              and s['init'] in ('custom', 'random') and r.rand() < .25)
    if square:       # as many components as samples
        s['k'] = k = base
        s['mem'] = [0] * k
    s['sets'] = []
    for _ in range(2):
        n = base + (0 if square else int(r.randint(0, 4)))
        if kind == 'pw':
            n += 12
        s['sets'].append(dataset(r, s, n))
    kinds = refusals(r, s)
    if kind in ('gpnh', 'kernel_aa', 'aa', 'crom', 'mtd', 'kmeans') and not (
            kind == 'kmeans' and s['init'] != 'custom'):
        for what, name in (('weights', 'G'), ('dictionary', 'D')):
            if what == 'weights' or kind in ('kernel_aa', 'aa'):
                if all(abs(columnwise(t[name]).sum(axis=1) - 1).max() > 0.01 for t in s['sets']):
                    kinds += [what + ':columnwise'] * (3 if square else 1)
    whys, fitted = [], False
    for c in calls:
        why = ''
        if c['op'] == 'refuse':
            can = [v for v in kinds if fitted or not v.startswith('transform')]
            if can:      # every kind in turn
                # with a guess of the caller, and with one the fit has to make
                def way(v):
                    given = s['frozenby'].get(v.split(':')[1]) if v.startswith('attr') else []
                    return kind, v, 'custom' if s['init'] == 'custom' else bool(given)
                why = sorted(can, key=lambda v: (USED.get(way(v), 0), r.rand()))[0]
                USED[way(why)] = USED.get(way(why), 0) + 1
        fitted = fitted or c['op'] == 'fit'
        whys.append(why)
    s['whys'] = whys
    return s


def scenarios(ctx, checks, counts, seed, want):
    """Histories of the model, replayed into every estimator."""
    hist = histories(ctx, ctx.pick({'one': 4, 'two': 4, 'three': 3, 'theta': 4},
                                   {'one': 5, 'two': 4, 'three': 4, 'theta': 4}))
    r = np.random.RandomState(ctx.seed * 1000 + seed)
    sc = []
    for kind in KINDS:
        pool = [h for h in hist[FACTORS[kind]] if want(h)]
        if kind in ('km', 'pw'):
            pool = [h for h in pool if h[0]['op'] == 'fit']
        for i in r.choice(len(pool), min(counts, len(pool)), replace=False):
            sc.append(scenario(r, kind, pool[i], checks))
    return sc


def unset(ctx, seed):
    """Refits of estimators whose number of components is left to the data."""
    r = np.random.RandomState(ctx.seed * 1000 + seed)
    sc = []
    for kind in ('gpnh', 'mtd', 'crom', 'kernel_aa', 'aa', 'kmeans'):
        for first in ctx.pick((1, 2), (1, 2, 1, 2)):
            calls = [{'op': 'fit', 'data': d, 'frozen': []} for d in (first, 3 - first, first)]
            s = scenario(r, kind, calls, ['repeat'])
            s.update(init='custom', complete=kind != 'crom', count='left to the data')
            s['sets'] = []
            for size in (3, 4):
                n = size + (0 if kind in ('kernel_aa', 'aa') else s['least'] + 3)
                s.update(k=size, d=2 if kind in ('kernel_aa', 'aa') else size)
                s['sets'].append(dataset(r, s, n))
            s['k'] = None
            sc.append(s)
    return sc


def repeated(ctx, seed):
    """Refits whose starts are drawn anew, and refits after data of another size."""
    r = np.random.RandomState(ctx.seed * 1000 + seed)
    sc = []

    def call(op, data):
        return {'op': op, 'data': data, 'frozen': []}
    for kind in KINDS:
        for verbose in ctx.pick((1, 2, 10), (1, 2, 10, 1, 2, 10, 100)):
            calls = [call('fit', 1), call('fit', 2), call('fit', 1)]
            calls[2:] = [[call('fit', 1)], [call('transform', 1), call('fit', 2)]][r.randint(2)]
            while True:
                s = scenario(r, kind, calls, ['repeat'])
                if s['init'] in ('random', 'none') and s['k'] > 1:
                    break
            s['verbose'] = verbose
            sc.append(s)
    for kind in ('gpnh', 'mtd', 'kernel_aa', 'aa'):
        for i in range(ctx.pick(10, 60)):
            while True:
                s = scenario(r, kind, [call('fit', 2), call('fit', 1), call('fit', 1)], ['repeat'])
                if s['complete'] and s['k'] > 1 and s.get('scales'):
                    break
            size = float(r.choice([1, 3]))
            s['scales'] = [size, size * float(r.choice([10, 30]))]
            s['options'].update(line_search_memory=int(r.choice([2, 4, 8])), max_iterations=8)
            s['sets'] = []
            for _ in range(2):
                s['sets'].append(dataset(r, s, s['least'] + int(r.randint(6, 11))))
            sc.append(s)
    return sc


def run(ctx, checks, counts, seed, want):
    sc = scenarios(ctx, checks, counts, seed, want)
    if 'repeat' in checks:
        sc += unset(ctx, seed) + repeated(ctx, seed)
    tr = ctx.drive('lifecycle', sc, per_scenario=120, overall=ctx.pick(600, 7200))
    sc, tr = lib.split_dead(ctx, sc, tr, 'history')
    rej = ctx.validate('LifecycleTrace', tr, chunk=1500, timeout=ctx.pick(800, 3600))
    for i, verdicts in sorted(rej.items()):
        ctx.violation('%s history%s: %s' % (
            sc[i]['model'], ' of an estimator without a number of components' if 'count' in sc[i] else '',
            '; '.join(verdicts)),
                      {'scenario': sc[i], 'clauses': verdicts,
                       'trace': {k: tr[i][k] for k in ('calls', 'error')}})
    ctx.extra['histories_replayed'] = len(sc)
    for s in sc[::max(1, len(sc) // 3)]:
        ctx.sample({'model': s['model'], 'calls': [dict(c, why=w) for c, w in zip(s['calls'], s['whys'])]})
    return sc, tr
