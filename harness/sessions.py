"""Sessions of the interface model with data of every kind (C23, C24)."""

import numpy as np

import fitgen
import lib
from fitgen import hexm

KINDS = ('gpnh', 'mtd', 'crom', 'kernel_aa', 'aa', 'kmeans', 'varx', 'km', 'pw')
DATA = ('generic', 'zero', 'constant', 'repeated', 'two points', 'zero feature', 'rank one', 'tiny', 'huge', 'far',
        'integers', 'uneven features', 'outlier', 'trend', 'vertices', 'extreme')


def data(r, kind, n, d):
    X = r.standard_normal((n, d))
    if kind == 'zero':
        return np.zeros((n, d))
    if kind == 'constant':
        return np.full((n, d), float(r.choice([1, -2.5, 1e3, 0.1])))
    if kind == 'repeated':
        return np.repeat(X[:1], n, axis=0)
    if kind == 'two points':
        return X[r.randint(0, min(2, n), n)]
    if kind == 'zero feature':
        X[:, r.randint(d)] = 0
    elif kind == 'rank one':
        X = np.outer(r.standard_normal(n), r.standard_normal(d))
    elif kind == 'tiny':
        X *= 1e-9
    elif kind == 'huge':
        X *= 1e6
    elif kind == 'far':
        X += 1e6 * r.standard_normal(d)
    elif kind == 'integers':
        X = r.randint(-2, 3, (n, d)).astype(float)
    elif kind == 'uneven features':
        X *= 10.0 ** r.randint(-5, 6, d)
    elif kind == 'outlier':
        X[r.randint(n)] *= 1e5
    elif kind == 'trend':
        X = np.outer(np.arange(n), np.ones(d)) + 0
    elif kind == 'vertices':
        X = np.eye(max(n, d))[:n, :d]
    elif kind == 'extreme':
        X *= float(r.choice([1e-30, 1e12]))
    return X


def scenarios(ctx, checks, count, seed, sizes):
    r = np.random.RandomState(ctx.seed * 1000 + seed)
    sc = []
    slices = ctx.pick(4, 2)
    for kind in KINDS:
        beh = ctx.behaviours(
            'InterfaceMC', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
            'INVARIANTS Kept Composes Returns Forecasts Blanks Counted\n'
            'CONSTANTS Kind = "%s" Counts = {0, 1, 2, 3, 5} Sizes = %s Dims = {1, 2, 4} Slice = %d Slices = %d\n'
            % (kind, sizes, ctx.seed % slices, slices))
        ctx.extra.setdefault('sessions_of_the_model', {})[kind] = len(beh)
        for j, b in enumerate(spread(r, beh, count)):
            sc.append(scenario(r, kind, b, checks, DATA[(j + seed) % len(DATA)]))
    return sc


def spread(r, beh, count):
    """Sessions of as many different requests as possible, every number of components alike."""
    groups = {}
    for b in sorted(beh, key=str):
        q = b['calls'][0]['m'], b['q']
        groups.setdefault(q[1]['k'], {}).setdefault(str(q), []).append(b)
    piles = []
    for k in sorted(groups):
        g = [groups[k][q] for q in sorted(groups[k])]
        order, pile = [r.permutation(len(b)) for b in g], []
        for level in range(max(map(len, g))):
            for i in r.permutation(len(g)):
                if level < len(g[i]) and len(pile) < count:
                    pile.append(g[i][order[i][level]])
        piles.append(pile)
    chosen, level = [], 0
    while len(chosen) < min(count, len(beh)):
        chosen += [p[level] for p in piles if level < len(p)]
        if all(level >= len(p) for p in piles):
            break
        level += 1
    return [chosen[i] for i in r.permutation(len(chosen))][:count]


FITS = ('fit', 'fit_transform', 'fit_predict')


def guess(r, kind, s, q, n, X):
    """A complete custom guess, and perhaps a frozen factor."""
    d = q['d']
    K = s['k'] or (n if kind in ('aa', 'kernel_aa') else d)
    m = n - (q['mem'] if kind == 'varx' else 0)
    g = {'weights': hexm(fitgen.rows(r, m, K))}
    if kind in ('aa', 'kernel_aa'):
        g['dictionary'] = hexm(fitgen.rows(r, K, n))
    elif kind in ('gpnh', 'mtd', 'crom'):
        g['dictionary'] = [X[i] for i in r.randint(0, n, K)]
    elif kind == 'kmeans':
        g['parameters'] = [X[i] for i in r.randint(0, n, K)]
    else:
        g['parameters'] = {'mu': hexm(r.standard_normal((K, d)))}
        if q['mem']:
            g['parameters']['A'] = [[hexm(0.3 * r.standard_normal((d, d))) for _ in range(q['mem'])] for _ in range(K)]
        if q['e']:
            g['parameters']['B0'] = [hexm(r.standard_normal((d, q['e']))) for _ in range(K)]
    if kind == 'mtd':
        g['order_weights'] = [float(v).hex() for v in fitgen.rows(r, 1, q['lags'])[0]]
        g['transition_matrices'] = [hexm(fitgen.rows(r, K, K).T) for _ in range(q['lags'])]
    names = {'mtd': ['update_dictionary', 'update_weights', 'update_parameters'],
             'kmeans': ['update_parameters', 'update_weights'], 'varx': ['update_parameters', 'update_weights']
             }.get(kind, ['update_dictionary', 'update_weights'])
    if r.rand() < .3:
        g['frozen'] = [names[r.randint(len(names))]]
    return g


def scenario(r, kind, b, checks, what):
    q, calls = b['q'], b['calls']
    k = q['k']
    s = {'model': kind, 'q': q, 'calls': calls, 'checks': checks, 'k': k, 'seed': int(r.randint(1000)),
         'data': what, 'init': q['init'], 'limit': 300}
    o = s['options'] = {}
    if kind not in ('km', 'pw'):
        s['limit'] = int(r.choice([1, 3, 12, 40]))
        o.update(max_iterations=s['limit'], tolerance=float(r.choice([0, 1e-6, 1e-2])),
                 require_monotonic_cost_decrease=False)
    if kind in ('gpnh', 'mtd', 'crom'):
        o['epsilon_states'] = float(r.choice([0, 0, 0.5, 20]))
    if kind in ('mtd', 'crom'):
        o['lags'] = q['lagset']
        if kind == 'mtd':
            o['epsilon_weights'] = float(r.choice([0, 0.5, 20]))
    if kind in ('aa', 'kernel_aa') and r.rand() < .15:
        o['delta'] = 0.3
    if kind in ('kmeans', 'varx'):
        s['tv'] = [None, 0, 0.5, 1, 3][r.randint(5)]
        s['memory'] = q['mem']
        if k and r.rand() < .5:
            s['memory'] = [int(v) for v in r.randint(0, q['mem'] + 1, k)]
            s['memory'][r.randint(k)] = q['mem']
    if kind == 'km':
        o['n_init'] = int(r.randint(1, 4))
    if kind == 'pw':
        o.update(p=q['p'], s=q['s'])
        s['classifier'] = 'nn'
    if kind not in ('km', 'pw') and r.rand() < .35:
        s['init'] = 'custom'
    s['arrays'], s['others'] = [], []
    rows = None
    for c in calls:
        n = c['m']
        if c['op'] in ('fit', 'fit_transform', 'fit_predict'):
            rows = n
            ops = ['fit', 'fit_transform'] + (['fit_predict'] if kind == 'km' else [])
            s['others'].append([v for v in ops if v != c['op']][r.randint(len(ops) - 1)])
        else:
            s['others'].append(c['op'])
        if c['op'] == 'inverse_transform':
            K = k or (rows if kind in ('aa', 'kernel_aa') else q['d'])
            W = fitgen.rows(r, n, K) if r.rand() < .7 else r.standard_normal((n, K))
            s['arrays'].append({'W': hexm(W)})
            continue
        a = {'X': hexm(data(r, what if r.rand() < .8 else DATA[r.randint(len(DATA))], n, q['d']))}
        if c['op'] in FITS:
            if s['init'] == 'custom':
                a['guess'] = guess(r, kind, s, q, n, a['X'])
            elif kind == 'km' and r.rand() < .4:
                a['guess'] = {'sample_weight': [float(v).hex() for v in r.choice([0.5, 1, 1, 3, 10], n)]}
        if q['e']:
            a['U'] = hexm(data(r, ['generic', 'zero', 'constant', 'trend'][r.randint(4)], n, q['e']))
        s['arrays'].append(a)
    return s


def run(ctx, checks, count, seed, sizes):
    sc = scenarios(ctx, checks, count, seed, sizes)
    tr = ctx.drive('session', sc, per_scenario=200, overall=ctx.pick(600, 7200))
    sc, tr = lib.split_dead(ctx, sc, tr, 'session')
    rej = ctx.validate('InterfaceTrace', tr, chunk=4000)
    for i, verdicts in sorted(rej.items()):
        ctx.violation('%s session on %s data: %s' % (sc[i]['model'], sc[i]['data'], '; '.join(verdicts)),
                      {'scenario': sc[i], 'clauses': verdicts, 'trace': tr[i]})
    ctx.extra['calls'] = sum(len(t['events']) for t in tr)
    ctx.extra['kinds_of_data'] = len(DATA)
    for s in sc[::max(1, len(sc) // 3)]:
        ctx.sample({k: s[k] for k in ('model', 'q', 'calls', 'data', 'options')})
    return sc, tr
