"""C20: fits start from the initial guess that was requested."""

import numpy as np

import fembvgen
import fitgen
import fits
import lib

hexm = fitgen.hexm


def samples(r, n, d):
    """(data, are no two numbers equal by construction?)"""
    k = r.randint(4)
    if k == 0:
        return r.randint(-2, 3, (n, d)).astype(float), False
    if k == 1:
        return r.standard_normal((max(2, n // 2), d))[r.randint(0, max(2, n // 2), n)] * 3, False
    return r.standard_normal((n, d)) * 10.0 ** r.choice([-1, 0, 1]) + r.choice([0, 0, 4]), True


def kernel(r, X):
    d2 = ((X[:, None] - X[None]) ** 2).sum(2)
    k = r.randint(3)
    if k == 0:
        return np.exp(-d2 / (2 * (d2.mean() or 1)))
    if k == 1:
        return (1 + X.dot(X.T)) ** 2
    return X.dot(X.T) + np.diag(r.rand(len(X)))


def factorisation(r, i):
    kind = ('gpnh', 'mtd', 'crom', 'aa', 'kernel_aa')[i % 5]
    aa = kind in ('aa', 'kernel_aa')
    n, d = int(r.randint(3, 10)), int(r.randint(1, 4))
    large = i // 5 % 25 == 24
    if large:
        n, d = int(r.randint(25, 60)), int(r.randint(4, 9))
    X, generic = samples(r, n, d)
    init = ['default', None, 'random', 'furthest_sum', 'furthest_sum', 'custom'][r.randint(6)]
    s = {'family': 'factorisation', 'model': kind, 'X': hexm(X), 'generic': generic, 'seed': int(r.randint(10000)),
         'given': {}, 'frozen': [], 'layout': 'CFTSNR'[r.randint(6)]}
    # so that every block has a slope, whose search then ends at the guess
    if kind == 'mtd':
        s['options'] = {'epsilon_weights': float(r.choice([0, 1, 1e3])), 'epsilon_states': float(r.choice([0, 1]))}
    if init != 'default':
        s['init'] = init
    if aa and r.rand() < .4:
        s['K'] = hexm(kernel(r, X))
    furthest = init == 'furthest_sum' or (aa and init in ('default', None))
    k = int(r.randint(5, 9)) if large else int(r.randint(1, min(n, 5)))
    if furthest and r.rand() < .7:
        if r.rand() < .5:
            ex = [int(v) for v in r.choice(n, int(r.randint(1, n - k + 1)), replace=False)] if n > k else []
            s['exclude'] = ex
        elif r.rand() < .3:
            s['exclude'] = None
        if r.rand() < .6:
            a = [v for v in range(n) if v not in (s.get('exclude') or [])]
            s['start'] = int(a[0] if r.rand() < .4 else a[r.randint(len(a))])
        elif r.rand() < .3:
            s['start'] = None
        if r.rand() < .6:
            s['extra'] = int(r.randint(0, 13))
    s['k'] = k
    if kind in ('mtd', 'crom'):
        s['lags'] = list([v for v in fitgen.LAGS[r.randint(len(fitgen.LAGS))] if v < n] or [1])
    blocks = ['D', 'G'] + (['P'] if kind == 'mtd' else [])
    want = {'G': 'stochastic', 'D': 'furthest' if furthest else 'stochastic' if aa else 'random'}
    if kind == 'mtd':
        want.update(L='stochastic', P='stochastic')
    if r.rand() < .4:
        s['frozen'] = [b for b in blocks if r.rand() < .5]
    give = {'D': lambda: hexm(fitgen.rows(r, k, n) if aa else r.standard_normal((k, d)) * 2),
            'G': lambda: hexm(fitgen.rows(r, n, k))}
    for b in blocks:
        if b in s['frozen'] or init == 'custom':
            if b == 'P':
                s['given']['L'] = [float(v).hex() for v in fitgen.rows(r, 1, len(s['lags']))[0]]
                s['given']['P'] = [hexm(fitgen.rows(r, k, k).T) for _ in s['lags']]
                want['L'] = want['P'] = 'given'
            else:
                s['given'][b] = give[b]()
                want[b] = 'given'
    s['want'] = want
    return s


def replay(ctx):
    """The point sets of the FurthestSum model as data: every start, exclusion and
    number of extra steps of the requests of small grids."""
    sc = []
    r = np.random.RandomState(ctx.seed + 2020)
    grids = [[[a, b] for a in range(2) for b in range(2)], [[0.0], [0.0], [1.0], [3.0]],
             [[0.0, 0], [0, 0], [2, 0], [0, 2], [2, 2]], [[1.0, 1], [1, 1], [1, 1]]]
    for g in grids[:ctx.pick(3, 4)]:
        X = np.array(g, dtype=float)
        n = len(X)
        for k in range(1, n + 1):
            for start in [None] + list(range(n)):
                for ex in ([], [0], [n - 1]):
                    if start in ex or k > n - len(ex):
                        continue
                    for extra in (0, 1, 10) if ctx.thorough else (int(r.choice([0, 1, 10])),):
                        m = ('gpnh', 'mtd', 'crom', 'aa', 'kernel_aa')[len(sc) % 5]
                        s = {'family': 'factorisation', 'model': m, 'X': hexm(X), 'seed': len(sc), 'given': {},
                             'frozen': [], 'init': 'furthest_sum', 'exclude': ex, 'extra': extra, 'k': k, 'lags': [1],
                             'want': {'G': 'stochastic', 'D': 'furthest'}}
                        if start is not None:
                            s['start'] = start
                        sc.append(s)
    # sets of points on which the number of extra steps matters
    r = np.random.RandomState(ctx.seed + 202)
    want = ctx.pick(40, 300)
    while want:
        n, k = int(r.randint(6, 11)), int(r.randint(3, 6))
        X = r.standard_normal((n, int(r.randint(1, 4))))
        D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(2))
        ends = [frozenset(greedy(D, k, 0, e)) for e in (0, 1, 2, 10)]
        if ends[2] == ends[3] or len(set(ends)) < 3:
            continue
        want -= 1
        s = {'family': 'factorisation', 'model': ('gpnh', 'mtd', 'crom', 'aa', 'kernel_aa')[want % 5], 'X': hexm(X),
             'seed': want, 'given': {}, 'frozen': [], 'init': 'furthest_sum', 'start': 0, 'k': k, 'lags': [1],
             'want': {'G': 'stochastic', 'D': 'furthest'}}
        if r.rand() < .5:
            s['extra'] = int(r.choice([0, 1, 2, 10]))
        sc.append(s)
    return sc


def greedy(D, k, start, extra):
    """Used to choose data only: the specification has its own FurthestSum."""
    sel = [start]
    while len(sel) < k:
        sel.append(max((j for j in range(len(D)) if j not in sel), key=lambda j: D[j, sel].sum()))
    for e in range(extra):
        rest = sel[:e % k] + sel[e % k + 1:]
        sel[e % k] = max((j for j in range(len(D)) if j not in rest), key=lambda j: D[j, rest].sum())
    return sel


def fembv(r, i):
    kind = ('kmeans', 'varx')[i % 2]
    s = fembvgen.scenario(r, kind, [], tv='any')
    s['family'] = 'fembv'
    s['options'] = {}
    mode = r.randint(4)
    s['init'] = ['custom', 'random', None, 'custom'][mode]
    if s['init'] != 'custom' or r.rand() < .3:
        s['G'] = None if r.rand() < .8 else s.get('G')
    if s['init'] != 'custom' or r.rand() < .3:
        s['mu'] = None if r.rand() < .8 else s.get('mu')
    if kind == 'kmeans' and (s.get('mu') is None or s['init'] != 'custom') and len(s['X']) < s['k']:
        s['mu'] = hexm(r.standard_normal((s['k'], len(s['X'][0]))))
        s['init'] = 'custom'
    return s


def run(ctx):
    r = np.random.RandomState(ctx.seed + 20)
    sc = replay(ctx)
    sc += [factorisation(r, i) for i in range(ctx.pick(500, 6000))]
    sc += [fembv(r, i) for i in range(ctx.pick(120, 1500))]
    for i in range(ctx.pick(40, 400)):
        sc.append({'family': 'matrix', 'seed': int(r.randint(10000)), 'side': ('left', 'right')[i % 2],
                   'shape': [int(r.randint(1, 9)), int(r.randint(1, 6))]})
    tr = ctx.drive('initial', sc)
    sc, tr = lib.split_dead(ctx, sc, tr, 'initial')
    rej = ctx.validate('InitTrace', tr, extra_cfg='CONSTANT Matrix <- TraceMatrix\n', chunk=400)
    lib.rejected_to_violations(ctx, sc, tr, rej, 'initial')
    ctx.extra['furthest_sum_guesses'] = sum(t['fs'] for t in tr)
    ctx.sample({k: sc[-60][k] for k in sc[-60] if k in ('model', 'init', 'k', 'seed')})
    ctx.assumptions += ['computed distances are off by at most the root of 1e-14 of the largest squared norm']
    return ctx.finish('model_checking', 'one trace per fit that ends at its initial guess; a FurthestSum dictionary has to '
                      'be the end of some behaviour of the FurthestSum specification')
