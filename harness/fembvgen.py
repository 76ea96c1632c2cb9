"""Scenarios for FEM-BV fits."""

import numpy as np

from fitgen import hexm, rows


def series(r, n, d):
    kind = r.randint(5)
    if kind == 0:
        X = r.standard_normal((n, d))
    elif kind == 1:      # regimes
        X = r.standard_normal((3, d))[np.repeat(r.randint(0, 3, n), 3)[:n]] * 3 + 0.3 * r.standard_normal((n, d))
    elif kind == 2:
        X = r.randint(-3, 4, (n, d)).astype(float)
    elif kind == 3:
        X = np.cumsum(r.standard_normal((n, d)), axis=0)
    else:
        X = np.sin(0.9 * np.arange(n)[:, None] * (1 + np.arange(d))) + 0.3 * r.standard_normal((n, d))
    if r.rand() < .12:      # features of very different size
        X = X * 10.0 ** r.randint(-4, 5, d)
    return X * float(r.choice([0.5, 1, 1, 1, 10, 100, 1e-6, 1e-3, 1e4, 1e6]))


BOUNDS = (None, None, 0, 0.3, 0.5, 1, 1.5, 2, 3, 100, -1)


def scenario(r, model, checks, up=True, uw=True, m=3, transform=False, tv='any', large=False, **options):
    k = int(r.choice([4, 5, 6] if large else [1, 2, 2, 3, 3, 4]))
    d = int(r.randint(*((4, 9) if large else (1, 4))))
    s = {'model': model, 'k': k, 'checks': checks, 'seed': int(r.randint(1000)), 'up': up, 'uw': uw,
         'm': m, 'options': options, 'init': 'custom' if r.rand() < .7 else 'random'}
    s['tv'] = BOUNDS[r.randint(len(BOUNDS))] if tv == 'any' else tv
    if tv == 'any' and r.rand() < .3:
        s['tv'] = float(np.round(10.0 ** r.uniform(-2.3, 0.7), 3))
    elif s['tv'] is not None:
        s['tv'] = float(s['tv']) if r.rand() < .5 else s['tv']
    if model == 'kmeans':
        n = int(r.randint(*((60, 160) if large else (2, 22))))
        s['mem'] = [0] * k
        if s['init'] == 'random':
            n = max(n, k)
    else:
        d = min(d, 3 if large else 2)
        s['memory'] = [None, 0, 1, 2, 3][r.randint(5)]
        if r.rand() < .45:
            s['memory'] = [int(v) for v in r.randint(0, 7 if large else 4, k)]
        s['mem'] = (s['memory'] if isinstance(s['memory'], list)
                    else [s['memory'] or 0] * k)
        n = max(s['mem']) + int(r.choice([40, 80, 120] if large else [1, 2, 4, 8, 12, 16]))
        if s['init'] == 'random':
            n = max(n, max(s['mem']) + 4)
    X = series(r, n, d)
    s['X'] = hexm(X)
    mm = max(s['mem'])
    e = 0
    if model == 'varx' and r.rand() < .5:
        e = int(r.randint(1, 5 if large else 3))
        s['U'] = hexm(r.standard_normal((n, e)))
    if s['init'] == 'custom':
        part = r.randint(6)
        if part != 1:
            G = rows(r, n - mm, k)
            if r.rand() < .2 and k > 1:      # an unused component
                G[:, 0] = 0
                G[:, 1] += 1e-3
                G /= G.sum(1, keepdims=True)
            s['G'] = hexm(G)
        if part != 2:
            if model == 'kmeans':
                s['mu'] = hexm(X[r.randint(0, n, k)] + 0.2 * r.standard_normal((k, d)))
            else:
                s['mu'] = hexm(0.5 * r.standard_normal((k, d)))
                if mm:
                    s['A'] = [[hexm(0.4 * r.standard_normal((d, d))) for _ in range(mm)] for _ in range(k)]
                if e:
                    s['B'] = [hexm(r.standard_normal((d, e))) for _ in range(k)]
        elif model == 'kmeans' and n < k:
            s['mu'] = hexm(r.standard_normal((k, d)))
        if 'mu' not in s and model == 'varx' and n - mm < 4:
            s['mu'] = hexm(0.5 * r.standard_normal((k, d)))
            if mm:
                s['A'] = [[hexm(0.4 * r.standard_normal((d, d))) for _ in range(mm)] for _ in range(k)]
            if e:
                s['B'] = [hexm(r.standard_normal((d, e))) for _ in range(k)]
        if model == 'kmeans' and 'mu' not in s and n < k:
            s['mu'] = hexm(r.standard_normal((k, d)))
    if transform:
        n2 = mm + int(r.choice([30, 70] if large else [1, 2, 5, 9]))
        s['Y'] = hexm(series(r, n2, d))
        if e:
            s['V'] = hexm(r.standard_normal((n2, e)))
    return s


def from_model(b, seed):
    """A scenario with the distances of a problem written by FembvMC: centroids
    on the axes, so that sample x has distances |x|^2 + 1 - 2 x to them."""
    dist = np.array(b['dist'], dtype=float)
    n, k = dist.shape
    return {'model': 'kmeans', 'k': k, 'checks': ['stochastic', 'tv', 'optimal', 'best', 'frozen'],
            'seed': seed, 'up': False, 'uw': True, 'm': 1, 'init': 'custom', 'tv': b['bound'] / 2.0,
            'mem': [0] * k, 'X': hexm(-0.5 * dist), 'mu': hexm(np.eye(k)),
            'G': hexm(np.full((n, k), 1.0 / k) if k != 3 else np.tile([0.25, 0.25, 0.5], (n, 1))),
            'dist': b['dist'], 'best': b['best'] / 2.0}
