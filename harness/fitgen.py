"""Scenarios for the fits of the factorisation models."""

import numpy as np


def hexm(A):
    return [[float(v).hex() for v in r] for r in np.asarray(A)]


def data(r, n, d):
    kind = r.randint(8)
    if kind == 0:
        X = r.standard_normal((n, d))
    elif kind == 1:
        X = r.rand(n, d) + r.choice([0, 3])
    elif kind == 2:     # clusters
        X = r.standard_normal((3, d))[r.randint(0, 3, n)] * 3 + 0.2 * r.standard_normal((n, d))
    elif kind == 3:     # integers, with repeated samples
        X = r.randint(-2, 3, (n, d)).astype(float)
    elif kind == 4:     # a trajectory
        X = np.cumsum(r.standard_normal((n, d)), axis=0)
    elif kind == 5:     # few distinct samples
        X = r.standard_normal((2, d))[r.randint(0, 2, n)]
    elif kind == 6:     # features of very different size
        X = r.standard_normal((n, d)) * 10.0 ** r.randint(-2, 3, d)
    else:
        t = np.arange(n)[:, None]
        X = np.sin(t * (1 + np.arange(d)) * 0.7) + 0.05 * r.standard_normal((n, d))
    return X * 10.0 ** r.choice([-1, 0, 0, 0, 1, 2, -6, -3, 4, 6])


def rows(r, n, k):
    kind = r.randint(4)
    if kind == 0:
        W = r.dirichlet(np.ones(k), n)
    elif kind == 1:
        W = np.eye(k)[r.randint(0, k, n)]          # vertices
    elif kind == 2:
        W = r.dirichlet(np.full(k, 0.3), n)
    else:
        W = r.randint(1, 4, (n, k)).astype(float)
        W /= W.sum(1, keepdims=True)
    return W


LONG = ([1, 2, 3, 4], [7], [12, 3, 6], [1, 10], [5, 9, 2, 1, 4])
LAGS = ([1], [1], [2], [1, 2], [1, 3], [3, 1], [2, 5], [4], [1, 2, 3], [2, 2])


def sizes(r, small, large):
    """samples, features, components"""
    if large:
        return int(r.randint(*large)), int(r.randint(5, 11)), int(r.randint(5, 9))
    return int(r.randint(*small[0])), int(r.randint(*small[1])), int(r.choice([1, 2, 2, 3, 3, 4]))


def scenario(r, model, checks, m, active=None, large=False, **options):
    n, d, k = sizes(r, ((4, 11), (1, 4)), (30, 80) if large else None)
    X = data(r, n, d)
    s = {'model': model, 'm': m, 'checks': checks, 'seed': int(r.randint(1000)),
         'options': dict(options)}
    if model in ('kernel_aa', 'aa'):
        k = min(k, n)
        s['D'] = hexm(rows(r, k, n))
        if r.rand() < .15:
            s['options'].setdefault('delta', 0.3)
    else:
        D = X[r.randint(0, n, k)] if r.rand() < .4 else np.abs(X).mean() * r.standard_normal((k, d)) + X.mean(0)
        if r.rand() < .1:
            D[:] = D[0]
        s['D'] = hexm(D)
        s['options'].setdefault('epsilon_states', float(r.choice([0, 0, 0.01, 0.5, 5, 100])))
    s['X'] = hexm(X)
    s['G'] = hexm(rows(r, n, k))
    blocks = ['D', 'G']
    if model in ('mtd', 'crom'):
        choice = LONG if large else LAGS
        lags = [v for v in choice[r.randint(len(choice))] if v < n] or [1]
        s['lags'] = list(lags)
        if model == 'mtd':
            s['options'].setdefault('epsilon_weights', float(r.choice([0, 0.1, 1, 20])))
            s['L'] = [float(v).hex() for v in rows(r, 1, len(lags))[0]]
            s['P'] = [hexm(rows(r, k, k).T) for _ in lags]
            blocks = ['D', 'G', 'P']
    if model == 'crom':
        s['active'] = []
    elif active is not None:
        s['active'] = [b for b in blocks if b in active]
    else:
        sub = [b for b in blocks if r.rand() < .75]
        s['active'] = sub or [blocks[r.randint(len(blocks))]]
    return s


def long_scenario(r, model, checks, transform=False, large=False, **options):
    n, d, k = sizes(r, ((4, 25), (1, 5)), (60, 200) if large else None)
    X = data(r, n, d)
    o = {'max_iterations': int(r.choice([5, 60, 250] if large else [1, 2, 5, 20, 60])),
         'tolerance': float(r.choice([0, 1e-12, 1e-6, 1e-3]))}
    o.update(options)
    s = {'model': model, 'k': k, 'X': hexm(X), 'seed': int(r.randint(10000)), 'checks': checks,
         'options': o}
    blocks = ['D', 'G']
    if model in ('gpnh', 'mtd', 'crom'):
        o.setdefault('epsilon_states', float(r.choice([0, 0, 0.01, 0.5, 5, 100])))
    if model in ('mtd', 'crom'):
        choice = LONG if large else LAGS
        lags = [v for v in choice[r.randint(len(choice))] if v < n] or [1]
        s['lags'] = list(lags)
        if model == 'mtd':
            o.setdefault('epsilon_weights', float(r.choice([0, 0.1, 1, 20])))
            blocks = ['D', 'G', 'P']
    s['init'] = [None, 'random', 'furthest_sum', 'custom'][r.randint(4)]
    if model in ('kernel_aa', 'aa') and r.rand() < .15:
        o.setdefault('delta', 0.3)
    if model in ('kernel_aa', 'aa') or s['init'] == 'furthest_sum':
        k = s['k'] = min(k, n)
    if model == 'crom' and r.rand() < .5:
        s['as'] = 'gpnh'
    active = [b for b in blocks if r.rand() < .8] or [blocks[r.randint(len(blocks))]]
    s['active'] = active
    custom = s['init'] == 'custom'
    if custom or 'D' not in active:
        s['D'] = hexm(rows(r, k, n) if model in ('kernel_aa', 'aa') else X[r.randint(0, n, k)] + 0.1 * r.standard_normal((k, d)))
    if custom or 'G' not in active:
        s['G'] = hexm(rows(r, n, k))
    if model == 'mtd' and (custom or 'P' not in active):
        s['L'] = [float(v).hex() for v in rows(r, 1, len(lags))[0]]
        s['P'] = [hexm(rows(r, k, k).T) for _ in lags]
    if transform:
        m = n if model in ('kernel_aa', 'aa') else int(r.randint(1, 12)) * (10 if large else 1)
        if model == 'mtd':
            m = max(m, max(lags) + 1)
        s['Y'] = hexm(data(r, m, d))
    return s


def search_options(r, guard=True):
    """Line-search settings, mostly the defaults."""
    o = {}
    if r.rand() < .3:
        o['gamma'] = float(r.choice([1e-8, 0.01, 0.3, 0.6]))
    if r.rand() < .2:
        o['sigma_one'] = float(r.choice([1e-4, 0.02, 0.3]))
    if r.rand() < .2:
        o['sigma_two'] = float(r.choice([0.5, 0.75, 0.95]))
    if r.rand() < .2:
        o['alpha_min'] = float(r.choice([1e-6, 0.02, 0.5]))
    if r.rand() < .35:
        o['alpha_max'] = float(r.choice([1e5, 20.0, 2.0]))
    if r.rand() < .25:
        o['line_search_memory'] = int(r.randint(2, 6))
    if r.rand() < .25 or ('line_search_memory' in o and not guard):
        o['require_monotonic_cost_decrease'] = False
    return o
