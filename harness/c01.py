"""C01: simplex projection."""

import numpy as np

import lib


def boundary(r, n):
    """A vector with entries just above and below the threshold."""
    t = float(r.choice([0.0, 1.0, -3.0, 40.0]) + r.choice([0, 1]) * r.standard_normal())
    k = int(r.randint(1, n + 1))
    p = r.dirichlet(np.ones(k))
    x = np.full(n, t)
    x[:k] += p
    d = 10.0 ** r.randint(-13, -1)
    x[k:] += d * r.uniform(-1, 1, n - k)
    if r.rand() < 0.5:                   # support entries just above the threshold
        x[:k] = t + d * r.uniform(0, 1, k)
        x[0] = t + 1 - (x[1:k] - t).sum()
    return r.permutation(x)


def nearly(r, n):
    """A vector that leaves the simplex by little: within the plane of unit sums,
    across it, or both."""
    x = r.dirichlet(np.full(n, float(r.choice([0.3, 1.0, 5.0]))))
    if r.rand() < 0.5:
        x[r.randint(n)] = 0
        x /= x.sum() or 1.0
        if not x.any():
            x[r.randint(n)] = 1.0
    d = 10.0 ** r.uniform(-12, -1)
    kind = r.randint(3)
    if kind != 1 and n > 1:
        i, j = r.choice(n, 2, replace=False)
        if r.rand() < 0.7:
            i = int(np.argmin(x))
            j = int(np.argmax(x)) if n > 1 and np.argmax(x) != i else (i + 1) % n
        t = x[i] + d          # entry i becomes -d, the sum stays
        x[i] -= t
        x[j] += t
    if kind != 0:
        x[r.randint(n)] += d * r.choice([-1, 1])
    return x


def scenarios(ctx, grid):
    r = np.random.RandomState(ctx.seed)
    hx = lambda v: [float(x).hex() for x in v]
    sc = []
    # replay of the behaviours of SimplexMC, grouped into matrices
    by_len = {}
    for b in grid:
        by_len.setdefault(len(b['x']), []).append(b)
    frac = lambda s: int(s[1:].split('/')[0], 16) / int(s.split('/')[1], 16)
    lays = ['C', 'F', 'T', 'S', 'N']
    for n, bs in sorted(by_len.items()):
        rows = [[frac(v) for v in b['x']] for b in bs]
        for i in range(0, len(rows), 40):
            part = [hx(v) for v in rows[i:i + 40]]
            sc.append({'mode': 'rows', 'x': part, 'layout': lays[(i // 40) % 5], 'src': 'model'})
            sc.append({'mode': 'columns', 'x': part, 'layout': lays[(i // 40 + 2) % 5], 'src': 'model'})
            for v in part[::5]:
                sc.append({'mode': 'vector', 'x': [v], 'layout': 'C', 'src': 'model'})
    # random vectors of many magnitudes and shapes
    n_rand = ctx.pick(900, 6000)
    for i in range(n_rand):
        n = int(r.choice([1, 2, 3, 4, 5, 8, 13, 30]))
        kind = r.randint(12)
        x = r.standard_normal(n)
        if kind == 0:
            x *= 10.0 ** r.randint(-8, 9)
        elif kind == 1:
            x = r.dirichlet(np.ones(n))                 # already on the simplex
        elif kind == 2:
            x = r.dirichlet(np.full(n, 0.2)) + 0.01 * x  # close to it
        elif kind == 3:
            x = r.randint(-2, 3, n).astype(float)        # ties
        elif kind == 4:
            x = np.full(n, float(r.standard_normal()))   # constant
        elif kind == 5:
            x = x - 50.0                                 # all negative
        elif kind == 6:
            x = np.where(r.rand(n) < 0.3, x * 1e6, x * 1e-6)
        elif kind == 7:
            x = 1.0 / n + 0.05 / n * x                   # interior
        elif kind == 8:
            x = boundary(r, n)
        elif kind == 11:                                 # extreme, and far away
            x = x * 10.0 ** r.randint(-300, 301) + r.choice([0, 1]) * 10.0 ** r.randint(0, 17)
        elif kind >= 9:
            x = nearly(r, n)
        mode = ['vector', 'vector', 'out'][i % 3]
        s = {'mode': mode, 'x': [hx(x)], 'layout': str(r.choice(['C', 'S', 'N'])), 'src': 'random'}
        if mode == 'out':
            s['alias'] = bool(r.rand() < 0.4)
            s['outlayout'] = str(r.choice(['C', 'S', 'N']))
        sc.append(s)
    for i in range(ctx.pick(60, 400)):
        n, m = int(r.randint(1, 9)), int(r.randint(1, 9))
        X = r.standard_normal((n, m)) * 10.0 ** r.randint(-3, 4)
        if i % 3 == 0:
            X = np.round(X)
        if i % 5 == 2:
            X = np.array([boundary(r, m) for _ in range(n)])
            if i % 2:
                X = np.array([boundary(r, n) for _ in range(m)]).T
        if i % 5 == 4:
            X = np.array([nearly(r, m) for _ in range(n)])
            if i % 2:
                X = np.array([nearly(r, n) for _ in range(m)]).T
        elif i % 4 == 1:
            X = 1.0 / m + 0.1 / m * r.standard_normal((n, m))
        elif i % 4 in (2, 3):     # rows and columns of very different size
            X = X * 10.0 ** r.choice([-6, 0, 0, 3, 8, 14, 17], n)[:, None] + r.choice([0, 0, 1, 1e7, -1e12], n)[:, None]
            if i % 2:
                X = X.T.copy()
        sc.append({'mode': ['rows', 'columns'][i % 2], 'x': [hx(v) for v in X],
                   'layout': lays[int(r.randint(5))], 'src': 'random'})
    for i in range(ctx.pick(6, 40)):   # larger matrices
        n, m = int(r.randint(20, 60)), int(r.randint(20, 60))
        X = r.standard_normal((n, m)) / m
        sc.append({'mode': ['rows', 'columns'][i % 2], 'x': [hx(v) for v in X],
                   'layout': lays[i % 5], 'src': 'random'})
    return sc


def run(ctx):
    cfg = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
           'INVARIANTS IsDefinition IsOperator IsNearest Idempotent NonExpansive ShiftInvariant\n'
           'CONSTANTS N = %d Neg = %d Hi = %d Den = %d Grid = %d\n')
    grid = ctx.behaviours('SimplexMC', cfg % ctx.pick((3, 3, 4, 2, 6), (4, 3, 4, 2, 6)))
    sc = scenarios(ctx, grid)
    tr = ctx.drive('simplex', sc)
    sc, tr = lib.split_dead(ctx, sc, tr, 'projection')
    rej = ctx.validate('SimplexTrace', tr)
    lib.rejected_to_violations(ctx, sc, tr, rej, 'projection')
    ctx.sample({'scenario': sc[0]['mode'], 'x': tr[0]['x'][:2], 'y': tr[0]['y'][:2]})
    ctx.sample({'scenario': sc[-1]['mode'], 'layout': sc[-1]['layout']})
    ctx.extra['model_behaviours_replayed'] = len(grid)
    ctx.extra['rows_compared'] = sum(len(t['x']) for t in tr)
    ctx.assumptions += ['floating-point rounding of a projection is below 4e-15 (n+4)']
    return ctx.finish('model_checking', 'every recorded projection must equal the exact '
                      'rational projection of the same doubles up to rounding')
