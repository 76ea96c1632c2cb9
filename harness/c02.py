"""C02: FurthestSum."""

import numpy as np

import lib


def hexm(D):
    return [[float(v).hex() for v in r] for r in D]


def scenarios(ctx, beh):
    r = np.random.RandomState(ctx.seed + 2)
    frac = lambda s: float(int(s[1:].split('/')[0], 16)) / int(s.split('/')[1], 16)
    sc = []
    # replay of the requests of FurthestSumMC (one per distinct request)
    seen = {}
    for b in beh:
        key = (str(b['D']), b['k'], b['start'], str(sorted(b['exclude'])), b['extra'])
        seen.setdefault(key, b)
    keys = sorted(seen)
    r.shuffle(keys)
    for key in keys[:ctx.pick(500, 4000)]:
        b = seen[key]
        sc.append({'D': [[frac(v).hex() for v in row] for row in b['D']], 'k': b['k'],
                   'start': b['start'], 'exclude': sorted(b['exclude']) or None,
                   'extra': b['extra'], 'src': 'model', 'int': bool(r.rand() < 0.3)})
    # Euclidean and arbitrary symmetric matrices
    for i in range(ctx.pick(400, 4000)):
        n = int(r.randint(1, 13))
        kind = i % 6
        if kind in (0, 1):
            X = r.standard_normal((n, int(r.randint(1, 4)))) * 10.0 ** r.randint(-3, 4)
            D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))
        elif kind == 2:       # repeated samples
            X = r.standard_normal((max(1, n // 2), 2))[r.randint(0, max(1, n // 2), n)]
            D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))
        elif kind == 3:       # any symmetric matrix, also negative and with a diagonal
            D = r.standard_normal((n, n))
            D = D + D.T
        elif kind == 4:       # integers (ties)
            n = min(n, 7)
            D = r.randint(0, 4, (n, n)).astype(float)
            D = np.triu(D, 1) + np.triu(D, 1).T
        else:                 # well separated clusters on a line
            X = np.cumsum(r.rand(n) + 0.05)[r.permutation(n)]
            D = np.abs(X[:, None] - X[None])
        if kind != 4 and r.rand() < .3:
            D = D * 10.0 ** r.choice([-13, -9, -6, 6, 10, 14])
        n = D.shape[0]
        nex = int(r.randint(0, n)) if r.rand() < 0.5 else 0
        ex = [int(v) for v in r.choice(n, nex, replace=False)]
        free = [v for v in range(n) if v not in ex]
        k = int(r.randint(1, len(free) + 1))
        if r.rand() < 0.15:
            k = len(free)
        s = {'D': hexm(D), 'k': k, 'start': int(r.choice(free)), 'exclude': ex if ex or r.rand() < .5 else None,
             'extra': int(r.choice([0, 1, 2, 3, k, k + 1, 2 * k + 1, 10])), 'src': 'random',
             'layout': str(r.choice(['C', 'F', 'S', 'R'])),
             'aslist': i % 5 == 2, 'extype': str(r.choice(['list', 'tuple', 'array'])), 'passnone': bool(r.rand() < .5),
             'int': kind == 4 and bool(r.rand() < 0.5)}
        if kind == 2 or kind == 4:
            s['extra'] = min(s['extra'], 5)
        if r.rand() < 0.1:
            s['extra'] = None        # the default
        if ex and r.rand() < 0.2:
            s['exclude'] = ex + [ex[0]]    # repeated exclusion
        sc.append(s)
    for i in range(ctx.pick(10, 60)):   # larger ones
        n = int(r.randint(25, 50))
        X = r.standard_normal((n, 3))
        D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))
        k = int(r.randint(2, 9))
        sc.append({'D': hexm(D), 'k': k, 'start': int(r.randint(n)), 'exclude': None,
                   'extra': int(r.choice([0, 5, 10, 20])), 'src': 'random'})
    # requests that cannot be met
    for i in range(ctx.pick(60, 200)):
        n = int(r.randint(2, 7))
        D = np.abs(r.standard_normal((n, n)))
        D = D + D.T
        s = {'D': hexm(D), 'k': 2, 'start': 0, 'exclude': None, 'extra': 1, 'src': 'invalid'}
        kind = i % 6
        if kind == 0:
            s['D'] = hexm(D[:, :-1] if r.rand() < .5 else D[:-1])
        elif kind == 1:
            s['start'] = n + int(r.randint(0, 3))
        elif kind == 2:
            s['start'] = -int(r.randint(1, 3))
        elif kind == 3:
            ex = sorted(int(v) for v in r.choice(n, int(r.randint(1, n)), replace=False))
            s['exclude'], s['start'] = ex, int(r.choice(ex))
            s['k'] = 1
        elif kind == 4:
            s['k'] = n + 1
        else:
            ex = sorted(int(v) for v in r.choice(np.arange(1, n), int(r.randint(1, n)), replace=False))
            s['exclude'] = ex
            s['k'] = n - len(ex) + int(r.choice([1, 1, 1, 2]))
        s['extype'] = str(r.choice(['list', 'tuple', 'array']))
        sc.append(s)
    return sc


def run(ctx):
    cfg = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
           'INVARIANTS Distinct Allowed Partition SumsExact Requested\n%s'
           'CONSTANTS Size = %d MaxD = %d MaxExtra = %d Matrix <- Itself\n')
    beh = ctx.behaviours('FurthestSumMC', cfg % (('PROPERTY RefillImproves\n',) + ctx.pick((3, 2, 4), (3, 3, 5))))
    beh += ctx.behaviours('FurthestSumMC', cfg % (('',) + ctx.pick((4, 1, 3), (4, 2, 4))))
    sc = scenarios(ctx, beh)
    tr = ctx.drive('furthest', sc)
    sc, tr = lib.split_dead(ctx, sc, tr, 'furthest_sum')
    rej = ctx.validate('FurthestSumTrace', tr, 'CONSTANT Matrix <- TraceMatrix\n')
    lib.rejected_to_violations(ctx, sc, tr, rej, 'furthest_sum')
    ctx.sample({k: v for k, v in tr[0].items() if k != 'id'})
    ctx.extra['model_behaviours'] = len(beh)
    ctx.assumptions += ['candidates whose sums differ by less than rounding are ties; any tie may be picked']
    return ctx.finish('model_checking', 'a call is accepted when a behaviour of FurthestSum ends in its result')
