"""C18: the local VARX regression."""

import numpy as np

import fits
import lib
import varx
from varx import hexa as hexm


def replay(ctx):
    """Series of the model, with their regimes as 0/1 weights."""
    sc = []
    for P, S, N, R, now in ctx.pick([(1, 0, 5, 2, 'FALSE'), (1, 1, 5, 1, 'TRUE'), (2, 1, 5, 1, 'TRUE'), (0, 1, 4, 2, 'TRUE')],
                                    [(1, 0, 5, 2, 'TRUE'), (1, 1, 6, 1, 'TRUE'), (2, 1, 6, 1, 'TRUE'), (1, 2, 6, 1, 'TRUE'), (0, 1, 5, 2, 'TRUE')]):
        for b in ctx.behaviours('VarxMC', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
                                'INVARIANTS Agree Generator Solved Report\n'
                                'CONSTANTS P = %d S = %d N = %d Regimes = %d Now = %s\n' % (P, S, N, R, now)):
            b['R'] = R
            b['u'] = b['u'] if S or now == 'TRUE' else None
            sc.append(b)
    return sc


def run(ctx):
    r = np.random.RandomState(ctx.seed + 18)
    model = replay(ctx)
    sc = []
    keep = range(len(model)) if ctx.thorough else sorted(r.choice(len(model), min(len(model), 300), replace=False))
    for i in keep:
        b = model[i]
        first = max(b['p'], b['s'])
        s = {'y': fits.hexed(b['y']), 'u': fits.hexed(b['u']) if b['u'] is not None else None, 'p': b['p'], 's': b['s'],
             'ops': [{'op': 'fit'}]}
        for k in range(1, b['R'] + 1):
            s['ops'].append({'op': 'weighted', 'w': ['0x1p+0'] * first + [float(v == k).hex() for v in b['r']]})
        s['ops'].append({'op': 'fit'})
        sc.append(s)
    for i in range(ctx.pick(500, 6000)):
        d, e = int(r.randint(1, 4)), int(r.choice([0, 0, 1, 2, 3]))
        p, s_ = int(r.randint(0, 4)), int(r.randint(0, 4)) if e else 0
        n = max(p, s_) + int(r.choice([1, 2, 5, 12, 25, 60], p=[.05, .1, .2, .35, .25, .05]))
        if i % 50 == 49:
            d, p, s_ = int(r.randint(4, 7)), int(r.randint(2, 8)), int(r.randint(0, 7)) if e else 0
            n = max(p, s_) + int(r.randint(80, 200))
        y, u = varx.process(r, n, d, e, p, s_)
        s = {'y': hexm(y), 'u': hexm(u) if e else None, 'p': p, 's': s_, 'ops': [],
             'layout': 'CFTSNR'[r.randint(6)], 'ulayout': 'CFTSNR'[r.randint(6)]}
        if r.rand() < .1:
            s['as'] = 'list'
        elif np.all(y == np.round(y)) and r.rand() < .7:
            s['as'] = 'int'
        for _ in range(int(r.randint(1, 4))):
            k = r.rand()
            if k < .35:
                s['ops'].append({'op': 'fit'})
            elif k < .8:
                s['ops'].append({'op': 'weighted', 'w': hexm(varx.weights(r, n)), 'layout': 'CSNR'[r.randint(4)]})
            elif k < .9:
                g = {'mu': hexm(r.standard_normal(d))}
                if p:
                    g['A'] = hexm(r.standard_normal((p, d, d)))
                if e:
                    g['B0'] = hexm(r.standard_normal((d, e)))
                if s_ == 0:
                    s['ops'].append({'op': 'set', 'given': g})
            else:
                s['ops'].append({'op': 'refuse', 'off': int(r.choice([-1, 1, -max(p, s_) or 2]))})
        if i % 10 == 0:
            s['refuse'] = [{'p': -1}, {'p': 1.5}, 'u-length', 'y-1d'] + ([{'s': -1}, {'s': 0.5}] if e else [])
        sc.append(s)
    tr = ctx.drive('varx_local', sc)
    sc, tr = lib.split_dead(ctx, sc, tr, 'regression')
    rej = ctx.validate('VarxTrace', tr)
    lib.rejected_to_violations(ctx, sc, tr, rej, 'regression')
    ctx.extra['series_of_the_model'] = len(model)
    ctx.extra['operations'] = sum(len(t['events']) for t in tr)
    ctx.sample({k: sc[-1][k] for k in ('p', 's', 'ops')})
    ctx.assumptions += ['gradients vanish up to 1e-10 of the terms, column by column, they are made of']
    return ctx.finish('model_checking', 'one trace per history of fits of one series: exact normal equations, residuals '
                      'and covariance after every operation')
