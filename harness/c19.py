"""C19: piecewise VARX."""

import numpy as np

import c18
import fits
import lib
import varx
from varx import hexa as hexm


def run(ctx):
    r = np.random.RandomState(ctx.seed + 19)
    model = [b for b in c18.replay(ctx) if b['R'] == 2]
    sc = []
    keep = range(len(model)) if ctx.thorough else sorted(r.choice(len(model), min(len(model), 150), replace=False))
    for i in keep:
        b = model[i]
        lab = [v - 1 for v in b['r']]
        sc.append({'n': 2, 'p': b['p'], 's': b['s'], 'parts': 'stub', 'clusters': lab, 'rule': 'table', 'table': lab,
                   'ops': [{'op': 'fit', 'y': fits.hexed(b['y']), 'u': fits.hexed(b['u']) if b['u'] is not None else None}]})
    for i in range(ctx.pick(450, 5000)):
        d, e = int(r.randint(1, 4)), int(r.choice([0, 1, 2]))
        p, s_ = int(r.randint(0, 4)), int(r.randint(0, 4))
        if p == 0 and (s_ == 0 or e == 0):
            p = 1
        n = int(r.randint(1, 4))
        large = i % 50 == 48
        if large:
            d, p, s_, n = int(r.randint(4, 6)), int(r.randint(1, 6)), int(r.randint(0, 6)), int(r.randint(4, 7))
        s = {'n': n, 'p': p, 's': s_, 'ops': [], 'parts': 'stub',
             'clusters': [int(v) for v in r.randint(0, n, 200)],
             'rule': ['table', 'hash', 'taught'][r.randint(3)],
             'table': [int(v) for v in r.randint(0, n, int(r.randint(1, 30)))]}
        if i % 4 == 3:
            s.update(parts=['svc', 'nn', 'default'][r.randint(3)], seed=int(r.randint(100)))
            if n == 1:
                s['parts'] = 'nn'
        if r.rand() < .4:
            s['trend'] = bool(r.rand() < .4)
        flat, uflat = d == 1 and r.rand() < .5, e == 1 and r.rand() < .5
        for j in range(int(r.randint(1, 4))):
            m = max(p, s_) + int(r.randint(8 if s['parts'] != 'stub' else 2, 40)) + 120 * large
            y, u = varx.process(r, m, d, e, p, s_, regimes=n)
            op = {'op': 'fit' if j == 0 or r.rand() < .3 else 'transform',
                  'y': hexm(y[:, 0] if flat else y), 'u': None if not e else hexm(u[:, 0] if uflat else u),
                  'layout': 'CFTSNR'[r.randint(6)], 'ulayout': 'CFTSNR'[r.randint(6)]}
            if op['op'] == 'fit' and r.rand() < .4:
                op['how'] = 'fit'
            if np.all(y == np.round(y)) and r.rand() < .8:
                op['int'] = True
            s['ops'].append(op)
        sc.append(s)
    tr = ctx.drive('varx_piecewise', sc)
    sc, tr = lib.split_dead(ctx, sc, tr, 'piecewise')
    rej = ctx.validate('PWVarxTrace', tr)
    lib.rejected_to_violations(ctx, sc, tr, rej, 'piecewise')
    ctx.extra['series_of_the_model'] = len(model)
    ctx.sample({k: sc[-1][k] for k in ('n', 'p', 's', 'parts')})
    ctx.assumptions += ['clusterer and classifier are stand-ins or scikit-learn estimators with their calls recorded']
    return ctx.finish('model_checking', 'one trace per history: what clusterer and classifier were given, labels, '
                      'exact normal equations, residuals and covariance of every regime')
