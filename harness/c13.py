"""C13: forecasts equal iterating the fitted mixture-transition model."""

import numpy as np

import fitgen
import fits
import lib
from fitgen import hexm, rows


def run(ctx):
    beh = ctx.behaviours(
        'MarkovForecastMC', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
        'INVARIANTS WindowSuffices Probability Composes\n'
        'CONSTANTS Wide = %s MaxHorizon = %d Length = 4\n'
        % (ctx.pick('FALSE', 'TRUE'), ctx.pick(4, 6)))
    r = np.random.RandomState(ctx.seed + 13)
    sc = []
    for i, b in enumerate(beh):
        if i % ctx.pick(4, 1):
            continue
        h = np.array([[fits.real(v) for v in row] for row in b['hist']])
        # with unit vectors as dictionary the weights of h are h
        sc.append({'model': ['mtd', 'crom'][i // 4 % 2], 'lags': [int(v) for v in b['lags']], 'k': 2, 'seed': i,
                   'X': hexm(h), 'D': hexm(np.eye(2)), 'G': hexm(h), 'L': fits.hexed(b['L']),
                   'P': fits.hexed(b['P']), 'frozen': True, 'Y': hexm(h), 'exact': True,
                   'options': {'max_iterations': 200, 'tolerance': 1e-12}, 'horizons': [0, 1, 2, 3, 5]})
    for i in range(ctx.pick(150, 2500)):
        model = ['mtd', 'crom'][i % 2]
        large = i % 25 > 22
        n, d, k = int(r.randint(3, 16)), int(r.randint(1, 4)), int(r.randint(1, 5))
        if large:
            n, d, k = int(r.randint(40, 90)), int(r.randint(4, 8)), int(r.randint(5, 9))
        lags = [[1], [2], [1, 2], [1, 3], [3, 1], [2, 5], [4], [1, 2, 3], [5, 1], [2, 2], [1, 4, 6]][r.randint(11)]
        if large:
            lags = fitgen.LONG[r.randint(len(fitgen.LONG))]
        lags = [v for v in lags if v < n] or [1]
        if i % 15 in (4, 5):
            d, k = 1, int(r.choice([1, 1, 2]))
        X = fitgen.data(r, n, d) * (i % 15 not in (4, 5))
        s = {'model': model, 'lags': lags, 'k': k, 'seed': int(r.randint(1000)), 'X': hexm(X),
             'options': {'max_iterations': int(r.choice([1, 3, 20])), 'tolerance': 1e-8,
                         'epsilon_states': float(r.choice([0, 0.1]))}}
        if model == 'mtd':
            s['options']['epsilon_weights'] = float(r.choice([0, 0.1, 5]))
        if r.rand() < .5:
            s['D'] = hexm(X[r.randint(0, n, k)] + (i % 15 not in (4, 5)) * r.standard_normal((k, d)))
            s['G'] = hexm(rows(r, n, k))
            s['L'] = [float(v).hex() for v in rows(r, 1, len(lags))[0]]
            s['P'] = [hexm(rows(r, k, k).T) for _ in lags]
        m = int(r.randint(1, 14)) if r.rand() < .6 else max(lags) + int(r.randint(-2, 3))
        if large:
            m = int(r.choice([5, 40, 70]))
        s['Y'] = hexm(fitgen.data(r, max(m, 1), d))
        top = max(lags)
        s['horizons'] = sorted({0, 1, 2, top, top + 1, int(r.randint(0, 3 * top + 4))})
        if large:
            s['horizons'] = [0, 7, int(r.randint(20, 60))]
        sc.append(s)
    tr = ctx.drive('forecasts', sc)
    sc, tr = lib.split_dead(ctx, sc, tr, 'forecast')
    rej = ctx.validate('ForecastTrace', tr)
    lib.rejected_to_violations(ctx, sc, tr, rej, 'forecast')
    ctx.extra['forecasts'] = sum(len(t['forecasts']) for t in tr)
    ctx.sample({k: sc[-1][k] for k in ('model', 'lags', 'options', 'horizons')})
    ctx.assumptions += ['forecasts compared up to 1e-9 of the dictionary',
                        'the weights of a series are those a copy of the model returns for it']
    return ctx.finish('model_checking', 'one trace per fitted model and series: forecasts at several horizons')
