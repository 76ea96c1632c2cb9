"""C22: archetypal analysis equals kernel analysis of the Gram matrix."""

import numpy as np

import fitgen
import fits
import lib

hexm = fitgen.hexm


def replay(ctx):
    sc = []
    for P, C, D, slices in ctx.pick([(3, 2, 1, 60), (3, 2, 2, 60), (3, 1, 2, 4), (2, 2, 2, 1)],
                                    [(3, 2, 1, 6), (3, 2, 2, 6), (3, 1, 2, 1), (2, 2, 2, 1), (3, 3, 2, 60)]):
        for i, b in enumerate(ctx.behaviours(
                'GramMC', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
                'INVARIANTS SameCost SameGradients SameDistances Feasible\nPROPERTY Bisimilar\n'
                'CONSTANTS Points = %d Comps = %d Dims = %d Iters = 3 Slice = %d Slices = %d\n'
                % (P, C, D, ctx.seed % slices, slices))):
            sc.append({'k': C, 'kernel': 'gram', 'seed': i, 'options': {'init': 'custom', 'max_iterations': 1 + i % 4, 'tolerance': 0},
                       'ops': [{'op': 'fit', 'X': fits.hexed(b['X']), 'D': fits.hexed(b['D']), 'G': fits.hexed(b['G'])}]})
    return sc


def scenario(r):
    n, d = int(r.randint(3, 14)), int(r.randint(1, 5))
    k = int(r.randint(1, min(n, 5)))
    if r.rand() < .03:
        n, d, k = int(r.randint(25, 45)), int(r.randint(4, 60)), int(r.randint(4, 9))
    whole = r.rand() < .3

    def data():
        return (r.randint(-3, 4, (n, d)).astype(float) if whole
                else r.standard_normal((n, d)) * 10.0 ** r.choice([-1, 0, 1]) + r.choice([0, 0, 2]))

    o = {'max_iterations': int(r.choice([1, 2, 3, 5])), 'tolerance': float(r.choice([0, 1e-2, 1e-6]))}
    o.update(fitgen.search_options(r) if r.rand() < .3 else {})
    if r.rand() < .8:
        o['init'] = [None, 'random', 'furthest_sum', 'custom'][r.randint(4)]
    if r.rand() < .15:
        o['delta'] = 0.3
    s = {'k': k, 'kernel': ['gram', 'gram', 'poly', 'rbf', 'scaled', 'ridge', 'int'][r.randint(7)],
         'seed': int(r.randint(10000)), 'options': o, 'ops': []}
    for i in range(int(r.randint(1, 5))):
        q = {'op': 'fit' if i == 0 or r.rand() < .3 else 'transform', 'X': hexm(data()), 'layout': 'CFTSNR'[r.randint(6)]}
        if i and r.rand() < .3:
            q['X'] = s['ops'][0]['X']
        if q['op'] == 'fit':
            q['apart'] = bool(r.rand() < .3)
            opt = {}
            frozen = [v for v in 'DG' if r.rand() < .15]
            for v in 'DG':
                if v in frozen or o.get('init') == 'custom':
                    q[v] = hexm(fitgen.rows(r, k, n) if v == 'D' else fitgen.rows(r, n, k))
                if v in frozen:
                    opt[{'D': 'update_dictionary', 'G': 'update_weights'}[v]] = False
            if o.get('init') == 'furthest_sum' and r.rand() < .4:
                opt['start_index'] = int(r.randint(n))
                opt['n_extra_steps'] = int(r.randint(0, 6))
            q['options'] = opt
        s['ops'].append(q)
    return s


def run(ctx):
    r = np.random.RandomState(ctx.seed + 22)
    sc = replay(ctx)
    ctx.extra['model_guesses_replayed'] = len(sc)
    sc += [scenario(r) for _ in range(ctx.pick(500, 8000))]
    tr = ctx.drive('gram', sc)
    sc, tr = lib.split_dead(ctx, sc, tr, 'pair')
    rej = ctx.validate('GramTrace', tr, chunk=3000)
    lib.rejected_to_violations(ctx, sc, tr, rej, 'pair')
    ctx.extra['requests'] = sum(len(t['events']) for t in tr)
    ctx.extra['refused'] = sum(t['events'][-1]['a']['outcome'] != 'ok' for t in tr)
    ctx.sample({k: sc[-1][k] for k in ('k', 'kernel', 'options')})
    ctx.assumptions += ['results of the two sides may differ by rounding carried through at most five iterations']
    return ctx.finish('model_checking', 'one trace per history of requests made to both estimators')
