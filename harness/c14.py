"""C14: the k-means Markov model."""

import numpy as np

import fitgen
import lib
from fitgen import hexm


def run(ctx):
    r = np.random.RandomState(ctx.seed + 14)
    sc = []
    seen = set()
    for K, N in ctx.pick([(2, 5), (3, 5)], [(2, 8), (3, 7), (4, 5)]):
        beh = ctx.behaviours('MarkovChainMC', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
                             'INVARIANTS Agrees Columns Distribution Absorbing\nCONSTANTS K = %d N = %d\n' % (K, N))
        for b in beh:
            lab = b['labels']
            used = sorted(set(lab))
            lab = tuple(used.index(v) for v in lab)
            if lab in seen:
                continue
            seen.add(lab)
            k = len(used)
            centres = np.array([[0.0, 0.0], [100.0, 10.0], [-50.0, 80.0], [30.0, -90.0]])
            X = centres[list(lab)] + 0.5 * r.standard_normal((len(lab), 2)) * (r.rand() < .6)
            sc.append({'X': hexm(X), 'k': k, 'nc': k, 'seed': int(r.randint(100)), 'wanted': [v + 1 for v in lab],
                       'options': {'n_init': 10}, 'predict': [[0, None], [1, None], [int(r.randint(2, 6)), None]]})
    n_model = len(sc)
    if not ctx.thorough:
        keep = sorted(r.choice(len(sc), min(len(sc), 260), replace=False))
        sc = [sc[i] for i in keep]
    for i in range(ctx.pick(150, 2000)):
        n, d, k = int(r.randint(6, 30)), int(r.randint(1, 4)), int(r.randint(1, 6))
        large = i % 25 == 24
        if large:
            n, d, k = int(r.randint(100, 400)), int(r.randint(3, 8)), int(r.randint(6, 12))
        X = r.standard_normal((n, d)) if r.rand() < .5 else np.cumsum(r.standard_normal((n, d)), axis=0)
        if r.rand() < .2:                      # an absorbing last regime
            X[n // 2:] += 20
        s = {'X': hexm(X), 'k': k, 'nc': k, 'seed': int(r.randint(1000)),
             'options': {'n_init': int(r.randint(1, 4))},
             'predict': [[0, None], [1, None], [int(r.randint(2, 12)) + 60 * large, hexm(3 * r.standard_normal((int(r.randint(1, 6)), d)))]],
             'Y': hexm(r.standard_normal((3, d)))}
        if r.rand() < .3:
            s['w'] = [float(v).hex() for v in 0.2 + r.rand(n)]
        if r.rand() < .1:
            s.update(k=2, nc=None)
        sc.append(s)
    tr = ctx.drive('kmeans_markov', sc)
    sc, tr = lib.split_dead(ctx, sc, tr, 'model')
    rej = ctx.validate('MarkovChainTrace', tr)
    lib.rejected_to_violations(ctx, sc, tr, rej, 'model')
    ctx.extra['label_sequences_of_the_model'] = n_model
    ctx.sample({k: sc[0][k] for k in ('wanted', 'k', 'predict')})
    ctx.assumptions += ['the clustering itself is scikit-learn\'s: its labels are checked against the intended '
                        'partition where clusters are well separated']
    return ctx.finish('model_checking', 'one trace per fitted model: matrix, predictions, distances, fit variants')
