"""C21: results depend on the values of the input, not on its storage."""

import json
import os

import numpy as np

import fitgen
import lib

MODELS = ('gpnh', 'mtd', 'crom', 'aa', 'kernel_aa', 'kmeans', 'varx', 'km', 'pw', 'local')

INTEGERS = ('i8', 'i4', 'i2', 'i1', 'u1', 'u2', 'u4')


def hexa(a):
    a = np.asarray(a, dtype='f8')
    return float(a).hex() if a.ndim == 0 else [hexa(b) for b in a]


def scenario(r, kind):
    n, d, k = int(r.choice([8, 9, 12])), int(r.choice([1, 2, 3])), int(r.choice([2, 3]))
    if kind in ('pw', 'km', 'local', 'varx'):
        n = int(r.choice([20, 24]))
    whole = r.rand() < .5
    low = r.rand() < .5        # no negative numbers
    top = 6 if kind in ('aa', 'kernel_aa') and r.rand() < .5 else 20

    mixed = r.rand() < (.6 if kind in ('pw', 'varx', 'local') else .3)     # arrays of whole numbers beside others

    def data(n, m):
        if whole if not mixed else r.rand() < .5:
            return r.randint(0 if low else -top, top + 1, (n, m)).astype(float)
        return r.standard_normal((n, m)) * 2 + r.choice([0, 3])

    def weights(n, m):
        if whole and r.rand() < .4:
            return np.eye(m)[r.randint(0, m, n)]
        return r.dirichlet(np.ones(m), n)

    A = {'X': data(n, d)}
    o = {'max_iterations': int(r.choice([1, 2, 3])), 'tolerance': 0}
    s = {'model': kind, 'k': k, 'seed': int(r.randint(10000)), 'options': o}
    fit = {'op': 'fit_transform', 'args': ['X'], 'kw': {}, 'plain': {}}
    ops = [fit]
    init = ['random', 'furthest_sum', 'custom', None][r.randint(4)]
    if kind in ('gpnh', 'mtd', 'crom', 'aa', 'kernel_aa'):
        o['init'] = init
        aa = kind in ('aa', 'kernel_aa')
        if kind == 'kernel_aa':
            A['X'] = A['X'].dot(A['X'].T)
        if not aa:
            o['epsilon_states'] = float(r.choice([0, 0.3]))
        if kind == 'mtd':
            o['epsilon_weights'] = float(r.choice([0, 0.5, 5]))
        if kind in ('mtd', 'crom'):
            o['lags'] = [[1], [2], [1, 3]][r.randint(3)]
        frozen = [b for b in ('D', 'G') if r.rand() < .15]
        if init == 'custom' or 'D' in frozen:
            A['D'] = weights(k, n) if aa else data(k, d)
            fit['kw']['dictionary'] = 'D'
        if init == 'custom' or 'G' in frozen:
            A['G'] = weights(n, k)
            fit['kw']['weights'] = 'G'
        for b in frozen:
            fit['plain'][{'D': 'update_dictionary', 'G': 'update_weights'}[b]] = False
        if kind == 'mtd' and init == 'custom':
            A['L'] = np.eye(2)[1] if len(o['lags']) == 2 and whole else weights(1, len(o['lags']))[0]
            A['P'] = np.array([weights(k, k).T for _ in o['lags']])
            fit['kw'].update(order_weights='L', transition_matrices='P')
        m = n if aa else int(r.choice([8, 9, 12]))
        A['Y'] = data(m, d)
        if kind == 'kernel_aa':
            A['Y'] = A['Y'].dot(A['Y'].T)
        ops.append({'op': 'transform', 'args': ['Y']})
        if kind in ('mtd', 'crom'):
            ops.append({'op': 'predict', 'args': [('Y', 'X')[r.randint(2)]], 'plain': {'horizon': int(r.randint(0, 4))}})
        A['W'] = weights(m, k)
        ops.append({'op': 'inverse_transform', 'args': ['W']})
    elif kind in ('kmeans', 'varx'):
        s.update(init='custom' if r.rand() < .6 else 'random', tv=[None, 2.0, 3.5][r.randint(3)], mem=[0] * k)
        e = 0
        if kind == 'varx':
            s['memory'] = int(r.randint(0, 3))
            s['mem'] = [s['memory']] * k
            e = int(r.choice([0, 1, 2]))
        mm = max(s['mem'])
        if e:
            A['U'] = data(n, e)
            A['V'] = data(n, e)
            fit['kw']['external_factors'] = 'U'
        if s['init'] == 'custom':
            A['G'] = r.dirichlet(np.ones(k), n - mm) if kind == 'varx' else weights(n - mm, k)
            fit['kw']['weights'] = 'G'
            if r.rand() < .7:
                A['mu'] = data(k, d)
                if kind == 'kmeans':
                    fit['kw']['parameters'] = 'mu'
                else:
                    fit['kw']['parameters'] = {'mu': 'mu'}
                    if mm:
                        A['A'] = np.round(r.standard_normal((k, mm, d, d))) if whole else 0.4 * r.standard_normal((k, mm, d, d))
                        fit['kw']['parameters']['A'] = 'A'
                    if e:
                        A['B'] = data(k * d, e).reshape(k, d, e)
                        fit['kw']['parameters']['B0'] = 'B'
        A['Y'] = data(n, d)
        ops.append({'op': 'transform', 'args': ['Y'], 'kw': {'external_factors': 'V'} if e else {}})
    elif kind == 'km':
        s['options'] = {'n_init': 1}
        fit['op'] = ['fit_predict', 'fit_transform'][r.randint(2)]
        if r.rand() < .4:
            A['w'] = r.randint(1, 5, n).astype(float) if whole else r.rand(n) + .1
            fit['kw']['sample_weight'] = 'w'
        A['Y'] = data(int(r.choice([8, 9])), d)
        ops += [{'op': 'transform', 'args': ['Y']}, {'op': 'predict', 'args': ['Y'], 'plain': {'horizon': int(r.randint(0, 3))}}]
    elif kind == 'pw':
        p = int(r.choice([1, 2]))
        e = int(r.choice([0, 1, 2]))
        s['k'] = k = 2
        s['options'] = {'p': p}
        if e:
            A['U'], A['V'] = data(n, e), data(n, e)
            s['options']['s'] = int(r.randint(0, 3))
            fit['kw']['exog'] = 'U'
        A['Y'] = data(n, d)
        ops.append({'op': 'transform', 'args': ['Y'], 'kw': {'exog': 'V'} if e else {}})
    else:
        e = int(r.choice([0, 1, 2]))
        s['options'] = {'p': int(r.randint(0, 3))}
        build = {'op': 'construct', 'args': ['X'], 'kw': {}}
        if e:
            A['U'] = data(n, e)
            build['kw']['u'] = 'U'
            s['options']['s'] = int(r.randint(0, 3))
        A['w'] = r.randint(1, 5, n).astype(float) if whole else r.rand(n)
        ops = [build, {'op': 'fit', 'args': []}, {'op': 'fit', 'args': [], 'kw': {'weights': 'w'}}]
    if r.rand() < .25 and kind != 'local':
        ops.append(dict(fit, again=True))
    s.update(ops=ops, arrays={n: hexa(a) for n, a in A.items()})
    s['shapes'] = sorted({a.shape for a in A.values() if a.ndim == 2})
    s['whole'] = {n: [t for t in INTEGERS if np.all(np.iinfo(t).min <= a) and np.all(a <= np.iinfo(t).max)]
                  + ([] if kind == 'km' else ['f4'])
                  for n, a in sorted(A.items()) if np.all(a == np.round(a))}
    return s


def run(ctx):
    r = np.random.RandomState(ctx.seed + 21)
    sc = [scenario(r, MODELS[i % len(MODELS)]) for i in range(ctx.pick(360, 4000))]
    shapes = sorted({sh for s in sc for sh in s['shapes']})
    path = os.path.join(ctx.tmp, 'shapes.json')
    with open(path, 'w') as f:
        json.dump(shapes, f)
    slices = ctx.pick(12, 1)
    lay = {}
    for l in ctx.behaviours('StorageMC', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
                            'INVARIANTS Inside Apart ReadsBack Untouched CompactInOrder FlatOrder\n'
                            'CONSTANTS Slice = %d Slices = %d\n' % (ctx.seed % slices, slices),
                            env={'SHAPES': path}):
        lay.setdefault('%dx%d' % (l['n'], l['d']), []).append(l)
    for s in sc:
        s['runs'] = [{'letter': 'CF'[i], 'readonly': i == 0} for i in range(2)]
        for _ in range(ctx.pick(4, 8)):
            h = {'readonly': bool(r.rand() < .3), 'letter': 'CFTSN'[r.randint(5)], 'layouts': {}, 'dtypes': {}}
            for sh in s['shapes']:
                a = lay['%dx%d' % sh]
                h['layouts']['%dx%d' % sh] = a[r.randint(len(a))]
            t = r.rand()
            for n in s['whole']:
                if t < .5 or r.rand() < .5:
                    h['dtypes'][n] = str(r.choice(s['whole'][n] + ['>f8']))
            s['runs'].append(h)
        s['runs'].append({'lists': True})
        s['runs'].append({'lists': [n for n in sorted(s['arrays']) if r.rand() < .5], 'letter': 'CFTSN'[r.randint(5)],
                          'dtypes': {n: str(r.choice(INTEGERS[:2])) for n in s['whole'] if r.rand() < .5}})
        if s['whole']:
            s['runs'].append({'dtypes': {n: 'i8' for n in s['whole']}})
    tr = ctx.drive('storage', sc)
    sc, tr = lib.split_dead(ctx, sc, tr, 'storage')
    rej = ctx.validate('StorageTrace', tr, chunk=1500)
    lib.rejected_to_violations(ctx, sc, tr, rej, 'storage')
    ctx.extra['layouts'] = sum(len(v) for v in lay.values())
    ctx.extra['runs'] = sum(len(t['runs']) for t in tr)
    ctx.extra['shapes'] = len(shapes)
    ctx.sample({k: sc[-1][k] for k in ('model', 'options', 'whole', 'shapes')})
    ctx.assumptions += ['fits of at most three iterations, whose results rounding cannot change by more than 1e-6']
    return ctx.finish('model_checking', 'one trace per history of requests, run once per storage of its arrays; layouts '
                      'enumerated by the storage model')
