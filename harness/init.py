"""Drivers of C20: the factors of a fit before its first update."""

import numpy as np

from drivers import (STILL, call, enc, fembv_arguments, fembv_model, layout, make_model, matrix, res, vector,
                     _fembv_state, _state)

EMPTY = {'D': [], 'G': [], 'L': [], 'P': []}


def _trace(s, X, rows, k, want):
    return {'outcome': 'ok', 'unchanged': True, 'X': enc(X), 'kernel': False, 'fs': False, 'k': k, 'rows': rows,
            'lags': 0, 'want': dict({'D': 'other', 'G': 'other', 'L': 'other', 'P': 'other'}, **want),
            'given': dict(EMPTY), 'D': [], 'G': [], 'L': [], 'P': [], 'generic': bool(s.get('generic')),
            'start': 'any', 'startindex': -1, 'exclude': [], 'extra': 10}


def _malformed(t):
    if any(isinstance(t[f], str) for f in 'DGLP'):
        t.update(EMPTY, outcome='malformed', fs=False)
    return t


def guess(s):
    """One fit of a factorisation model that never leaves its initial guess."""
    kind = s['model']
    aa = kind in ('aa', 'kernel_aa')
    X = matrix(s['X'])
    o = dict(STILL, n_components=s['k'], random_state=s['seed'])
    if 'init' in s:
        o['init'] = s['init']
    o.update(s.get('options', {}))
    if kind in ('mtd', 'crom'):
        o['lags'] = s['lags']
    K = matrix(s['K']) if s.get('K') is not None else X.dot(X.T)
    if kind == 'aa' and s.get('K') is not None:
        o['kernel_func'] = lambda Y, Z=None: K.copy()
    model, arg = make_model(kind, X, o)
    if kind == 'kernel_aa':
        arg = K
    arg = layout(arg, s.get('layout', 'C'))
    before = np.array(arg)
    kw = {}
    names = {'D': 'dictionary', 'G': 'weights', 'L': 'order_weights', 'P': 'transition_matrices'}
    for f, m in s['given'].items():
        kw[names[f]] = (vector(m) if f == 'L' else np.array([matrix(p) for p in m]) if f == 'P' else matrix(m))
    kept = {a: np.array(b) for a, b in kw.items()}
    flags = {}
    for f, a in (('D', 'update_dictionary'), ('G', 'update_weights')):
        if f in s['frozen']:
            flags[a] = False
    if kind == 'mtd' and 'P' in s['frozen']:
        flags['update_parameters'] = False
    t = _trace(s, K if aa else X, len(X), s['k'], s['want'])
    t.update(kernel=aa, fs=s['want']['D'] == 'furthest', lags=len(s.get('lags', [])))
    for f, m in kept.items():
        t['given'] = dict(t['given'], **{{v: k for k, v in names.items()}[f]: enc(m)})
    opt = {}
    if 'start' in s:
        opt['start_index'] = s['start']
        if s['start'] is not None:
            t.update(start='at', startindex=s['start'])
    if 'exclude' in s:
        e = s['exclude']
        opt['exclude'] = np.array(e, dtype='i8') if s['seed'] % 2 and e is not None else e
        t['exclude'] = e or []
    if 'extra' in s:
        opt['n_extra_steps'] = t['extra'] = s['extra']
    out, W, _ = call(getattr(model, 'fit_transform'), arg, **kw, **flags, **opt)
    t['outcome'] = out
    t['unchanged'] = bool(np.array_equal(np.asarray(arg), before)
                          and all(np.array_equal(kw[a], kept[a]) for a in kw))
    if out != 'ok':
        t['fs'] = False
        return t
    t.update(_state(kind, model, W))
    if kind == 'crom':
        t.update(L=[], P=[])
    return _malformed(t)


def fembv_guess(s):
    """One FEM-BV fit that updates nothing."""
    X = matrix(s['X'])
    kw = fembv_arguments(s)
    model = fembv_model(s)
    mem = max(s['mem'])
    want = {'G': 'given' if s.get('G') is not None and s['init'] == 'custom' else 'stochastic'}
    custom = s.get('mu') is not None and s['init'] == 'custom'
    if custom:
        want['D'] = 'given'
        if s['model'] == 'varx':
            want['P'] = 'given'
    elif s['model'] == 'kmeans':
        want['D'] = 'samples'
    t = _trace(s, X, len(X) - mem, s['k'], want)
    given = {'D': s.get('mu') or [], 'G': s.get('G') or [], 'L': [], 'P': []}

    def flat(A, B):
        P = [A[j][l] for j in range(s['k']) for l in range(s['mem'][j])]
        return P + [B[j] for j in range(len(B))]

    if custom and s['model'] == 'varx':
        given['P'] = flat(s.get('A') or [], s.get('B') or [])
    t['given'] = given
    before = X.copy()
    out, W, _ = call(model.fit_transform, X, update_parameters=False, update_weights=False, **kw)
    t['outcome'] = out
    t['unchanged'] = bool(np.array_equal(X, before))
    if out != 'ok':
        return t
    st = _fembv_state(s, model, W)
    if any(isinstance(v, str) for v in st.values()):
        t.update(EMPTY, outcome='malformed')
        return t
    t.update(D=st['mu'], G=st['G'])
    if custom and s['model'] == 'varx':
        t['P'] = flat(st['A'], st['B'])
    return _malformed(t)


def stochastic(s):
    """The random stochastic matrices themselves."""
    from reor._random_matrix import left_stochastic_matrix, right_stochastic_matrix
    n, k = s['shape']
    t = _trace(s, np.zeros((1, 1)), n, k, {'G': 'stochastic'})
    rng = s['seed'] if s['seed'] % 2 else np.random.RandomState(s['seed'])
    if s['side'] == 'right':
        out, v, _ = call(right_stochastic_matrix, (n, k), random_state=rng)
    else:
        out, v, _ = call(left_stochastic_matrix, (k, n), random_state=rng)
    v = res(v, 2) if out == 'ok' else []
    t['outcome'] = out
    if v == 'other':
        t['outcome'] = 'malformed'
    elif out == 'ok':
        t['G'] = v if s['side'] == 'right' else [list(c) for c in zip(*v)]
    return t
