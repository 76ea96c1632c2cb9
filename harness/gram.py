"""Driver of C22: archetypal analysis next to kernel analysis of its kernel."""

import numpy as np

from drivers import call, enc, is_real, layout, matrix, num, res

KERNELS = {
    'poly': lambda X: (1 + X.dot(X.T)) ** 2,
    'rbf': lambda X: np.exp(-((X[:, None] - X[None]) ** 2).sum(2) / 2),
    'scaled': lambda X: np.asfortranarray(0.37 * X.dot(X.T)),
    'ridge': lambda X: X.dot(X.T) + np.diag(1.0 + np.arange(len(X))),
    'int': lambda X: np.rint(4 * X).astype('i8').dot(np.rint(4 * X).astype('i8').T),
}


def _side(model, out, W, op, cost_before):
    e = {'outcome': out, 'D': [], 'G': [], 'cost': num(0), 'niter': -1}
    if out != 'ok':
        return e
    e.update(D=res(getattr(model, 'dictionary_', None), 2), G=res(W, 2))
    c, n = getattr(model, 'cost_', None), getattr(model, 'n_iter_', None)
    e['cost'] = num(c) if c is not None and is_real(c, 0) else 'nan'
    e['niter'] = int(n) if isinstance(n, (int, np.integer)) else -2
    if isinstance(e['D'], str) or isinstance(e['G'], str):
        e.update(outcome='malformed', D=[], G=[])
    return e


def pair(s):
    """A history of requests to both estimators."""
    from reor.archetypal_analysis import ArchetypalAnalysis, KernelAA
    o = dict(s['options'], n_components=s['k'], random_state=s['seed'])
    func = KERNELS.get(s['kernel'])
    t = {'k': s['k'], 'gram': s['kernel'] == 'gram', 'delta': bool(o.get('delta')), 'events': []}
    a = ArchetypalAnalysis(kernel_func=func, **o) if func else ArchetypalAnalysis(**o)
    b = KernelAA(**o)
    for q in s['ops']:
        X = matrix(q['X'])
        K = func(X) if func else X.dot(X.T)
        kw = {n: matrix(q[f]) for f, n in (('D', 'dictionary'), ('G', 'weights')) if f in q}
        opts = dict(q.get('options', {}))
        Y = layout(X, q.get('layout', 'C'))
        if q['op'] == 'fit':
            if q.get('apart'):
                out, W, _ = call(a.fit, Y, **{n: v.copy() for n, v in kw.items()}, **opts)
            else:
                out, W, _ = call(a.fit_transform, Y, **{n: v.copy() for n, v in kw.items()}, **opts)
            ob, V, _ = call(b.fit_transform, K.copy(), **{n: v.copy() for n, v in kw.items()}, **opts)
            if q.get('apart') and out == 'ok':    # its weights are not returned
                W = V
        else:
            out, W, _ = call(a.transform, Y)
            ob, V, _ = call(b.transform, K.copy())
        t['events'].append({
            'op': q['op'], 'X': enc(X), 'K': [] if t['gram'] else enc(K), 'scale': num(abs(np.trace(K)) + 1e-300),
            'a': _side(a, out, W, q['op'], None), 'b': _side(b, ob, V, q['op'], None),
            'unchanged': bool(np.array_equal(np.asarray(Y), X))})
        if out != 'ok':
            break
    return t
