"""Driver of C21: the same requests on the same numbers, stored differently."""

import numpy as np

from drivers import call, enc, fembv_model, is_real, layout, make_model, num
from varx import unhex

FACTOR = ('gpnh', 'mtd', 'crom', 'aa', 'kernel_aa')
ATTRIBUTES = {
    'gpnh': ['dictionary_', 'cost_'], 'aa': ['dictionary_', 'cost_'], 'kernel_aa': ['dictionary_', 'cost_'],
    'mtd': ['dictionary_', 'order_weights', 'transition_matrices', 'cost_'],
    'crom': ['dictionary_', 'order_weights', 'transition_matrices', 'cost_'],
    'kmeans': ['Theta', 'cost_'], 'varx': ['mu', 'A', 'B0', 'cost_'],
    'km': ['cluster_centers_', 'labels_', 'transition_matrix_'],
    'pw': ['mu', 'A', 'B', 'Sigma_u', 'residuals'],
    'local': ['mu', 'A', 'B0', 'residuals', 'Sigma_u']}


def stored(a, how):
    """The numbers of a in the storage of a run."""
    dt = np.dtype(how.get('dtype', 'f8'))
    lay = how.get('layouts', {}).get('%dx%d' % a.shape) if a.ndim == 2 else None
    if lay:
        base = np.full(lay['len'], 7, dtype=dt)
        v = np.lib.stride_tricks.as_strided(base[lay['off']:], shape=a.shape, writeable=True,
                                            strides=(lay['s0'] * dt.itemsize, lay['s1'] * dt.itemsize))
        v[...] = a
    else:
        v = layout(a.astype(dt), how.get('letter', 'C'))
    if how.get('readonly'):
        v.flags.writeable = False
    return v


def _result(name, v):
    if v is None:
        return {'name': name, 'shape': [], 'flat': []}
    if isinstance(v, (list, tuple)) and v and all(isinstance(x, np.ndarray) or x is None for x in v):
        v = np.concatenate([np.ravel(x) for x in v if x is not None] or [np.zeros(0)])
    if not is_real(v):
        return {'name': name, 'shape': [-1], 'flat': []}
    a = np.asarray(v, dtype='f8')
    return {'name': name, 'shape': [int(x) for x in a.shape], 'flat': enc(a.ravel())}


def _model(s, y=None, u=None):
    kind = s['model']
    o = s['options']
    if kind in FACTOR:
        return make_model(kind, np.zeros((1, 1)), dict(o, n_components=s['k'], random_state=s['seed']))[0]
    if kind in ('kmeans', 'varx'):
        return fembv_model(s)
    if kind == 'km':
        from reor.crom import KMeansMarkovCROM
        return KMeansMarkovCROM(n_clusters=s['k'], random_state=s['seed'], **o)
    if kind == 'pw':
        from sklearn.cluster import KMeans
        from reor.pwvarx import ClusterPWVARX
        return ClusterPWVARX(n_components=s['k'], random_state=s['seed'],
                             clusterer=KMeans(n_clusters=s['k'], n_init=1, random_state=s['seed']), **o)
    from reor.fembv_varx import FEMBVVARXLocalLinearModel
    return FEMBVVARXLocalLinearModel(y, u=u, **o)


def _one(s, how):
    A = {n: unhex(v) for n, v in s['arrays'].items()}
    own = how.get('dtypes', {})
    H = {n: stored(a, dict(how, dtype=own.get(n, 'f8'))) for n, a in A.items()}
    lists = how.get('lists', [])
    H = {n: v.tolist() if lists is True or n in lists else v for n, v in H.items()}
    kind = s['model']
    steps = []
    model = None if kind == 'local' else _model(s)
    for q in s['ops']:
        kw = {}
        for n, name in q.get('kw', {}).items():
            kw[n] = {m: H[v] for m, v in name.items()} if isinstance(name, dict) else H[name]
        kw.update(q.get('plain', {}))
        args = [H[n] for n in q['args']]
        if kind == 'local' and q['op'] == 'construct':
            out, model, _ = call(_model, s, args[0], kw.get('u'))
            v = None
        else:
            out, v, _ = call(getattr(model, q['op']), *args, limit=60, **kw)
        e = {'op': q['op'], 'outcome': out, 'results': [], 'unchanged': True}
        steps.append(e)
        if out != 'ok':
            break
        if isinstance(v, (np.ndarray, float, int, np.generic)):
            e['results'].append(_result('result', v))
        e['results'] += [_result(n, getattr(model, n, None)) for n in ATTRIBUTES[kind]]
        e['unchanged'] = all(np.array_equal(np.asarray(H[n], dtype='f8'), A[n]) for n in A)
    return {'steps': steps}


def compare(s):
    return {'scale': num(max(1.0, np.abs(unhex(s['arrays']['X'])).max())),
            'runs': [_one(s, {})] + [_one(s, h) for h in s['runs']]}
