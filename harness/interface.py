"""Driver of C23 and C24: sessions with one estimator."""

import numpy as np

import life
from drivers import call, enc, fembv_model, is_real, make_model, matrix

FACTOR = ('gpnh', 'mtd', 'crom', 'aa', 'kernel_aa')
ATTRIBUTES = {
    'gpnh': ['dictionary_'], 'aa': ['dictionary_'], 'kernel_aa': ['dictionary_'],
    'mtd': ['dictionary_', 'order_weights', 'transition_matrices'],
    'crom': ['dictionary_', 'order_weights', 'transition_matrices'],
    'kmeans': ['Theta', 'Gamma'], 'varx': ['mu', 'A', 'B0', 'Gamma'],
    'km': ['cluster_centers_', 'labels_', 'inertia_', 'transition_matrix_', 'n_iter_'],
    'pw': ['mu', 'A', 'B', 'Sigma_u', 'residuals', 'cluster_labels_']}
FITS = ('fit', 'fit_transform', 'fit_predict')


def described(name, v):
    d = {'name': name, 'kind': 'other', 'shape': [], 'finite': 0, 'flat': [], 'count': -1}
    if v is not None and is_real(v):
        a = np.asarray(v, dtype='f8')
        d.update(kind='real', shape=[int(x) for x in a.shape], finite=int(np.isfinite(a).sum()), flat=enc(a.ravel()))
        if a.ndim == 0 and np.isfinite(a) and a == int(a):
            d['count'] = int(a)
    return d


def array(v):
    """Nested lists of hexadecimal numbers as an array."""
    return np.array([array(x) for x in v]) if isinstance(v, list) else float.fromhex(v)


def guess(g):
    kw = {}
    for n, v in (g or {}).items():
        if n == 'frozen':
            kw.update((f, False) for f in v)
        elif isinstance(v, dict):
            kw[n] = {a: array(b) for a, b in v.items()}
        else:
            kw[n] = array(v)
    return kw


class Session:
    def __init__(self, s):
        self.s, self.kind = s, s['model']
        o = dict(s['options'])
        k = s['k'] or None
        if self.kind in FACTOR:
            self.m, _ = make_model(self.kind, np.zeros((1, 1)), dict(
                o, n_components=k, init=s['init'], random_state=s['seed']))
        elif self.kind in ('kmeans', 'varx'):
            self.m = fembv_model(dict(s, k=k))
        elif self.kind == 'km':
            from reor.crom import KMeansMarkovCROM
            self.m = KMeansMarkovCROM(k, random_state=s['seed'], **o)
        else:
            from reor.pwvarx import ClusterPWVARX
            if s['classifier'] == 'nn':
                from sklearn.neighbors import KNeighborsClassifier
                o['classifier'] = KNeighborsClassifier(1)
            self.m = ClusterPWVARX(k, random_state=s['seed'], **o)

    def arguments(self, i, op):
        a = self.s['arrays'][i]
        if op == 'inverse_transform':
            return matrix(a['W']), {}
        X = matrix(a['X'])
        if self.kind == 'kernel_aa':
            X = X.dot(X.T)
        kw = {}
        if a.get('U') is not None:
            kw['exog' if self.kind == 'pw' else 'external_factors'] = matrix(a['U'])
        if op in FITS:
            kw.update(guess(a.get('guess')))
        return X, kw

    def attributes(self):
        names = list(ATTRIBUTES[self.kind])
        if self.kind not in ('km', 'pw'):
            names += ['cost_', 'n_iter_', 'n_components_']
        r = []
        for n in names:
            v = getattr(self.m, n, None)
            if v is not None:
                r.append(described(n, v))
        return r

    def perform(self, i, c, op):
        X, kw = self.arguments(i, op)
        if op == 'predict':
            kw = dict(kw, horizon=c['h'])
        out, v, _ = call(getattr(self.m, op), X, limit=60, **kw)
        e = {'op': op, 'm': c['m'], 'h': c['h'], 'outcome': out, 'itself': v is self.m, 'attributes': [],
             'result': described('result', None), 'iterations': -1, 'others': [], 'product': [], 'same': []}
        if out != 'ok':
            return e, X, kw, v
        if op != 'fit':
            e['result'] = described('result', v)
        if op in FITS:
            e['attributes'] = self.attributes()
            n = getattr(self.m, 'n_iter_', None)
            if self.kind not in ('km', 'pw') and n is not None:
                e['iterations'] = int(n)
        return e, X, kw, v

    def compared(self, e, op, X, kw, v):
        """Results that must be the same numbers: [clause, one, other]."""
        m, r = self.m, []
        if e['outcome'] != 'ok':
            return r

        def same(clause, a, b):
            r.append([clause, described('a', a), described('b', b)])
        if self.kind in ('kmeans', 'varx') and op in ('fit_transform', 'transform'):
            same('result-is-not-Gamma', v, m.Gamma)
        if self.kind == 'km':
            if op == 'fit_predict':
                same('result-is-not-labels_', v, m.labels_)
            if op == 'fit_transform':
                o, w, _ = call(m.transform, X)
                same('fit_transform-is-not-the-transformed-data', v, w)
            if op in FITS:
                from reor.crom import kmeans_markov_crom
                o, w, _ = call(kmeans_markov_crom, X, n_clusters=self.s['k'] or None,
                               random_state=self.s['seed'], **dict(kw, **self.s['options']))
                ok = o == 'ok' and isinstance(w, tuple) and len(w) == 2
                same('the-function-fits-other-labels', m.labels_, w[0].labels_ if ok else None)
                same('the-function-fits-another-matrix', m.transition_matrix_, w[1] if ok else None)
        if self.kind == 'pw' and op == 'fit_transform':
            o, w, _ = call(m.transform, X, **kw)
            same('labels-of-the-fit-are-not-those-of-a-transform', v, w)
        if op == 'inverse_transform' and is_real(getattr(m, 'dictionary_', None), 2):
            e['product'] = [enc(X), enc(m.dictionary_), enc(v) if is_real(v, 2) else []]
        return r


def session(s):
    t = {'q': s['q'], 'limit': s['limit'], 'checks': s['checks'], 'events': []}
    twin = 'entry' in s['checks']
    a, b = Session(s), Session(s)
    for i, c in enumerate(s['calls']):
        op = c['op']
        e, X, kw, v = a.perform(i, c, op)
        if twin:
            e['same'] = a.compared(e, op, X, kw, v)
            o = s['others'][i]
            f = b.perform(i, c, o)[0]
            if op in FITS:
                e['others'].append({k: f[k] for k in ('op', 'outcome', 'attributes')})
        for x in e['attributes']:
            if not twin:
                x['flat'] = []
        if not twin:
            e['result']['flat'] = []
        t['events'].append(e)
        if e['outcome'] != 'ok':
            break
    return t
