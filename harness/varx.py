"""Drivers and scenarios of the VARX checks (C18, C19)."""

import copy
import json

import numpy as np

from drivers import call, digest, enc, is_real, layout, res


def unhex(m):
    if isinstance(m, str):
        return float.fromhex(m)
    return np.array([unhex(v) for v in m], dtype='f8')


def arr(rec, lay='C'):
    return None if rec is None else layout(unhex(rec), lay)


def lagged(a, d, e, n):
    """Lag matrices [lag] (d x e) of a model, [] for none."""
    if a is None:
        return []
    if not is_real(a, 3):
        return 'other'
    return enc(a)


def matrix_or_none(a):
    if a is None:
        return []
    return res(a, 2)


# -- C18 ------------------------------------------------------------------------

def local(s):
    from reor.fembv_varx import FEMBVVARXLocalLinearModel as M
    Y, U = arr(s['y'], s.get('layout', 'C')), arr(s.get('u'), s.get('ulayout', 'C'))
    if s.get('as') == 'list':
        Y, U = Y.tolist(), None if U is None else U.tolist()
    elif s.get('as') == 'int':
        Y = np.array(Y, dtype='i8')
    kw = {'p': s['p']}
    if U is not None:
        kw.update(u=U, s=s['s'])
    held = [digest(np.asarray(a)) for a in (Y, U) if a is not None]

    def unchanged():
        return [digest(np.asarray(a)) for a in (Y, U) if a is not None] == held

    t = {'series': {'y': enc(np.asarray(Y, dtype='f8')), 'u': [] if U is None else enc(U), 'p': s['p'],
                    's': s['s'] if U is not None else 0, 'trend': True, 'now': True}, 'events': []}
    ev = t['events']
    for bad in s.get('refuse', []):
        a = dict(kw)
        y = Y
        if bad == 'u-length':
            a.update(u=np.ones((len(Y) + 1, 1)), s=0)
        elif bad == 'y-1d':
            y = np.asarray(Y)[:, 0]
        else:
            a.update(bad)
        o, _, _ = call(M, y, **a)
        ev.append({'op': 'refuse', 'outcome': o, 'kept': True})
    o, m, _ = call(M, Y, **kw)
    if o != 'ok':
        ev.append({'op': 'construct', 'outcome': o})
        return t

    def state():
        return {'model': {'mu': res(m.mu, 1), 'A': lagged(m.A, 0, 0, 0), 'B': lagged(m.B, 0, 0, 0),
                          'B0': matrix_or_none(m.B0)},
                'residuals': res(m.residuals, 2), 'sigma': res(m.Sigma_u, 2)}

    for op in s['ops']:
        e = {'op': op['op']}
        if op['op'] == 'fit':
            o, _, _ = call(m.fit)
        elif op['op'] == 'weighted':
            w = layout(unhex(op['w']), op.get('layout', 'C'))
            h = digest(w)
            o, _, _ = call(m.fit, weights=w)
            e['w'] = enc(w)
            if digest(w) != h:
                o = 'changed its weights'
        elif op['op'] == 'set':
            g = {k: unhex(v) for k, v in op['given'].items()}
            o, _, _ = call(m.set_parameters, **g)
            e['given'] = {'mu': op['given']['mu'], 'A': op['given'].get('A', []), 'B': [],
                          'B0': op['given'].get('B0', [])}
            for a in g.values():          # the caller's arrays are the caller's
                a[...] = 77.0
        elif op['op'] == 'refuse':
            before = state()
            o, _, _ = call(m.fit, weights=np.ones(len(Y) + op['off']))
            e['kept'] = state() == before
        e.update(outcome=o, unchanged=unchanged())
        if o == 'ok':
            e.update(state())
            if malformed(e):
                e = {'op': op['op'], 'outcome': 'malformed', 'unchanged': True}
        ev.append(e)
    return t


def malformed(e):
    return '"other"' in json.dumps(e)


# -- C19 ------------------------------------------------------------------------

class Clusterer:
    """Stands in for a clustering: gives the labels it was made with."""

    def __init__(self, labels):
        self.labels, self.seen = labels, None

    def fit_predict(self, z, *a, **k):
        self.seen = np.array(z, dtype='f8')
        self.labels_ = np.array(self.labels[:len(self.seen)])
        return self.labels_.copy()

    def fit(self, z, *a, **k):
        self.fit_predict(z)
        return self

    def predict(self, z):
        raise AssertionError('labels of a clustering asked for twice')


class Classifier:
    """Stands in for a classifier: a fixed function of the predictors."""

    def __init__(self, n, rule, table):
        self.n, self.rule, self.table = n, rule, table
        self.learned, self.taught, self.classified, self.classes = None, None, None, None

    def fit(self, x, y, *a, **k):
        self.learned, self.taught = np.array(x, dtype='f8'), [int(v) for v in y]
        return self

    def predict(self, x):
        self.classified = np.array(x, dtype='f8')
        if self.rule == 'table':
            c = [self.table[i % len(self.table)] for i in range(len(self.classified))]
        elif self.rule == 'taught':
            c = (self.taught * (1 + len(self.classified)))[:len(self.classified)]
        else:
            c = [int(np.floor(abs(v).sum() * 7)) % self.n for v in self.classified]
        self.classes = c
        return np.array(c)


class Spied:
    """A real clusterer or classifier with the calls recorded."""

    def __init__(self, inner):
        self.inner = inner
        self.seen = self.learned = self.classified = self.classes = None

    def fit_predict(self, z, *a, **k):
        self.seen = np.array(z, dtype='f8')
        r = self.inner.fit_predict(z, *a, **k)
        self.labels_ = np.array(r)
        return r

    def fit(self, x, y=None, *a, **k):
        if y is None:
            self.seen = np.array(x, dtype='f8')
            self.inner.fit(x)
            self.labels_ = np.array(self.inner.labels_)
            return self
        self.learned, self.taught = np.array(x, dtype='f8'), [int(v) for v in y]
        self.inner.fit(x, y, *a, **k)
        return self

    def predict(self, x):
        self.classified = np.array(x, dtype='f8')
        r = self.inner.predict(x)
        self.classes = [int(v) for v in r]
        return r


class Default:
    """The parts a model makes itself, asked again afterwards."""

    def __init__(self, m, p, s):
        self.m, self.p, self.s = m, p, s

    def ask(self, Y, U, fitting):
        Y = Y if Y.ndim == 2 else Y[:, None]
        first = max(self.p, self.s)
        cols = [Y[first - l:len(Y) - l] for l in range(1, self.p + 1)]
        if U is not None:
            U = U if U.ndim == 2 else U[:, None]
            cols += [U[first - l:len(Y) - l] for l in range(1, self.s + 1)]
        self.classified = np.hstack(cols).astype('f8')
        o, c, _ = call(self.m.classifier.predict, self.classified)
        self.classes = [int(v) for v in c] if o == 'ok' else None
        if fitting:
            self.seen = np.hstack([self.classified, Y[first:]])
            self.learned = self.classified
            self.labels_ = self.m.cluster_labels_
            self.taught = [int(v) for v in self.labels_]


def piecewise(s):
    from reor.pwvarx import ClusterPWVARX
    n = s['n']
    kw = {'p': s['p'], 's': s['s']}
    if 'trend' in s:
        kw['include_trend'] = s['trend']
    if s['parts'] == 'default':
        clu = cla = None
    elif s['parts'] == 'stub':
        clu, cla = Clusterer(s['clusters']), Classifier(n, s['rule'], s.get('table'))
    else:
        from sklearn.cluster import KMeans
        from sklearn.svm import SVC
        from sklearn.neighbors import KNeighborsClassifier
        clu = Spied(KMeans(n_clusters=n, random_state=s['seed'], n_init=3))
        cla = Spied(SVC(random_state=s['seed']) if s['parts'] == 'svc' else KNeighborsClassifier(1))
    if clu is not None:
        kw.update(clusterer=clu, classifier=cla)
    else:
        kw.update(random_state=s['seed'])
    o, m, _ = call(ClusterPWVARX, n, **kw)
    if clu is None:
        clu = cla = Default(m, s['p'], s['s'])
    t = {'n': n, 'events': []}
    if o != 'ok':
        t['events'].append({'op': 'construct', 'outcome': o, 'unchanged': True})
        return t

    def regimes(now):
        def part(a, k):
            return [] if a is None else (enc(np.asarray(a)[k]) if is_real(a) and len(a) == n else 'other')
        return [{'mu': part(m.mu, k), 'A': part(m.A, k), 'B': part(m.B, k), 'B0': []} for k in range(n)]

    for op in s['ops']:
        Y, U = arr(op['y'], op.get('layout', 'C')), arr(op.get('u'), op.get('ulayout', 'C'))
        if op.get('int'):
            Y = Y.astype('i8')
        g = {'y': enc(Y if Y.ndim == 2 else Y[:, None]),
             'u': [] if U is None or s['s'] == 0 else enc(U if U.ndim == 2 else U[:, None]),
             'p': s['p'], 's': s['s'], 'trend': s.get('trend', True), 'now': False}
        e = {'op': op['op'], 'series': g}
        held = [digest(a) for a in (Y, U) if a is not None]
        a = () if U is None else (U,)
        clu.seen = cla.learned = cla.classified = cla.classes = None
        if op['op'] == 'fit':
            if op.get('how') == 'fit':
                o, v, _ = call(m.fit, Y, *a)
                v = np.array(cla.classes if cla.classes is not None else []) if o == 'ok' else None
            else:
                o, v, _ = call(m.fit_transform, Y, *a)
        else:
            before = copy.deepcopy([m.mu, m.A, m.B, m.Sigma_u, m.residuals])
            o, v, _ = call(m.transform, Y, *a)
            e['kept'] = all(np.array_equal(np.asarray(x, dtype=object), np.asarray(y, dtype=object))
                            if x is None or y is None else np.array_equal(x, y, equal_nan=True)
                            for x, y in zip(before, [m.mu, m.A, m.B, m.Sigma_u, m.residuals]))
        e['outcome'] = o
        e['unchanged'] = [digest(b) for b in (Y, U) if b is not None] == held
        if o == 'ok' and s['parts'] == 'default':
            cla.ask(Y, U, op['op'] == 'fit')
            if op.get('how') == 'fit':
                v = np.array(cla.classes)
        asked = [cla.classified] + ([clu.seen, cla.learned] if op['op'] == 'fit' else [])
        if o == 'ok' and any(v is None for v in asked):
            e['outcome'] = o = 'clusterer-or-classifier-not-asked'
        if o == 'ok':
            e.update(labels=[int(x) for x in v] if np.ndim(v) == 1 else 'other',
                     classified=enc(cla.classified), classes=list(cla.classes))
            if op['op'] == 'fit':
                e.update(clustered=enc(clu.seen), clusters=[int(x) for x in clu.labels_],
                         learned=enc(cla.learned), taught=cla.taught, models=regimes(n),
                         residuals=res(m.residuals, 2),
                         sigma=[enc(c) for c in m.Sigma_u] if is_real(m.Sigma_u, 3) else 'other')
        if malformed(e):
            e['outcome'] = 'malformed'
        t['events'].append(e)
        if e['outcome'] != 'ok':
            break
    return t


def hexa(a):
    a = np.asarray(a)
    return float(a).hex() if a.ndim == 0 else [hexa(b) for b in a]


# -- scenarios ------------------------------------------------------------------

def process(r, n, d, e, p, s, regimes=1):
    """A series of a random piecewise process."""
    y = r.standard_normal((n, d))
    u = r.standard_normal((n, e)) if e else None
    if e and r.rand() < .3:
        u = np.round(u)
    prm = [[r.standard_normal(d)] + [.5 * r.standard_normal((d, d)) / max(p, 1) for _ in range(p)] for _ in range(regimes)]
    for t in range(p, n):
        q = prm[int(abs(y[t - 1, 0]) * 3) % regimes]
        y[t] = q[0] + sum((q[1 + l].dot(y[t - 1 - l]) for l in range(p)), np.zeros(d)) + .3 * y[t]
        if e:
            y[t] += u[max(t - s, 0)].sum()
    k = r.rand()
    if k < .1:
        y = np.round(y)
    elif k < .2:
        y = y * 10.0 ** r.randint(-3, 5)
    elif k < .3:
        y = y + 100 * r.standard_normal(d)
    elif k < .45:       # variables of very different sizes
        y = y * 10.0 ** r.randint(-4, 5, d)
        if e:
            u = u * 10.0 ** r.randint(-4, 5, e)
    return y, u


def weights(r, n):
    k = r.randint(5)
    if k == 0:
        w = (r.rand(n) < .6).astype(float)
    elif k == 1:
        w = r.rand(n) ** 4
    elif k == 2:
        w = r.integers(0, 4, n).astype(float) if hasattr(r, 'integers') else r.randint(0, 4, n).astype(float)
    elif k == 3:
        w = np.full(n, 1.0)
    else:
        w = r.rand(n)
        w[:n // 2] = 0
    return w
