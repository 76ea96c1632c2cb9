"""Driver of the histories of calls (C09-C12)."""

import copy

import numpy as np

from drivers import (call, digest, enc, matrix, vector, num, res, is_real, make_model, fembv_model,
                     multipliers, _distances)

FACTORS = {'gpnh': ['D', 'G'], 'kernel_aa': ['D', 'G'], 'aa': ['D', 'G'], 'crom': ['D', 'G'],
           'mtd': ['D', 'G', 'P'], 'kmeans': ['G', 'T'], 'varx': ['G', 'T'], 'km': ['G'], 'pw': ['G']}
ATTRIBUTES = {
    'gpnh': ['dictionary_', 'cost_', 'n_iter_', 'n_components_'],
    'kernel_aa': ['dictionary_', 'cost_', 'n_iter_', 'n_components_'],
    'aa': ['dictionary_', 'cost_', 'n_iter_', 'n_components_'],
    'mtd': ['dictionary_', 'order_weights', 'transition_matrices', 'cost_', 'n_iter_', 'n_components_'],
    'crom': ['dictionary_', 'order_weights', 'transition_matrices', 'cost_', 'n_iter_', 'n_components_'],
    'kmeans': ['Theta', 'cost_', 'n_iter_', 'n_components_'],
    'varx': ['mu', 'A', 'B0', 'cost_', 'n_iter_', 'n_components_'],
    'km': ['cluster_centers_', 'labels_', 'inertia_', 'n_iter_', 'transition_matrix_'],
    'pw': ['mu', 'A', 'B', 'Sigma_u', 'residuals', 'cluster_labels_']}
FACTOR_KINDS = ('gpnh', 'kernel_aa', 'aa', 'crom', 'mtd')


def _digest(v):
    if v is None:
        return 'none'
    try:
        a = np.asarray(v)
        return digest(a) if a.dtype.kind in 'fiub' else 'other'
    except Exception:
        return 'other'


def _numbers(name, v):
    d = {'name': name, 'digest': _digest(v), 'shape': [], 'flat': []}
    if v is not None and is_real(v):
        a = np.asarray(v, dtype='f8')
        d.update(shape=list(a.shape), flat=enc(a.ravel()))
    return d


def _rng():
    st = np.random.get_state()
    return digest(st[1]) + ':%d:%d' % (st[2], st[3])


def _array(v):
    """nested lists of hex strings -> array"""
    a = np.array([[x for x in np.ravel(np.array(v, dtype=object))]], dtype=object)
    flat = np.array([float.fromhex(x) for x in a.ravel()])
    return flat.reshape(np.shape(np.array(v, dtype=object)))


class Instance:
    """One estimator with everything passed to and obtained from it."""

    def __init__(self, s, verbose=0):
        self.s, self.kind = s, s['model']
        o = dict(s['options'])
        if verbose:
            o['verbose'] = verbose
        if self.kind in FACTOR_KINDS:
            self.model, _ = make_model(self.kind, np.zeros((1, 1)), dict(
                o, n_components=s['k'], init=s['init'], random_state=s['seed']))
        elif self.kind in ('kmeans', 'varx'):
            self.model = fembv_model(dict(s, options=o))
        elif self.kind == 'km':
            from reor.crom import KMeansMarkovCROM
            self.model = KMeansMarkovCROM(n_clusters=s['k'], random_state=s['seed'], **o)
        else:
            from reor.pwvarx import ClusterPWVARX
            self.model = ClusterPWVARX(n_components=s['k'], random_state=s['seed'], **o)
        self.passed = []      # the caller's arrays
        self.held = []        # [object, digest when obtained]
        self.last = None      # weights of the last fit or transform
        self.fitted = 0

    # -- the state

    def attributes(self):
        return [(a, getattr(self.model, a, None)) for a in ATTRIBUTES[self.kind]]

    def par(self):
        return [[a, _digest(v)] for a, v in self.attributes()]

    def obtain(self, v):
        if isinstance(v, np.ndarray):
            self.held.append([v, _digest(v)])

    # -- arguments

    def data(self, which):
        """which: a data set for fitting, or [data set, series to transform]"""
        s = self.s['sets'][which - 1 if isinstance(which, int) else which[0] - 1]
        s = s if isinstance(which, int) else s['series'][which[1] - 1]
        X = matrix(s['X'])
        if self.kind == 'kernel_aa':
            X = X.dot(X.T)
        kw = {}
        if s.get('U') is not None:
            kw['exog' if self.kind == 'pw' else 'external_factors'] = matrix(s['U'])
        return X, kw

    def guess(self, which):
        s = self.s['sets'][which - 1]
        g = {}
        if self.kind in FACTOR_KINDS:
            g['dictionary'], g['weights'] = matrix(s['D']), matrix(s['G'])
            if self.kind == 'mtd':
                g['order_weights'] = vector(s['L'])
                g['transition_matrices'] = np.array([matrix(p) for p in s['P']])
        elif self.kind == 'kmeans':
            g['weights'], g['parameters'] = matrix(s['G']), matrix(s['mu'])
        elif self.kind == 'varx':
            g['weights'], g['parameters'] = matrix(s['G']), {'mu': matrix(s['mu'])}
            if s.get('A') is not None:
                g['parameters']['A'] = np.array([[matrix(b) for b in a] for a in s['A']])
            if s.get('B') is not None:
                g['parameters']['B0'] = np.array([matrix(b) for b in s['B']])
        return g

    def flags(self, frozen):
        if self.kind in FACTOR_KINDS:
            f = {'update_dictionary': 'D' not in frozen, 'update_weights': 'G' not in frozen}
            if self.kind == 'mtd':
                f['update_parameters'] = 'P' not in frozen
            return {k: v for k, v in f.items() if not v}
        if self.kind in ('kmeans', 'varx'):
            f = {'update_parameters': 'T' not in frozen, 'update_weights': 'G' not in frozen}
            return {k: v for k, v in f.items() if not v}
        return {}

    def chosen(self, which, frozen):
        """The part of the guess that a fit is given."""
        g = self.guess(which)
        if self.s['init'] == 'custom':
            return g
        names = {'D': ['dictionary'], 'G': ['weights'], 'P': ['order_weights', 'transition_matrices'], 'T': []}
        if self.kind in ('kmeans', 'varx'):
            return {}
        return {n: g[n] for f in frozen for n in names[f] if n in g}

    # -- calls

    def perform(self, i, c, event=True):
        why = self.s['whys'][i]
        e = {'outcome': '', 'why': why, 'args': [], 'held': [], 'scribble': ['', ''], 'par': [], 'vals': [],
             'result': _numbers('result', None), 'frozen': [], 'rng': ['', ''], 'judged': False,
             'fembv': self.kind in ('kmeans', 'varx'), 'problem': [], 'state': [], 'dual': [], 'product': []}
        args, kw, fn, undo, frozen = (), {}, None, {}, {}
        op = c['op']
        v = None
        if op == 'scribble':
            before = self.par()
            for a in self.passed:
                a[...] = -3 if a.dtype.kind in 'iu' else -3.5
            self.passed = []
            out = 'ok'
            e['scribble'] = [str(before), str(self.par())]
        else:
            if op == 'fit' or op == 'refuse' and not why.startswith('transform'):
                X, ex = self.data(c['data'])
                fro = c['frozen'] if op == 'fit' else self.s['frozenby'].get(why.split(':')[0], [])
                if op == 'refuse' and self.s['init'] == 'custom':
                    fro = []
                if op == 'refuse' and why.startswith('attr'):
                    fro = self.s['frozenby'][why.split(':')[1]]
                kw = dict(self.chosen(c['data'], fro), **ex)
                flags = self.flags(fro)
                if op == 'fit':
                    frozen = {f: kw for f in fro}
                if self.s.get('w') and self.kind == 'km':
                    kw['sample_weight'] = vector(self.s['sets'][c['data'] - 1]['w'])
                args = (X,)
                if op == 'refuse':
                    args, kw, undo = self.spoil(why, args, kw)
                fn = getattr(self.model, self.s['via'])
            else:
                flags = {}
                X, ex = self.data([max(self.fitted, 1), c['data']])
                args, kw = (X,), dict(ex)
                if op == 'transform':
                    fn = self.model.transform
                elif op == 'refuse':
                    fn = self.model.transform
                    args, kw, undo = self.spoil(why, args, kw)
                elif op == 'predict':
                    fn = getattr(self.model, 'predict', self.model.transform)
                    if hasattr(self.model, 'predict'):
                        kw['horizon'] = self.s['horizon']
                elif op == 'inverse':
                    W = self.weights(X)
                    args, kw = (W,), {}
                    fn = getattr(self.model, 'inverse_transform', None)
                    if fn is None:
                        args = (X,)
                        kw = ex
                        fn = self.model.transform
            given = []
            for a in list(args) + [x for k in kw for x in (kw[k].values() if isinstance(kw[k], dict) else [kw[k]])]:
                if isinstance(a, np.ndarray):
                    given.append([a, _digest(a)])
            copies = copy.deepcopy(kw)
            for k, x in undo.items():
                undo[k] = getattr(self.model, k)
                setattr(self.model, k, x)
            old = getattr(self.model, 'max_iterations', None)
            if op in ('transform', 'predict') and old is not None:
                self.model.max_iterations = 200
            r0 = _rng()
            out, v, _ = call(fn, *args, limit=60, **kw, **flags)
            e['rng'] = [r0, _rng()]
            if op in ('transform', 'predict') and old is not None:
                self.model.max_iterations = old
            for k, x in undo.items():
                setattr(self.model, k, x)
            e['args'] = [[d, _digest(a)] for a, d in given]
            self.passed += [a for a, _ in given]
        e['outcome'] = out
        e['par'] = self.par()
        e['held'] = [[d, _digest(a)] for a, d in self.held]
        if op == 'fit' and out == 'ok':
            self.fitted = c['data']
        for a, x in self.attributes():
            e['vals'].append(_numbers(a, x))
            if op == 'fit':
                self.obtain(x)
        if out == 'ok' and isinstance(v, np.ndarray):
            e['result'] = _numbers('result', v)
            self.obtain(v)
            if op in ('fit', 'transform') and v.ndim == 2:
                self.last = v
            if frozen:
                e['frozen'] = self.given_back(frozen, copies, v)
            if op == 'transform':
                self.judge(e, args[0], kw, v)
            if op == 'inverse' and hasattr(self.model, 'inverse_transform'):
                D = getattr(self.model, 'dictionary_', None)
                if is_real(D, 2) and is_real(v, 2):
                    e['product'] = [enc(args[0]), enc(D), enc(v)]
        elif out == 'ok' and frozen:
            e['frozen'] = self.given_back(frozen, copies, None)
        return e

    def weights(self, X):
        n = len(X)
        r = np.random.RandomState(self.s['seed'] + n)
        W = r.rand(n, self.s['k'])
        return W / W.sum(1, keepdims=True)

    def given_back(self, frozen, kw, W):
        m, f = self.model, []

        def put(name, given, got):
            given, got = np.array(given, dtype='f8'), np.array(got, dtype='f8') if is_real(got) else got
            f.append([name, _digest(given), _digest(got)])
        for b in frozen:
            if b == 'D':
                put('dictionary', kw['dictionary'], m.dictionary_)
            elif b == 'G' and W is not None and 'weights' in kw:
                put('weights', kw['weights'], W)
            elif b == 'P':
                put('order_weights', kw['order_weights'], m.order_weights)
                put('transition_matrices', kw['transition_matrices'], m.transition_matrices)
            elif b == 'T' and 'parameters' in kw:
                p = kw['parameters']
                if self.kind == 'kmeans':
                    put('Theta', p, m.Theta)
                else:
                    put('mu', p['mu'], m.mu)
                    if 'B0' in p:
                        put('B0', p['B0'], m.B0)
                    if 'A' in p:
                        a, b2 = np.array(p['A']), np.array(m.A)
                        for j, l in enumerate(self.s['mem']):
                            a[j, l:] = 0
                            if b2.shape == a.shape:
                                b2[j, l:] = 0
                        put('A', a, b2)
        return f

    def judge(self, e, X, kw, W):
        """What the specification needs to judge the weights of a transform."""
        s, m = self.s, self.model
        if self.kind in FACTOR_KINDS:
            kind = 'aa' if self.kind in ('aa', 'kernel_aa') else 'mtd' if self.kind == 'mtd' else 'gpnh'
            K = X.dot(X.T) if self.kind == 'aa' else X
            o = s['options']
            e['problem'] = {'kind': kind, 'X': enc(K), 'es': num(o.get('epsilon_states', 0)),
                            'ew': num(o.get('epsilon_weights', 0)), 'lags': o.get('lags', [])}
            st = {'D': res(m.dictionary_, 2), 'G': res(W, 2), 'L': [], 'P': []}
            if kind == 'mtd':
                st.update(L=res(m.order_weights, 1), P=res(m.transition_matrices, 3))
            e['judged'] = W.shape == (len(X), s['k'])
        elif self.kind in ('kmeans', 'varx'):
            U = kw.get('external_factors')
            tv = s['tv']
            free = tv is None or tv < 0
            e['problem'] = {'X': enc(X), 'U': [] if U is None else enc(U), 'mem': s['mem'],
                            'tv': 'none' if free else num(tv)}
            if self.kind == 'kmeans':
                st = {'mu': res(m.Theta, 2), 'A': [], 'B': [], 'G': res(W, 2)}
            else:
                st = {'mu': res(m.mu, 2), 'A': res(m.A, 4) if max(s['mem']) > 0 else [],
                      'B': res(m.B0, 3) if U is not None else [], 'G': res(W, 2)}
            if 'other' in st.values():
                e['outcome'] = 'not an array of real numbers'
                return
            if not free and s['k'] > 1:
                D = _distances(s, X, U, st)
                e['dual'] = multipliers(D, tv) if np.isfinite(D).all() else []
            e['judged'] = s['k'] > 1 and W.shape == (len(X) - max(s['mem']), s['k'])
        else:
            return
        if 'other' in st.values():
            e['outcome'] = 'not an array of real numbers'
            e['judged'] = False
            return
        e['state'] = st

    def spoil(self, why, args, kw):
        """The arguments made invalid as "what:how" says."""
        what, how = why.split(':')[:2]
        kw = dict(kw)
        X = args[0]
        undo = {}
        if what == 'attr':
            undo[how] = self.s['spoiled'][why]
        elif what == 'kernel':
            args = (X[:, :-1] if how == 'columns' else X[:-1],)
        elif what == 'transform':
            if how == 'features':
                args = (X[:-1, :-1].copy() if self.kind == 'kernel_aa' else X[:-1] if self.kind == 'aa'
                        else np.hstack([X, X[:, :1]]),)
                if self.kind in ('kernel_aa', 'aa'):
                    pass
            elif how == 'short':
                args = (X[:max(self.s['mem'])],)
                kw = {k: v[:max(self.s['mem'])] for k, v in kw.items()}
        elif what == 'external_factors':
            kw['external_factors'] = kw['external_factors'][:-1]
        elif what == 'parameters':
            p = kw['parameters']
            if self.kind == 'kmeans':
                kw['parameters'] = {'rows': p[:-1], 'columns': np.hstack([p, p[:, :1]])}[how]
            elif how == 'mu':
                kw['parameters'] = dict(p, mu=p['mu'][:, :-1])
            elif how == 'A':
                kw['parameters'] = dict(p, A=p['A'][:, :, :-1])
            elif how == 'absent':
                kw['parameters'] = {k: v for k, v in p.items() if k != 'mu'}
        else:
            a = np.array(kw.pop(what))
            if how == 'rows':
                a = a[:-1]
            elif how == 'columns':
                a = np.concatenate([a, a[..., :1]], axis=-1)
            elif how == 'flat':
                a = a.ravel()
            elif how == 'sum':       # one row (column for transition matrices) off
                j = self.s['seed'] % a.shape[0]
                if what == 'transition_matrices':
                    a[j, 0, self.s['seed'] % a.shape[2]] += 0.25
                elif what == 'order_weights':
                    a[0] += 0.25
                else:
                    a[j, 0] += 0.25
            elif how == 'slightly':  # the last row off by little
                if what == 'order_weights':
                    a[-1] += 0.01
                else:
                    a[(-1,) * a.ndim] += 0.01
            elif how == 'compensated':   # two sums off, right on average
                if what == 'transition_matrices':
                    a[0, 0, 0] += 0.25
                    a[-1, 0, -1] -= 0.25
                else:
                    a[0, 0] += 0.25
                    a[-1, -1] -= 0.25
            elif how == 'lagwise':       # the same column off for two lags, right on average
                a[0, 0, 0] += 0.25
                a[-1, 0, 0] -= 0.25
            elif how == 'columnwise':
                a = (a + 0.01) / (a + 0.01).sum(axis=0)
            elif how == 'half':
                a = a / 2
            elif how == 'double':
                a = 2 * a
            elif how == 'transposed':
                a = np.array([p.T for p in a]) if what == 'transition_matrices' else a.T
            if how != 'missing':
                kw[what] = a
            elif self.s['seed'] % 2:
                kw[what] = None
        return args, kw, undo


def lifecycle(s):
    t = {'error': '', 'checks': s['checks'], 'calls': s['calls'], 'factors': FACTORS[s['model']],
         'blank': [], 'runs': [], 'fresh': []}
    for k in range(2):
        np.random.seed(s['seed'] + 7919 * k)
        np.random.rand(3 + k)
        try:
            inst = Instance(s, verbose=k * s.get('verbose', 1))
        except Exception as e:
            t['error'] = 'construction raised ' + type(e).__name__
            t['calls'] = []
            return t
        if k == 0:
            t['blank'] = inst.par()
        ev = []
        for i, c in enumerate(s['calls']):
            ev.append(inst.perform(i, c))
        t['runs'].append(ev)
    for i, c in enumerate(s['calls']):
        f = []
        if c['op'] == 'fit' and s['complete'] and 'repeat' in s['checks']:
            e = Instance(s).perform(i, c)
            f = [{k: e[k] for k in ('outcome', 'vals', 'result')}]
        t['fresh'].append(f)
    return t


# -- refusals by constructors -------------------------------------------------------------

def constructions(s):
    """Constructors given an invalid argument, or fits of models so built."""
    from reor.mtd_convex_coding import MTDConvexCoding
    from reor.gpnh_convex_coding_crom import GPNHConvexCodingCROM
    from reor.fembv_varx import FEMBVVARX, FEMBVVARXLocalLinearModel
    kind, arg = s['model'], s['arg']
    X = matrix(s['X'])

    def make():
        if kind in ('mtd', 'crom'):
            cls = MTDConvexCoding if kind == 'mtd' else GPNHConvexCodingCROM
            lags = {'list': list, 'tuple': tuple, 'array': lambda v: np.array(v, dtype='i8'),
                    'scalar': lambda v: v[0]}[s['as']](arg)
            return cls(n_components=2, lags=lags, random_state=0, max_iterations=2, tolerance=0).fit(X)
        if kind == 'varx':
            m = FEMBVVARX(n_components=s['k'], max_tv_norm=None, random_state=0, max_iterations=2, tolerance=0,
                          memory={'list': list, 'tuple': tuple, 'scalar': lambda v: v[0]}[s['as']](arg))
            return m.fit(X)
        return FEMBVVARXLocalLinearModel(X, **{s['as']: arg[0]}, **({'u': X} if s['as'] == 's' else {}))
    out, _, _ = call(make)
    return {'outcome': out, 'valid': s['valid'], 'what': '%s %s=%s' % (kind, s['as'], arg)}
