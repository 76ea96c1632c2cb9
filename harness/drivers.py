"""Drivers: each runs one scenario against the code under test and returns
the recorded trace (JSON).  Numbers are recorded exactly (float.hex)."""

import copy
import hashlib
import signal
import time
import warnings

import numpy as np


# -- recording ----------------------------------------------------------------

class Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


def num(x):
    x = float(x)
    if x != x:
        return 'nan'
    if x in (float('inf'), float('-inf')):
        return 'inf' if x > 0 else '-inf'
    return x.hex()


def enc(a):
    """Exact encoding of a scalar, vector, matrix, ... of real numbers."""
    a = np.asarray(a)
    if a.ndim == 0:
        return num(a)
    return [enc(b) for b in a]


def is_real(a, ndim=None):
    """Is this an array (or scalar) of real numbers?"""
    try:
        a = np.asarray(a)
    except Exception:
        return False
    return a.dtype.kind in 'fiub' and (ndim is None or a.ndim == ndim)


def res(a, ndim):
    """Encode a result that should be an ndim-dimensional real array.

    Anything else is encoded as "other", which no specification accepts."""
    if not is_real(a, ndim):
        return 'other'
    return enc(a)


def digest(a):
    a = np.ascontiguousarray(a)
    return hashlib.sha1(repr((a.shape, a.dtype.str)).encode() + a.tobytes()).hexdigest()[:16]


HUNG = [0]    # calls of this process that did not return in time


def call(fn, *args, limit=30, **kwargs):
    """Call into the code under test: (outcome, value, warnings).

    outcome: "ok", the name of the exception raised, or "timeout".  Once calls
    have run out of time (a violation), later ones get less."""
    limit = limit if HUNG[0] == 0 else min(limit, 10 if HUNG[0] < 3 else 3)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            with np.errstate(all='ignore'):
                v = fn(*args, **kwargs)
        signal.setitimer(signal.ITIMER_REAL, 0)
        return 'ok', v, [(w.category.__name__, str(w.message)) for w in ws]
    except Timeout:
        HUNG[0] += 1
        return 'timeout', None, []
    except MemoryError:
        return 'MemoryError', None, []
    except (KeyboardInterrupt, SystemExit):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return 'exit', None, []
    except Exception as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return type(e).__name__, str(e)[:300], []
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def layout(a, kind):
    """The same numbers in another storage layout."""
    a = np.asarray(a)
    if kind == 'C':
        return np.ascontiguousarray(a).copy()
    if kind == 'F':
        return np.array(a, order='F')
    if kind == 'T':   # transposed view of a C-ordered array
        return np.ascontiguousarray(a.T).copy().T
    if kind == 'S':   # strided view
        big = np.full(tuple(2 * n + 1 for n in a.shape), 7.25, dtype=a.dtype)
        v = big[tuple(slice(1, 2 * n + 1, 2) for n in a.shape)]
        v[...] = a
        return v
    if kind == 'N':   # negative strides
        v = np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)]).copy()
        return v[tuple(slice(None, None, -1) for _ in a.shape)]
    if kind == 'R':   # read-only
        b = np.ascontiguousarray(a).copy()
        b.flags.writeable = False
        return b
    if kind == 'I':   # integers, when the values are integral
        return np.asarray(a).astype('i8')
    raise AssertionError(kind)


def vector(spec):
    return np.array([float.fromhex(v) if isinstance(v, str) else float(v) for v in spec])


# -- C01: simplex projection ------------------------------------------------------

def simplex(s):
    """x (rows): every row projected as vector, rows and columns variants."""
    from reor.simplex_projection import (simplex_project_vector,
                                         simplex_project_rows,
                                         simplex_project_columns)
    X = np.array([vector(r) for r in s['x']])
    lay = s.get('layout', 'C')
    mode = s['mode']
    t = {'mode': mode, 'x': enc(X), 'layout': lay}
    if mode == 'vector':
        x = layout(X[0], lay)
        before = X[0].copy()
        o, y, _ = call(simplex_project_vector, x)
        t.update(outcome=o, y=[res(y, 1)] if o == 'ok' else 'none',
                 unchanged=bool(np.array_equal(np.asarray(x), before)),
                 same=True, outside=True)
    elif mode == 'out':
        x = layout(X[0], lay)
        if s.get('alias'):
            o, y, _ = call(simplex_project_vector, x, out=x)
            got, unchanged = x, True
        else:
            buf = layout(np.full(X.shape[1], 5.5), s.get('outlayout', 'C'))
            o, y, _ = call(simplex_project_vector, x, out=buf)
            got, unchanged = buf, bool(np.array_equal(np.asarray(x), X[0]))
        t.update(outcome=o, y=[enc(got)] if o == 'ok' else 'none',
                 unchanged=unchanged,
                 same=bool(o == 'ok' and is_real(y, 1) and np.array_equal(y, got)),
                 outside=True)
    else:
        fn = simplex_project_rows if mode == 'rows' else simplex_project_columns
        A = X if mode == 'rows' else X.T
        if lay == 'S':
            big = np.full(tuple(2 * n + 1 for n in A.shape), 7.25)
            view = big[tuple(slice(1, 2 * n + 1, 2) for n in A.shape)]
            view[...] = A
            o, _, _ = call(fn, view)
            mask = np.ones(big.shape, bool)
            mask[tuple(slice(1, 2 * n + 1, 2) for n in A.shape)] = False
            outside = bool(np.all(big[mask] == 7.25))
        else:
            view = layout(A, lay)
            o, _, _ = call(fn, view)
            outside = True
        got = view if mode == 'rows' else view.T
        t.update(outcome=o, y=enc(got) if o == 'ok' else 'none', unchanged=True,
                 same=True, outside=outside)
    return t


# -- C02: FurthestSum ----------------------------------------------------------------

def furthest(s):
    from reor.furthest_sum import furthest_sum
    D = np.array([vector(r) for r in s['D']]) if s['D'] else np.zeros((0, 0))
    if s.get('int'):
        D = D.astype('i8')
    D = layout(D, s.get('layout', 'C'))
    before = np.array(D)
    if s.get('aslist'):
        D = D.tolist()
    ex = s.get('exclude')
    kind = s.get('extype', 'list')
    if ex is not None:
        ex = {'list': list, 'tuple': tuple,
              'array': lambda v: np.array(v, dtype='i8')}[kind](ex)
    kw = {}
    if s.get('extra') is not None:
        kw['extra_steps'] = s['extra']
    if ex is not None or s.get('passnone'):
        kw['exclude'] = ex
    o, v, _ = call(furthest_sum, D, s['k'], s['start'], **kw)
    sel = []
    if o == 'ok':
        try:
            a = np.asarray(v)
            if a.ndim == 1 and (a.size == 0 or a.dtype.kind in 'iu'):
                sel = [int(i) for i in a]
            else:
                o = 'other'
        except Exception:
            o = 'other'
    return {'D': enc(before) if before.size else [], 'rows': int(before.shape[0]),
            'cols': int(before.shape[1]), 'k': s['k'], 'start': s['start'],
            'exclude': sorted(set(s.get('exclude') or [])),
            'extra': 1 if s.get('extra') is None else s['extra'],
            'outcome': o, 'selected': sel,
            'unchanged': bool(np.array_equal(np.asarray(D), before))}


# -- C03: step rules -------------------------------------------------------------------

def _typed(v, kind):
    v = float.fromhex(v)
    if kind == 'int' and v == int(v):
        return int(v)
    return np.float64(v) if kind == 'np' else v


def steps(s):
    """Single calls of the two rules."""
    from reor.spg import get_next_spg_step_length, get_next_spg_alpha
    h = float.fromhex
    ev = []
    for c in s['calls']:
        kind = c['type']
        k = {a: h(b) for a, b in c['kw'].items()}
        a = [_typed(v, kind) for v in c['args']]
        if c['op'] == 'step':
            o, v, _ = call(get_next_spg_step_length, *a, **k)
            e = {'op': 'step', 'step': num(a[0]), 'delta': num(a[1]), 'fold': num(a[2]),
                 'fnew': num(a[3]), 's1': num(k.get('sigma_one', 0.1)),
                 's2': num(k.get('sigma_two', 0.9)), 'gamma': num(1e-4)}
        else:
            o, v, _ = call(get_next_spg_alpha, *a, **k)
            e = {'op': 'alpha', 'beta': num(a[0]), 'sksk': num(a[1]),
                 'lo': num(k.get('alpha_min', 1e-3)), 'hi': num(k.get('alpha_max', 1e3))}
        good = o == 'ok' and is_real(v, 0)
        e.update(outcome='ok' if good else 'other' if o == 'ok' else o,
                 value=num(v) if good else 'nan')
        ev.append(e)
    return {'events': ev, 'linked': False, 's1': num(0.1), 's2': num(0.9),
            'lo': num(1e-3), 'hi': num(1e3)}


def searches(s):
    """The calls made by the searches of a fit with the given settings."""
    import inspect
    import importlib
    import reor.spg
    mods = [importlib.import_module('reor.' + m) for m in (
        'spg', 'archetypal_analysis', 'gpnh_convex_coding', 'mtd_convex_coding',
        'gpnh_convex_coding_crom')]
    ev = []
    saved = []
    opts = s['options']

    def wrap(name, op):
        orig = getattr(reor.spg, name)
        sig = inspect.signature(orig)

        def rec(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            x = b.arguments
            v = orig(*a, **k)
            good = is_real(v, 0)
            e = {'op': op, 'outcome': 'ok' if good else 'other', 'value': num(v) if good else 'nan'}
            if op == 'step':
                e.update(step=num(x['current_step_length']), delta=num(x['delta']),
                         fold=num(x['f_old']), fnew=num(x['f_new']), s1=num(x['sigma_one']),
                         s2=num(x['sigma_two']), gamma=num(opts.get('gamma', 1e-4)))
            else:
                e.update(beta=num(x['beta']), sksk=num(x['sksk']),
                         lo=num(x['alpha_min']), hi=num(x['alpha_max']))
            if len(ev) < 4000:
                ev.append(e)
            return v
        return orig, rec

    for name, op in (('get_next_spg_step_length', 'step'), ('get_next_spg_alpha', 'alpha')):
        orig, rec = wrap(name, op)
        for m in mods:
            if getattr(m, name, None) is orig:
                saved.append((m, name, orig))
                setattr(m, name, rec)
    try:
        r = np.random.RandomState(s['seed'])
        X = r.standard_normal((s['n'], s['d'])) * s['scale'] + s['offset']
        model, arg = make_model(s['model'], X, dict(opts, n_components=s['k'], random_state=s['seed']))
        o, _, _ = call(model.fit, arg, limit=60)
    finally:
        for m, name, orig in saved:
            setattr(m, name, orig)
    return {'events': ev, 'linked': True, 'fit': o,
            's1': num(opts.get('sigma_one', 0.1)), 's2': num(opts.get('sigma_two', 0.9)),
            'lo': num(opts.get('alpha_min', 1e-3)), 'hi': num(opts.get('alpha_max', 1e3))}


# -- constructing models -----------------------------------------------------------------

def make_model(kind, X, options):
    """(model, what its fit takes for the data X)"""
    from reor.archetypal_analysis import KernelAA, ArchetypalAnalysis
    from reor.gpnh_convex_coding import GPNHConvexCoding
    from reor.gpnh_convex_coding_crom import GPNHConvexCodingCROM
    from reor.mtd_convex_coding import MTDConvexCoding
    cls = {'kernel_aa': KernelAA, 'aa': ArchetypalAnalysis, 'gpnh': GPNHConvexCoding,
           'crom': GPNHConvexCodingCROM, 'mtd': MTDConvexCoding}[kind]
    return cls(**options), (X.dot(X.T) if kind == 'kernel_aa' else X)


# -- C04, C05, C06, C08: fits of the factorisation models ------------------------------------

def matrix(m):
    return np.array([[float.fromhex(v) for v in r] for r in m]).reshape(len(m), -1)


def _hex_options(o):
    """The options a specification needs, with their defaults."""
    return {'gamma': num(o.get('gamma', 1e-4)), 's1': num(o.get('sigma_one', 0.1)),
            's2': num(o.get('sigma_two', 0.9)), 'amin': num(o.get('alpha_min', 1e-3)),
            'amax': num(o.get('alpha_max', 1e3)), 'steptol': num(o.get('step_size_tolerance', 1e-12)),
            'memory': o.get('line_search_memory', 1),
            'guarded': bool(o.get('require_monotonic_cost_decrease', True))}


STILL = dict(max_iterations=1, gamma=1e40, step_size_tolerance=1e-40, tolerance=0,
             require_monotonic_cost_decrease=False)   # a fit that ends at its initial guess


def _state(kind, model, W):
    st = {'D': res(getattr(model, 'dictionary_', None), 2), 'G': res(W, 2), 'L': [], 'P': []}
    if kind in ('mtd', 'crom'):
        st['L'] = res(model.order_weights, 1)
        st['P'] = res(model.transition_matrices, 3)
    return st


def fit_prefixes(s):
    """The factors after 0, 1, ..., m iterations of a fit, from a custom guess
    or one of the estimator's making (s['init']), on a new instance or on one
    that has been used before (s['prior']); or of a transform (s['Y']) by a
    model whose factors are the guess."""
    kind = s['model']
    X = matrix(s['X'])
    opts = dict(s['options'])
    init = s.get('init', 'custom')
    opts.update(n_components=len(s['D']), init=init, tolerance=s.get('tol', 0), random_state=s['seed'])
    spec_kind = 'aa' if kind == 'kernel_aa' else kind
    guess = {'dictionary': matrix(s['D']), 'weights': matrix(s['G'])}
    if kind == 'mtd':
        guess.update(order_weights=vector(s['L']),
                     transition_matrices=np.array([matrix(p) for p in s['P']]))
    if kind in ('mtd', 'crom'):
        opts['lags'] = s['lags']
    active = s['active']
    flags = {'update_dictionary': 'D' in active, 'update_weights': 'G' in active}
    if kind == 'mtd':
        flags['update_parameters'] = 'P' in active
    start = {'D': enc(guess['dictionary']), 'G': enc(guess['weights']),
            'L': enc(guess['order_weights']) if kind == 'mtd' else [],
            'P': enc(guess['transition_matrices']) if kind == 'mtd' else []}

    Y = matrix(s['Y']) if s.get('Y') is not None else None
    Z = X if Y is None else Y
    if init != 'custom':
        blocks = {'dictionary': 'D', 'weights': 'G', 'order_weights': 'P', 'transition_matrices': 'P'}
        guess = {k: v for k, v in guess.items() if blocks[k] not in active}
    if Y is not None:
        active = ['G']
        flags = {k: False for k in flags}

    def run(m, **extra):
        o = dict(opts, max_iterations=m)
        o.update(extra)
        model, arg = make_model(kind, X, o)
        give = lambda: {k: v.copy() for k, v in guess.items()}
        if s.get('prior'):
            turned = arg[::-1, ::-1] if kind == 'kernel_aa' else arg[::-1]
            model.fit_transform(turned, **give(), **flags)
            if s['prior'] == 'transform':
                model.transform(arg)
        out, W, ws = call(model.fit_transform, arg, limit=40, **give(), **flags)
        if Y is not None and out == 'ok':
            out, W, ws = call(model.transform, Y.dot(Y.T) if kind == 'kernel_aa' else Y, limit=40)
        return out, W, model

    t = {'problem': {'kind': spec_kind, 'X': enc(Z.dot(Z.T) if spec_kind == 'aa' else Z),
                     'es': num(opts.get('epsilon_states', 0)),
                     'ew': num(1 if kind == 'crom' else opts.get('epsilon_weights', 0)),
                     'lags': s.get('lags', [])},
         'options': _hex_options(opts), 'checks': s['checks'], 'long': False,
         'active': ['P'] if kind == 'crom' else active,
         'states': [start], 'costs': ['none'], 'error': '', 'raised': []}
    if kind == 'crom' or init != 'custom' or Y is not None:
        out, W, model = run(1, **STILL)
        if out != 'ok':
            t['error'] = 'raised ' + out
            return t
        t['states'] = [_state(kind, model, W)]
    for m in range(1, s['m'] + 1):
        out, W, model = run(m)
        if out == 'RuntimeError' and 'increased' in str(W):
            out2, W2, model2 = run(m, require_monotonic_cost_decrease=False)
            if out2 != 'ok':
                t['error'] = 'raised ' + out2
            else:
                t['raised'] = [_state(kind, model2, W2)]
            break
        if out != 'ok':
            t['error'] = 'raised ' + out
            break
        t['states'].append(_state(kind, model, W))
        t['costs'].append(num(model.cost_) if kind != 'crom' and Y is None and is_real(model.cost_, 0) else 'none')
    if any('other' in (st[k] if isinstance(st[k], str) else '') for st in t['states'] for k in st):
        t['error'] = 'result-is-not-an-array-of-real-numbers'
        t['states'] = t['states'][:1]
        t['costs'] = t['costs'][:1]
    return t


def fit_long(s):
    """A fit of any number of iterations, from any initialisation: the factors
    before and after, the reported cost, and optionally a transform after it.

    The factors before the fit are those of a fit with the same seed whose
    search never accepts a step."""
    kind = s['model']
    X = matrix(s['X'])
    opts = dict(s['options'])
    opts.update(n_components=s['k'], init=s['init'], random_state=s['seed'])
    spec_kind = 'aa' if kind == 'kernel_aa' else kind
    factors = {}
    if s.get('D') is not None:
        factors['dictionary'] = matrix(s['D'])
    if s.get('G') is not None:
        factors['weights'] = matrix(s['G'])
    if s.get('L') is not None:
        factors['order_weights'] = vector(s['L'])
        factors['transition_matrices'] = np.array([matrix(p) for p in s['P']])
    if kind in ('mtd', 'crom'):
        opts['lags'] = s['lags']
    active = s['active']
    flags = {'update_dictionary': 'D' in active, 'update_weights': 'G' in active}
    if kind == 'mtd':
        flags['update_parameters'] = 'P' in active

    def run(**extra):
        o = dict(opts)
        o.update(extra)
        model, arg = make_model(kind, X, o)
        out, W, ws = call(model.fit_transform, arg, limit=60,
                          **{k: v.copy() for k, v in factors.items()}, **flags)
        return out, W, model, arg

    def problem(Y):
        return {'kind': spec_kind, 'X': enc(Y.dot(Y.T) if spec_kind == 'aa' else Y),
                'es': num(opts.get('epsilon_states', 0)),
                'ew': num(1 if kind == 'crom' else opts.get('epsilon_weights', 0)),
                'lags': s.get('lags', [])}

    t = {'problem': problem(X), 'options': _hex_options(opts), 'checks': s['checks'],
         'long': True, 'active': ['P'] if kind == 'crom' else active,
         'states': [], 'costs': ['none'], 'error': '', 'raised': []}
    empty = {'D': [['0']], 'G': [['0']], 'L': [], 'P': []}

    def fail(why):
        t.update(states=[empty], costs=['none'], error=why, checks=[], active=[])
        t['problem']['kind'] = 'gpnh'
        return t

    out, W, model, arg = run(**STILL)
    if out != 'ok':
        return fail('raised ' + out)
    first = _state(kind, model, W)
    out, W, model, arg = run()
    if out == 'RuntimeError' and 'increased' in str(W):
        # the guard may speak up; FitTrace judges that on prefix traces
        t.update(states=[first])
        return t
    if out != 'ok':
        return fail('raised ' + out)
    last = _state(kind, model, W)
    cost = num(model.cost_) if is_real(model.cost_, 0) else 'nan'
    if kind == 'crom' and s.get('as') == 'gpnh':
        t['problem'] = dict(problem(X), kind='gpnh')
        t['active'] = active
    elif kind == 'crom':
        first = last
        cost = 'none'
    t['states'] = [first, last]
    t['costs'].append(cost)
    if s.get('Y') is not None:
        Y = matrix(s['Y'])
        out, V, _ = call(model.transform, Y.dot(Y.T) if kind == 'kernel_aa' else Y, limit=60)
        if out == 'RuntimeError':
            pass
        elif out != 'ok':
            return fail('transform raised ' + out)
        else:
            st = dict(_state(kind, model, V))
            t.update(problem=problem(Y), states=[st, st], costs=['none', 'none'],
                     checks=['stochastic'], active=t['active'] if kind == 'crom' else ['G'])
    if any(isinstance(st[k], str) for st in t['states'] for k in st):
        return fail('result-is-not-an-array-of-real-numbers')
    return t


# -- C05, C06, C15, C16, C17: FEM-BV fits -----------------------------------------------------

def fembv_model(s, **extra):
    from reor.fembv_kmeans import FEMBVKMeans
    from reor.fembv_varx import FEMBVVARX
    o = dict(n_components=s['k'], max_tv_norm=s['tv'], init=s['init'], random_state=s['seed'],
             max_iterations=1, tolerance=0)
    o.update(s.get('options', {}))
    o.update(extra)
    if s['model'] == 'kmeans':
        return FEMBVKMeans(**o)
    return FEMBVVARX(memory=s['memory'], **o)


def fembv_arguments(s):
    """Keyword arguments of fit_transform for the initial guess of a scenario."""
    kw = {}
    if s.get('G') is not None:
        kw['weights'] = matrix(s['G'])
    if s.get('mu') is not None:
        if s['model'] == 'kmeans':
            kw['parameters'] = matrix(s['mu'])
        else:
            kw['parameters'] = {'mu': matrix(s['mu'])}
            if s.get('A') is not None:
                kw['parameters']['A'] = np.array([[matrix(b) for b in a] for a in s['A']])
            if s.get('B') is not None:
                kw['parameters']['B0'] = np.array([matrix(b) for b in s['B']])
    if s.get('U') is not None:
        kw['external_factors'] = matrix(s['U'])
    return kw


def _fembv_state(s, model, G):
    if s['model'] == 'kmeans':
        return {'mu': res(model.Theta, 2), 'A': [], 'B': [], 'G': res(G, 2)}
    return {'mu': res(model.mu, 2), 'G': res(G, 2),
            'A': res(model.A, 4) if max(s['mem']) > 0 else [],
            'B': res(model.B0, 3) if s.get('U') is not None else []}


def _distances(s, X, U, st):
    """Squared residuals (for the multipliers only; the specification has its own)."""
    f = float.fromhex
    mm = max(s['mem'])
    D = np.zeros((len(X) - mm, s['k']))
    for j in range(s['k']):
        for i in range(mm, len(X)):
            e = X[i] - np.array([f(v) for v in st['mu'][j]])
            for l in range(s['mem'][j]):
                e = e - matrix(st['A'][j][l]).dot(X[i - 1 - l])
            if U is not None:
                e = e - matrix(st['B'][j]).dot(U[i])
            D[i - mm, j] = e.dot(e)
    return D


def multipliers(D, tv):
    """Multipliers of the variation constraint (a certificate of optimality,
    judged by the specification)."""
    from scipy.optimize import linprog
    from scipy.sparse import lil_matrix
    n, k = D.shape
    if n < 2:
        return []
    scale = D.max() or 1.0
    N, M = n * k, (n - 1) * k
    A = lil_matrix((2 * M + k, N + M))
    for t in range(n - 1):
        for j in range(k):
            r = t * k + j
            A[r, (t + 1) * k + j], A[r, t * k + j], A[r, N + r] = 1, -1, -1
            A[M + r, (t + 1) * k + j], A[M + r, t * k + j], A[M + r, N + r] = -1, 1, -1
            A[2 * M + j, N + r] = 1
    E = lil_matrix((n, N + M))
    for t in range(n):
        E[t, t * k:(t + 1) * k] = 1
    b = np.r_[np.zeros(2 * M), np.full(k, float(tv))]
    o = linprog(np.r_[D.ravel() / scale, np.zeros(M)], A_ub=A.tocsr(), b_ub=b, A_eq=E.tocsr(),
                b_eq=np.ones(n), bounds=(0, None), method='highs')
    if o.ineqlin is None or o.ineqlin.marginals is None:
        return [[num(0)] * k for _ in range(n - 1)]
    u = -np.asarray(o.ineqlin.marginals)
    return enc(scale * (u[:M] - u[M:2 * M]).reshape(n - 1, k))


def fembv_prefixes(s):
    X = matrix(s['X'])
    U = matrix(s['U']) if s.get('U') is not None else None
    up, uw = s['up'], s['uw']
    tv = s['tv']
    free = tv is None or tv < 0

    def problem(X, U):
        return {'X': enc(X), 'U': [] if U is None else enc(U), 'mem': s['mem'],
                'tv': 'none' if free else num(tv)}

    t = {'problem': problem(X, U), 'checks': s['checks'], 'up': up, 'uw': uw, 'first': True,
         'states': [], 'costs': ['none'], 'duals': [[]], 'error': '',
         'dist': enc(np.array(s['dist'], dtype=float)) if 'dist' in s else [],
         'best': num(s['best']) if 'dist' in s else num(0)}

    def fail(why):
        t['error'] = why
        t['states'] = [{'mu': [], 'A': [], 'B': [], 'G': []}]
        t['costs'], t['duals'] = ['none'], [[]]
        return t

    def dual(st, X, U):
        if free or not uw or s['k'] == 1 or 'optimal' not in s['checks']:
            return []
        D = _distances(s, X, U, st)
        return multipliers(D, tv) if np.isfinite(D).all() else []

    for m in range(s['m'] + 1):
        kw = fembv_arguments(s)
        model = fembv_model(s, max_iterations=max(m, 1))
        out, G, _ = call(model.fit_transform, X.copy(), limit=60,
                         update_parameters=up and m > 0, update_weights=uw and m > 0, **kw)
        if out == 'RuntimeError' and 'increased' in str(G) and (
                s.get('options', {}).get('require_monotonic_cost_decrease')):
            break
        if out != 'ok':
            return fail('raised ' + out)
        st = _fembv_state(s, model, G)
        if any(isinstance(st[a], str) for a in st):
            return fail('result-is-not-an-array-of-real-numbers')
        t['states'].append(st)
        if m:
            t['costs'].append(num(model.cost_) if is_real(model.cost_, 0) else 'nan')
            t['duals'].append(dual(st, X, U))
    if s.get('Y') is not None and len(t['states']) > 1:
        Y = matrix(s['Y'])
        V = matrix(s['V']) if U is not None else None
        out, G, _ = call(model.transform, Y.copy(), limit=60,
                         **({'external_factors': V.copy()} if U is not None else {}))
        if out != 'ok':
            return fail('transform raised ' + out)
        st = dict(t['states'][-1], G=res(G, 2))
        if isinstance(st['G'], str):
            return fail('result-is-not-an-array-of-real-numbers')
        t.update(problem=problem(Y, V), up=False, uw=True, first=False, states=[st, st],
                 costs=['none', 'none'])
        uw = True
        t['duals'] = [[], dual(st, Y, V)]
    return t


# -- C07: outer loops ------------------------------------------------------------------------

def _warned(ws):
    return any('iteration' in msg.lower() and cat not in ('RuntimeWarning', 'DeprecationWarning',
                                                          'FutureWarning') for cat, msg in ws)


def outer(s):
    """One problem: the costs of growing limits without tolerance, then fits
    with tolerances around the observed changes."""
    kind = s['model']
    fem = kind in ('kmeans', 'varx')
    X = matrix(s['X'])
    t = {'error': '', 'costs': [], 'states': [], 'runs': [], 'size': num(0),
         'problem': {'kind': 'gpnh', 'X': [], 'es': '0', 'ew': '0', 'lags': []}}
    if fem:
        kw = fembv_arguments(s)
        t['size'] = num(len(X) * (X ** 2).sum())

        def fit(tol, limit, still=False, **more):
            model = fembv_model(s, tolerance=tol, max_iterations=limit, **more)
            a = {} if not still else {'update_parameters': False, 'update_weights': False}
            o, v, ws = call(model.fit_transform, X.copy(), limit=60, **dict(fembv_arguments(s), **a))
            return model, o, ws, v
    else:
        active = s['active']
        flags = {'update_dictionary': 'D' in active, 'update_weights': 'G' in active}
        if kind == 'mtd':
            flags['update_parameters'] = 'P' in active
        factors = {'dictionary': matrix(s['D']), 'weights': matrix(s['G'])}
        if kind == 'mtd':
            factors.update(order_weights=vector(s['L']),
                           transition_matrices=np.array([matrix(p) for p in s['P']]))
        base = dict(s['options'], n_components=len(s['D']), init='custom', random_state=s['seed'])
        if kind in ('mtd', 'crom'):
            base['lags'] = s['lags']
        t['size'] = num((X ** 2).sum() if kind in ('aa', 'kernel_aa') else
                        (X ** 2).mean() + (factors['dictionary'] ** 2).sum() * base.get('epsilon_states', 0))

        def fit(tol, limit, still=False, **more):
            o = dict(base, tolerance=tol, max_iterations=limit, **more)
            if still:
                o.update(STILL)
            model, arg = make_model(kind, X, o)
            out, v, ws = call(model.fit_transform, arg, limit=60,
                              **{k: a.copy() for k, a in factors.items()}, **flags)
            return model, out, ws, v
    for m in range(s['m'] + 1):
        model, o, ws, v = fit(0, max(m, 1), still=m == 0)
        if o == 'RuntimeError' and 'increased' in str(v):    # the guard: judged by C05
            break
        if o != 'ok':
            t['error'] = 'raised ' + o
            return t
        if _warned(ws):
            t['error'] = 'warned-without-tolerance'
            return t
        if kind == 'crom':
            st = _state(kind, model, v)
            if any(isinstance(st[a], str) for a in st):
                t['error'] = 'result-is-not-an-array-of-real-numbers'
                return t
            t['states'].append(st)
        else:
            t['costs'].append(num(model.cost_) if is_real(model.cost_, 0) else 'nan')
    if kind == 'crom':
        t['problem'] = {'kind': 'crom', 'X': enc(X), 'es': '0', 'ew': num(1), 'lags': s['lags']}
        changes = [0.3, 0.03, 0.003, 3e-4, 1e-5]
    else:
        c = [float.fromhex(v) for v in t['costs']]
        changes = [abs(b - a) for a, b in zip(c, c[1:])]
    r = np.random.RandomState(s['seed'])
    for tol, limit in s['runs']:
        limit = min(limit, len(t['states'] or t['costs']) - 1)
        if limit < 1:
            break
        if isinstance(tol, list):        # a multiple of one observed change
            tol = tol[1] * changes[tol[0] % len(changes)]
        if s.get('report'):
            t['runs'].append(_reported(s, X, fit, tol, limit))
            continue
        model, o, ws, v = fit(tol, limit)
        n = getattr(model, 'n_iter_', None)
        t['runs'].append({'tol': num(tol), 'limit': limit, 'outcome': o, 'warned': _warned(ws),
                          'niter': -1 if kind == 'crom' else int(n) if isinstance(n, (int, np.integer)) else -2,
                          'cost': 'none' if kind == 'crom' or o != 'ok' else num(model.cost_)})
    return t


def _reported(s, X, fit, tol, limit):
    """What a fit, a transform, ... print: nothing, or progress tables."""
    from progress import captured, tables
    kind, level = s['model'], s['report'][limit % len(s['report'])]
    started = time.perf_counter()
    with captured() as f:
        model, o, ws, v = fit(tol, limit, **({} if level is None else {'verbose': level}))
    run = {'tol': num(tol), 'limit': limit, 'outcome': o, 'warned': _warned(ws), 'silent': not level,
           'elapsed': num(time.perf_counter() - started), 'text': len(f.getvalue()),
           'tables': tables(f.getvalue(), num), 'calls': []}
    if o != 'ok':
        return run
    calls = {}
    more = {k: a for k, a in (fembv_arguments(s) if kind in ('kmeans', 'varx') else {}).items()
            if k == 'external_factors'}
    calls['transform'] = lambda: model.transform(X.dot(X.T) if kind == 'kernel_aa' else X, **more)
    if kind in ('mtd', 'crom'):
        calls['predict'] = lambda: model.predict(X, horizon=2)
    if hasattr(model, 'inverse_transform'):
        calls['inverse_transform'] = lambda: model.inverse_transform(v)
    for name in sorted(calls):
        started = time.perf_counter()
        with captured() as f:
            o, _, _ = call(calls[name], limit=60)
        run['calls'].append({'call': name, 'outcome': o, 'text': len(f.getvalue()),
                             'elapsed': num(time.perf_counter() - started), 'tables': tables(f.getvalue(), num)})
    return run


# -- C13: forecasts ---------------------------------------------------------------------------

def _bad_json(*vs):
    return any(isinstance(v, str) for v in vs)


def forecasts(s):
    """Forecasts of a fitted model on its own and other data.

    exact: the parameters and (through a dictionary of unit vectors) the
    weights of the series are prescribed; else they come from a fit."""
    kind = s['model']
    t = {'error': '', 'lags': s['lags'], 'L': [], 'P': [], 'D': [['0']], 'G': [], 'forecasts': []}
    X = matrix(s['X'])
    o = dict(s['options'], lags=s['lags'], n_components=s['k'], random_state=s['seed'])
    kw = {}
    if s.get('D') is not None:
        o['init'] = 'custom'
        kw = {'dictionary': matrix(s['D']), 'weights': matrix(s['G'])}
        if kind == 'mtd':
            kw.update(order_weights=vector(s['L']),
                      transition_matrices=np.array([matrix(p) for p in s['P']]))
        if s.get('frozen'):
            kw.update(update_dictionary=False, update_weights=False)
            if kind == 'mtd':
                kw['update_parameters'] = False
    model, arg = make_model(kind, X, o)
    out, _, _ = call(model.fit, arg, **kw)
    if out == 'RuntimeError':
        return t
    if out != 'ok':
        t['error'] = 'fit raised ' + out
        return t
    if s.get('exact'):
        # a model with the prescribed Markov parameters
        model.order_weights = vector(s['L'])
        model.transition_matrices = np.array([matrix(p) for p in s['P']])
    D0, L0, P0 = res(model.dictionary_, 2), res(model.order_weights, 1), res(model.transition_matrices, 3)
    Y = matrix(s['Y'])
    out, W, _ = call(copy.deepcopy(model).transform, Y.copy())
    if out != 'ok':
        t['error'] = 'transform raised ' + out
        return t
    t.update(D=D0, L=L0, P=P0, G=res(W, 2))
    if _bad_json(D0, L0, P0, t['G']):
        t.update(error='result-is-not-an-array-of-real-numbers', D=[['0']])
        return t
    for h in s['horizons']:
        m = copy.deepcopy(model)
        out, v, _ = call(m.predict, Y.copy(), **({'horizon': h} if h or s['seed'] % 2 else {}))
        v = res(v, 2) if out == 'ok' else []
        t['forecasts'].append({'horizon': h, 'outcome': out, 'values': [] if isinstance(v, str) else v})
    return t


# -- C14: k-means Markov model ------------------------------------------------------------------

def _int_labels(v, n):
    a = np.asarray(v)
    return [int(x) + 1 for x in a] if a.shape == (n,) and a.dtype.kind in 'iu' else 'other'


def kmeans_markov(s):
    from reor.crom import KMeansMarkovCROM
    X = matrix(s['X'])
    n = len(X)
    w = None if s.get('w') is None else vector(s['w'])
    t = {'error': '', 'X': enc(X), 'k': s['k'], 'labels': [], 'matrix': [], 'centers': [], 'inertia': num(0),
         'weights': enc(np.ones(n) if w is None else w), 'wanted': s.get('wanted', []),
         'predictions': [], 'transforms': [], 'others': []}

    def new():
        # the seed is integer, so equal models give equal clusterings
        return KMeansMarkovCROM(n_clusters=s['nc'], random_state=s['seed'], **s.get('options', {}))

    kw = {} if w is None else {'sample_weight': w}
    model = new()
    out, v, _ = call(model.fit, X.copy(), **{k: a.copy() for k, a in kw.items()})
    if out != 'ok':
        t['error'] = 'fit raised ' + out
        return t
    if v is not model:
        t['error'] = 'fit-does-not-return-the-model'
        return t
    t.update(labels=_int_labels(model.labels_, n), matrix=res(model.transition_matrix_, 2),
             centers=res(model.cluster_centers_, 2), inertia=num(model.inertia_))
    if _bad_json(t['labels'], t['matrix'], t['centers']):
        t.update(error='result-is-not-an-array-of-real-numbers', labels=[], matrix=[], centers=[])
        return t
    for h, Y in s['predict']:
        Y = X if Y is None else matrix(Y)
        out, v, _ = call(model.predict, Y.copy(), **({'horizon': h} if h else {}))
        v = res(v, 2) if out == 'ok' else []
        t['predictions'].append({'horizon': h, 'Y': enc(Y), 'outcome': out, 'values': [] if v == 'other' else v})
    Y = X if s.get('Y') is None else matrix(s['Y'])
    out, v, _ = call(model.transform, Y.copy())
    v = res(v, 2) if out == 'ok' else []
    t['transforms'].append({'Y': enc(Y), 'outcome': out, 'values': [] if v == 'other' else v})
    for method in ('fit_predict', 'fit_transform'):
        m = new()
        out, v, _ = call(getattr(m, method), X.copy(), **{k: a.copy() for k, a in kw.items()})
        o = {'method': method, 'outcome': out, 'labels': [], 'matrix': [], 'centers': []}
        if out == 'ok':
            o.update(labels=_int_labels(v if method == 'fit_predict' else m.labels_, n),
                     matrix=res(m.transition_matrix_, 2), centers=res(m.cluster_centers_, 2))
            if _bad_json(o['labels'], o['matrix'], o['centers']):
                o.update(outcome='malformed')
            if method == 'fit_transform':
                v = res(v, 2)
                t['transforms'].append({'Y': enc(X), 'outcome': out, 'values': [] if v == 'other' else v})
        t['others'].append(o)
    return t


# -- C09-C12: histories of calls -------------------------------------------------------------

def lifecycle(s):
    import life
    return life.lifecycle(s)


def constructions(s):
    import life
    return life.constructions(s)


# -- C18, C19: vector autoregression -----------------------------------------------------------

def varx_local(s):
    import varx
    return varx.local(s)


def varx_piecewise(s):
    import varx
    return varx.piecewise(s)


# -- C20: initial guesses -------------------------------------------------------------------------

def initial(s):
    import init
    return {'fembv': init.fembv_guess, 'matrix': init.stochastic}.get(s['family'], init.guess)(s)


# -- C22: archetypal analysis and its kernel ------------------------------------------------------

def gram(s):
    import gram as g
    return g.pair(s)


# -- C21: storage ----------------------------------------------------------------------------------

def storage(s):
    import storage as st
    return st.compare(s)


# -- C23, C24: sessions ------------------------------------------------------------------------------

def session(s):
    import interface
    return interface.session(s)
