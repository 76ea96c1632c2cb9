"""Parts shared by the checks of the fits (C04, C05, C06, C08, C15, C16, C17)."""

from fractions import Fraction

import numpy as np

import fembvgen
import fitgen
import lib

MODELS = ('gpnh', 'mtd', 'kernel_aa', 'aa', 'crom')


def real(v):
    """A number as written by a specification."""
    if v.startswith('#'):
        a, _, b = v[1:].partition('/')
        return float(Fraction(int(a, 16), int(b, 16) if b else 1))
    if '/' in v:
        return float(Fraction(v))
    return float(v)


def hexed(m):
    if isinstance(m, str):
        return real(m).hex()
    return [hexed(v) for v in m]


def alternation(ctx, checks, slices, iters=2, kinds=('gpnh', 'aa', 'mtd', 'crom'), m=3):
    """Model-check the alternating scheme; replay its initial guesses."""
    sc = []
    for kind in kinds:
        beh = ctx.behaviours(
            'AlternationMC',
            'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
            'INVARIANTS Feasible Descends Fraction Accepted Spectral Stopping\n'
            'CONSTANTS Kind = "%s" Iters = %d Slice = %d Slices = %d\n'
            % (kind, iters, ctx.seed % slices, slices))
        for i, b in enumerate(beh):
            p, g = b['problem'], b['guess']
            o = {}
            if kind != 'aa':
                o['epsilon_states'] = real(p['es'])
            if kind == 'mtd':
                o['epsilon_weights'] = real(p['ew'])
            s = {'model': ['aa', 'kernel_aa'][i % 2] if kind == 'aa' else kind, 'm': m,
                 'checks': checks, 'seed': i, 'options': o, 'X': hexed(b['data']),
                 'D': hexed(g['D']), 'G': hexed(g['G']),
                 'active': {'mtd': ['D', 'G', 'P'], 'crom': []}.get(kind, ['D', 'G'])}
            if kind in ('mtd', 'crom'):
                s['lags'] = [int(v) for v in p['lags']]
            if kind == 'mtd':
                s['L'] = hexed(g['L'])
                s['P'] = hexed(g['P'])
            sc.append(s)
    ctx.extra['model_guesses_replayed'] = len(sc)
    return sc


def judge(ctx, driver, spec, sc, label, per=90):
    tr = ctx.drive(driver, sc, per_scenario=per, overall=ctx.pick(600, 7200))
    sc, tr = lib.split_dead(ctx, sc, tr, label)
    rej = ctx.validate(spec, tr, chunk=2500, timeout=ctx.pick(800, 3600))
    lib.rejected_to_violations(ctx, sc, tr, rej, label)
    ctx.extra[label + '_traces'] = len(tr)
    if sc:
        ctx.sample({k: v for k, v in sc[len(sc) // 2].items()
                    if k in ('model', 'options', 'init', 'active', 'k', 'lags', 'm', 'tv', 'mem', 'seed', 'X')})
    return sc, tr


def prefixes(ctx, checks, count, seed, models=MODELS, m=4, search=True, **options):
    r = np.random.RandomState(ctx.seed * 1000 + seed)
    sc = []
    for i in range(count):
        for model in models:
            o = dict(fitgen.search_options(r, guard=False) if search and r.rand() < .5 else {})
            o.update(options)
            sc.append(fitgen.scenario(r, model, checks, int(r.randint(1, m + 1)), **o))
    for i in range(max(2, count // 25)):      # a few of some size
        for model in models:
            o = dict(fitgen.search_options(r, guard=False) if search and r.rand() < .3 else {})
            o.update(options)
            sc.append(fitgen.scenario(r, model, checks, int(r.randint(1, 3)), large=True, **o))
    return sc


def others(ctx, checks, count, seed, m=4, transform=True):
    """Prefixes of fits from generated guesses, of fits by an instance used
    before, and of transforms."""
    r = np.random.RandomState(ctx.seed * 1000 + seed)
    sc = []
    for i in range(count):
        for model in MODELS:
            for what in ('init', 'prior') + ('transform',) * transform:
                if model == 'crom' and what != 'prior':
                    continue
                o = dict(fitgen.search_options(r, guard=False) if r.rand() < .3 else {})
                o['require_monotonic_cost_decrease'] = False
                s = fitgen.scenario(r, model, checks, int(r.randint(1, m + 1)), **o)
                n, k = len(s['X']), len(s['D'])
                if what == 'init':
                    if k > n:
                        continue
                    s['init'] = ['random', 'furthest_sum', None][r.randint(3)]
                elif what == 'prior':
                    s['prior'] = ['fit', 'transform'][r.randint(2)]
                else:
                    rows = n if model in ('kernel_aa', 'aa') else int(r.randint(1 + max(s.get('lags', [0])), 12))
                    s['Y'] = fitgen.hexm(fitgen.data(r, rows, len(s['X'][0])))
                sc.append(s)
    return sc


def longs(ctx, checks, count, seed, models=MODELS, transform=0.0):
    r = np.random.RandomState(ctx.seed * 1000 + seed)
    return [fitgen.long_scenario(r, model, checks, r.rand() < transform, large=i % 15 == 14, **fitgen.search_options(r))
            for i in range(count) for model in models]


def fembv(ctx, checks, count, seed, transform=0.0, up=.85, uw=.85, m=4, models=('kmeans', 'varx'), **kw):
    r = np.random.RandomState(ctx.seed * 1000 + seed)
    return [fembvgen.scenario(r, model, checks, up=r.rand() < up, uw=r.rand() < uw,
                              m=int(r.randint(1, m + 1)), transform=r.rand() < transform, large=i % 30 == 29, **kw)
            for i in range(count) for model in models]


def fembv_model(ctx, sizes):
    """Model-check weak duality; replay the problems with their best paths."""
    sc = []
    for K, N, values, doubles, slices in sizes:
        beh = ctx.behaviours(
            'FembvMC', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
            'INVARIANTS Duality BestIsLeast CanStay\n'
            'CONSTANTS N=%d K=%d Values=%s Doubles=%s Slice=%d Slices=%d\n'
            % (N, K, values, doubles, ctx.seed % slices, slices))
        sc += [fembvgen.from_model(b, i) for i, b in enumerate(beh)]
    ctx.extra['model_problems_replayed'] = len(sc)
    return sc
