"""C12: invalid requests are refused and leave the model as it was."""

import numpy as np

import lib
import lifegen
from fitgen import hexm


def want(h):
    return any(c['op'] == 'refuse' for c in h)


def constructions(ctx):
    r = np.random.RandomState(ctx.seed + 12)
    sc = []

    def add(model, arg, how, valid, k=2):
        sc.append({'model': model, 'arg': arg, 'as': how, 'valid': valid, 'k': k,
                   'X': hexm(r.standard_normal((12, 2)))})
    for model in ('mtd', 'crom'):
        for lags in ([0], [-1], [1, 0], [2, -1], [3, 1, 0], [-5], [1], [2, 1], [1, 3]):
            for how in ('list', 'tuple', 'array'):
                add(model, lags, how, min(lags) > 0)
    for mem in ([-1], [-3], [1, -1], [0, -2], [1], [2], [0, 1], [2, 2], [0]):
        for how in ('list', 'tuple') if len(mem) == 2 else ('scalar',):
            add('varx', mem, how, min(mem) >= 0)
    for mem in ([1], [1, 1, 1], [1, -1, 1]):
        for how in ('list', 'tuple'):
            add('varx', mem, how, False)
    for how in ('p', 's'):
        for v in (-1, -2, 0, 1, 2):
            add('local', [v], how, v >= 0)
    tr = ctx.drive('constructions', sc)
    sc, tr = lib.split_dead(ctx, sc, tr, 'construction')
    rej = ctx.validate('ConstructionTrace', tr)
    lib.rejected_to_violations(ctx, sc, tr, rej, 'construction')
    ctx.extra['constructions'] = len(sc)


def run(ctx):
    sc, _ = lifegen.run(ctx, ['refuse'], ctx.pick(90, 2000), 12, want)
    kinds = {}
    for s in sc:
        for w in s['whys']:
            if w:
                kinds.setdefault(s['model'], set()).add(w)
    ctx.extra['kinds_of_refusal'] = {k: sorted(v) for k, v in kinds.items()}
    constructions(ctx)
    return ctx.finish('model_checking', 'one trace per history of calls with invalid requests')
