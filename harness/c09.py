"""C09: frozen factors and fitted models survive updates, transforms and forecasts."""

import lifegen


def want(h):
    ops = [c['op'] for c in h]
    return 'fit' in ops and (any(c['frozen'] for c in h) or any(o in ('transform', 'predict') for o in ops))


def run(ctx):
    lifegen.run(ctx, ['keep'], ctx.pick(60, 1500), 9, want)
    return ctx.finish('model_checking', 'one trace per history of calls')
