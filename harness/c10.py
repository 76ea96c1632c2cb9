"""C10: caller arrays and earlier results are never modified."""

import lifegen


def want(h):
    return any(c['op'] == 'fit' for c in h[:-1])


def run(ctx):
    lifegen.run(ctx, ['touch'], ctx.pick(60, 1500), 10, want)
    return ctx.finish('model_checking', 'one trace per history of calls')
