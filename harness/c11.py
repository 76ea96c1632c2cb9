"""C11: results do not depend on history, verbosity and global state."""

import lifegen


def want(h):
    return any(c['op'] == 'fit' for c in h[:-1])


def run(ctx):
    lifegen.run(ctx, ['repeat'], ctx.pick(60, 1500), 11, want)
    return ctx.finish('model_checking', 'one trace per history of calls')
