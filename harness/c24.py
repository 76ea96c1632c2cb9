"""C24: equivalent entry points of an estimator agree."""

import sessions


def run(ctx):
    sessions.run(ctx, ['entry'], ctx.pick(90, 2000), 24, '{2, 5, 9}')
    ctx.assumptions += ['sessions on a twin with the same seed, fitted by the other entry points']
    return ctx.finish('model_checking', 'one trace per session of the interface model, every fit repeated by another '
                      'entry point on a twin, every reconstruction recomputed exactly')
