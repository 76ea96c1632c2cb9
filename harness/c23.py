"""C23: fits of any finite data end with finite results of the documented form."""

import sessions


def run(ctx):
    sessions.run(ctx, ['form'], ctx.pick(110, 2500), 23, '{1, 2, 4, 7}')
    ctx.assumptions += ['data up to 1e12 in size; residual covariances with no degrees of freedom left may be undefined',
                        'piecewise regressions with a nearest-neighbour classifier (the default one refuses single regimes)']
    return ctx.finish('model_checking', 'one trace per session of the interface model, on sixteen kinds of data')
