"""C15: FEM-BV affiliations are stochastic and respect the variation bound."""

import fits


def run(ctx):
    checks = ['stochastic', 'tv']
    sc = fits.fembv_model(ctx, ctx.pick([(2, 4, '{0,1,4}', '{0,1,2,3}', 3)],
                                        [(2, 5, '{0,1,2,4}', '{0,1,2,3,4}', 8), (3, 3, '{0,1,3}', '{0,1,2,4}', 6)]))
    for s in sc:
        s['checks'] = checks
    sc += fits.fembv(ctx, checks, ctx.pick(350, 5000), 15, m=5, transform=.4)
    fits.judge(ctx, 'fembv_prefixes', 'FembvTrace', sc, 'fembv')
    ctx.assumptions += ['sums up to 1e-6, variation up to 1e-6 per sample (accuracy of the solver)']
    return ctx.finish('model_checking', 'one trace per fit: the affiliations after every iteration, or of a transform')
