"""C16: FEM-BV affiliation updates are optimal."""

import fits


def run(ctx):
    sc = fits.fembv_model(ctx, ctx.pick([(2, 4, '{0,1,2,4}', '{0,1,2,3,4}', 5), (3, 3, '{0,1,3}', '{0,1,2,4}', 60)],
                                        [(2, 5, '{0,1,2,4}', '{0,1,2,3,4,5}', 6), (3, 3, '{0,1,2,3}', '{0,1,2,3,4}', 20)]))
    sc += fits.fembv(ctx, ['optimal'], ctx.pick(350, 5000), 16, m=4, uw=1.0, transform=.3)
    fits.judge(ctx, 'fembv_prefixes', 'FembvTrace', sc, 'fembv')
    ctx.assumptions += ['optimal up to 2e-6 of the summed distances (accuracy of the solver)',
                        'multipliers come from scipy; the specification only trusts the bound it evaluates from them']
    return ctx.finish('model_checking', 'one trace per fit: after every affiliation update the exact cost is '
                      'compared with a lower bound over all feasible affiliations, and with the best '
                      'enumerated path where the problem comes from the model')
