"""C17: FEM-BV component parameters are optimal for the affiliations."""

import fits


def run(ctx):
    sc = fits.fembv(ctx, ['normal'], ctx.pick(350, 5000), 17, m=4, up=1.0, uw=.5)
    fits.judge(ctx, 'fembv_prefixes', 'FembvTrace', sc, 'fembv')
    ctx.assumptions += ['gradients vanish up to 1e-10 of the terms, column by column, they are made of']
    return ctx.finish('model_checking', 'one trace per fit: the parameters after every update satisfy the exact '
                      'normal equations weighted with the affiliations before it')
