"""C08: every update is a safeguarded projected-gradient step."""

import fits


def run(ctx):
    checks = ['step']
    ctx.model_check('FactorisationTest', open(fits.lib.SPEC + '/RatTest.cfg').read())
    sc = fits.alternation(ctx, checks, ctx.pick(12, 2), iters=ctx.pick(2, 3), m=5)
    sc += fits.prefixes(ctx, checks, ctx.pick(100, 2500), 8, m=6)
    sc += fits.others(ctx, checks, ctx.pick(25, 600), 81, m=5)
    fits.judge(ctx, 'fit_prefixes', 'FitTrace', sc, 'prefixes')
    ctx.assumptions += ['updates too close to rounding to be told apart are accepted']
    return ctx.finish('model_checking', 'one trace per fit: every block update of every iteration is '
                      'recomputed exactly from the factors before it')
