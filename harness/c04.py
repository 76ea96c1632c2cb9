"""C04: weights, dictionaries and Markov parameters stay stochastic."""

import fits


def run(ctx):
    checks = ['stochastic']
    sc = fits.alternation(ctx, checks, ctx.pick(12, 2))
    sc += fits.prefixes(ctx, checks, ctx.pick(80, 1500), 4, m=6)
    sc += fits.others(ctx, checks, ctx.pick(12, 300), 41, m=5)
    fits.judge(ctx, 'fit_prefixes', 'FitTrace', sc, 'prefixes')
    sc = fits.longs(ctx, checks, ctx.pick(150, 2500), 40, transform=.5)
    fits.judge(ctx, 'fit_long', 'FitTrace', sc, 'fits')
    ctx.assumptions += ['unit sums up to 1e-9, more after projecting values above 1e6']
    return ctx.finish('model_checking', 'one trace per fit: the factors after every iteration, or '
                      'before and after fits and transforms of up to 60 iterations')
