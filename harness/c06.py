"""C06: the reported cost is the objective of the returned factors."""

import fits


def run(ctx):
    checks = ['cost']
    sc = fits.alternation(ctx, checks, ctx.pick(16, 4), kinds=('gpnh', 'aa', 'mtd'), m=2)
    sc += fits.prefixes(ctx, checks, ctx.pick(80, 1500), 6, models=('gpnh', 'mtd', 'kernel_aa', 'aa'), m=5)
    fits.judge(ctx, 'fit_prefixes', 'FitTrace', sc, 'prefixes')
    sc = fits.longs(ctx, checks, ctx.pick(150, 2500), 60)
    for s in sc:
        if s['model'] == 'crom':
            s['as'] = 'gpnh'
    fits.judge(ctx, 'fit_long', 'FitTrace', sc, 'fits')
    sc = fits.fembv(ctx, checks, ctx.pick(150, 2500), 61, m=5)
    fits.judge(ctx, 'fembv_prefixes', 'FembvTrace', sc, 'fembv')
    ctx.assumptions += ['costs compared up to 1e-9 of the terms they are made of']
    return ctx.finish('model_checking', 'one trace per fit; each reported cost against the exact objective '
                      'of the factors reported with it')
