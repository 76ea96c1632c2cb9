"""C05: fitting never makes the objective worse."""

import numpy as np

import fitgen
import fits


def run(ctx):
    checks = ['descent']
    sc = fits.alternation(ctx, checks, ctx.pick(12, 2))
    sc += fits.prefixes(ctx, checks, ctx.pick(80, 1500), 5, m=6)
    sc += fits.others(ctx, checks, ctx.pick(12, 300), 56, m=5)
    # searches that accept any step, so that the guard must speak up
    r = np.random.RandomState(ctx.seed + 55)
    for i in range(ctx.pick(40, 400)):
        for model in fits.MODELS:
            o = {'gamma': float(r.choice([-1e6, -3.0, 0.3])), 'alpha_min': float(r.choice([1e-3, 1.0, 30.0]))}
            if r.rand() < .4:
                o['line_search_memory'] = int(r.randint(2, 5))
            sc.append(fitgen.scenario(r, model, checks, 4, **o))
            if i % 2:            # the guard is not about the tolerance
                sc[-1]['tol'] = float(r.choice([1e-3, 0.1, 10, 1e6]))
    # steps of a single block that overshoot, below and above the tolerance
    for i in range(ctx.pick(12, 100)):
        for model in ('gpnh', 'mtd', 'kernel_aa', 'aa'):
            for block in ('D', 'G', 'P')[:3 if model == 'mtd' else 2]:
                o = {'gamma': -1e6, 'alpha_min': float(r.choice([1.0, 30.0]))}
                if model not in ('kernel_aa', 'aa'):
                    o['epsilon_states'] = float(r.choice([0, 60]))
                if model == 'mtd':
                    o['epsilon_weights'] = float(r.choice([5, 60]))
                sc.append(fitgen.scenario(r, model, checks, 3, active=[block], **o))
                sc[-1]['tol'] = float(r.choice([1e-3, 0.1, 10, 1e6]))
    # long memories of well-posed problems: the cost worsens rarely and by little
    for i in range(ctx.pick(40, 400)):
        for model in fits.MODELS:
            o = {'line_search_memory': int(r.choice([2, 4, 20])), 'epsilon_states': 0.0}
            if model in ('aa', 'kernel_aa'):
                del o['epsilon_states']
            sc.append(fitgen.scenario(r, model, checks, 9, **o))
    _, tr = fits.judge(ctx, 'fit_prefixes', 'FitTrace', sc, 'prefixes')
    ctx.extra['RuntimeErrors_judged'] = sum(1 for t in tr if t['raised'])
    sc = fits.longs(ctx, checks, ctx.pick(120, 2500), 50)
    fits.judge(ctx, 'fit_long', 'FitTrace', sc, 'fits')
    sc = fits.fembv(ctx, checks, ctx.pick(150, 2500), 51, m=5)
    sc += fits.fembv(ctx, checks, ctx.pick(30, 300), 52, m=5, require_monotonic_cost_decrease=True)
    fits.judge(ctx, 'fembv_prefixes', 'FembvTrace', sc, 'fembv')
    ctx.assumptions += ['FEM-BV affiliation updates up to the accuracy of the solver (2e-6)']
    return ctx.finish('model_checking', 'one trace per fit: the factors after every iteration (the '
                      'objective is evaluated exactly between the blocks), or before and after long fits')
