"""C03: step rules of the line searches."""

import numpy as np

import lib


def scenarios(ctx, beh):
    r = np.random.RandomState(ctx.seed + 3)
    hx = lambda x: float(x).hex()
    frac = lambda s: (int(s[1:].split('/')[0], 16) / int(s.split('/')[1], 16)
                      if s.startswith('#') else float(s))
    calls = []
    for b in beh:
        calls.append({'op': 'step', 'type': str(r.choice(['int', 'float', 'np'])), 'src': 'model',
                      'args': [hx(frac(b[k])) for k in ('step', 'delta')] + [hx(0.0), hx(frac(b['fnew']))],
                      'kw': {'sigma_one': hx(frac(b['s1']))} if b['s1'] != '0.1' else {}})
    for i in range(ctx.pick(2500, 30000)):
        step = 1.0 if i % 3 == 0 else float(10.0 ** r.uniform(-12, 0.3))
        delta = -float(10.0 ** r.uniform(-14, 8))
        fold = float(r.standard_normal() * 10.0 ** r.uniform(-3, 6)) * (i % 4 > 0)
        rel = float(r.choice([1e-4, 0.0, r.rand(), 10 ** r.uniform(-3, 4)])) * (1 if r.rand() < .9 else -1e-5)
        fnew = fold + rel * step * -delta
        kw = {}
        if r.rand() < .3:
            kw['sigma_one'] = hx(10.0 ** r.uniform(-6, -0.4))
        if r.rand() < .3:
            kw['sigma_two'] = hx(r.uniform(0.1, 0.99))
        calls.append({'op': 'step', 'type': str(r.choice(['int', 'float', 'np'])),
                      'args': [hx(step), hx(delta), hx(fold), hx(fnew)], 'kw': kw})
    for i in range(ctx.pick(1500, 10000)):
        sksk = float(10.0 ** r.uniform(-20, 6)) * (r.rand() > .05)
        beta = float(r.choice([-1, 1, 1, 1, 1])) * float(10.0 ** r.uniform(-20, 6)) * (r.rand() > .05)
        kw = {}
        if r.rand() < .4:
            kw['alpha_min'] = hx(10.0 ** r.uniform(-9, -1))
        if r.rand() < .4:
            kw['alpha_max'] = hx(10.0 ** r.uniform(0, 9))
        calls.append({'op': 'alpha', 'type': str(r.choice(['int', 'float', 'np'])),
                      'args': [hx(beta), hx(sksk)], 'kw': kw})
    single = [{'calls': calls[i:i + 50]} for i in range(0, len(calls), 50)]
    fits = []
    for i in range(ctx.pick(40, 300)):
        model = ['gpnh', 'mtd', 'kernel_aa', 'aa', 'crom'][i % 5]
        o = {'tolerance': float(r.choice([0, 1e-8, 1e-3])), 'max_iterations': int(r.choice([3, 10, 30]))}
        if r.rand() < .5:
            o['sigma_one'] = float(r.choice([1e-4, 0.02, 0.3]))
        if r.rand() < .5:
            o['sigma_two'] = float(r.choice([0.5, 0.75, 0.95]))
        if r.rand() < .4:
            o['alpha_min'] = float(r.choice([1e-6, 0.02]))
        if r.rand() < .4:
            o['alpha_max'] = float(r.choice([1e6, 20.0]))
        if r.rand() < .3:
            o['gamma'] = float(r.choice([0.01, 0.3]))
        if r.rand() < .3:
            o['line_search_memory'] = int(r.choice([2, 5]))
            o['require_monotonic_cost_decrease'] = False
        if model in ('gpnh', 'mtd', 'crom'):
            o['epsilon_states'] = float(r.choice([0, 0.1, 10, 1000]))
        if model == 'mtd':
            o['epsilon_weights'] = float(r.choice([0.1, 10, 1000]))
            o['lags'] = [1, 3]
        fits.append({'model': model, 'n': int(r.randint(8, 20)), 'd': int(r.randint(1, 5)),
                     'k': int(r.randint(1, 5)), 'scale': float(10.0 ** r.randint(-2, 3)),
                     'offset': float(r.choice([0, 5])), 'seed': int(r.randint(1000)), 'options': o})
    return single, fits


def run(ctx):
    beh = []
    for num_, den in ((1, 10), (1, 1000), (2, 5)):
        b = ctx.behaviours('LineSearchMC',
                           'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
                           'INVARIANTS Positive Shrinks Minimiser Bounded\nPROPERTY Ends\n'
                           'CONSTANTS Depth = %d S1Num = %d S1Den = %d\n'
                           % (ctx.pick(2, 3), num_, den))
        seen = {}
        for x in b:
            x['s1'] = str(num_ / den)
            seen[tuple(x.values())] = x
        beh += list(seen.values())
    single, fits = scenarios(ctx, beh)
    for sc, driver in ((single, 'steps'), (fits, 'searches')):
        tr = ctx.drive(driver, sc, per_scenario=90)
        sc, tr = lib.split_dead(ctx, sc, tr, driver)
        rej = ctx.validate('SPGTrace', tr)
        lib.rejected_to_violations(ctx, sc, tr, rej, driver)
        ctx.extra[driver + '_events'] = sum(len(t['events']) for t in tr)
    ctx.sample(single[0]['calls'][0])
    ctx.sample(fits[0])
    ctx.extra['model_behaviours'] = len(beh)
    ctx.assumptions += ['relative rounding of 1e-10 in the two rules']
    return ctx.finish('model_checking', 'one event per call of a step rule: replayed from LineSearchMC, '
                      'random, or made by the searches of a fit')
