"""C07: iteration count, stopping rule and warning."""

import numpy as np

import fembvgen
import fitgen
import lib


def run(ctx):
    ctx.model_check('OuterLoopMC', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
                    'INVARIANTS Agrees Truthful First Reported WithinLimit\nPROPERTY Ends\n'
                    'CONSTANTS Values = {0, 1, 3} Limit = %d\n' % ctx.pick(5, 7))
    r = np.random.RandomState(ctx.seed + 7)
    sc = []
    for i in range(ctx.pick(45, 700)):
        for model in ('gpnh', 'mtd', 'kernel_aa', 'aa', 'crom', 'kmeans', 'varx'):
            m = int(r.choice([1, 2, 4, 7]))
            if model in ('kmeans', 'varx'):
                s = fembvgen.scenario(r, model, [], m=m)
                s['m'] = m
            else:
                s = fitgen.scenario(r, model, [], m)
                s['options']['require_monotonic_cost_decrease'] = bool(r.rand() < .5)
            runs = [[0, int(r.randint(1, m + 1))], [1e30, int(r.randint(1, m + 1))]]
            for _ in range(6):
                runs.append([[int(r.randint(0, 8)), float(r.choice([0.5, 0.999, 1.001, 2.0, 1e-3]))],
                             int(r.randint(1, m + 1)) if r.rand() < .5 else m])
            s['runs'] = runs
            sc.append(s)
    tr = ctx.drive('outer', sc, per_scenario=120)
    sc, tr = lib.split_dead(ctx, sc, tr, 'fit')
    rej = ctx.validate('OuterLoopTrace', tr)
    for i, verdicts in sorted(rej.items()):
        for clause in sorted({c.strip().strip('"') for v in verdicts for c in v.strip('{}').split(',')}):
            ctx.violation('%s fit: %s' % (sc[i]['model'], clause),
                          {'scenario': sc[i], 'clauses': verdicts, 'trace': tr[i]})
    ctx.extra['fits'] = sum(len(t['runs']) + len(t['costs']) for t in tr)
    ctx.sample({k: sc[0][k] for k in ('model', 'options', 'runs')})
    ctx.assumptions += ['a change within rounding (1e-11 of the costs) of the tolerance may go either way']
    return ctx.finish('model_checking', 'one trace per problem: fits with zero, huge and intermediate '
                      'tolerances and all limits against the costs of growing limits')
