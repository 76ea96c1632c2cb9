"""C25: progress reports tell the truth, and nothing is printed unasked."""

import numpy as np

import fembvgen
import fitgen
import lib

MODELS = ('gpnh', 'mtd', 'kernel_aa', 'aa', 'crom', 'kmeans', 'varx')


def run(ctx):
    ctx.model_check('OuterLoopMC', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
                    'INVARIANTS Agrees Reported Sums WithinLimit\n'
                    'CONSTANTS Values = {0, 1, 3} Limit = %d\n' % ctx.pick(5, 7))
    r = np.random.RandomState(ctx.seed + 25)
    sc = []
    for i in range(ctx.pick(40, 500)):
        for model in MODELS:
            m = int(r.choice([1, 2, 4, 7, 12]))
            if model in ('kmeans', 'varx'):
                s = fembvgen.scenario(r, model, [], m=m)
                s['m'] = m
            else:
                s = fitgen.scenario(r, model, [], m)
                s['options']['require_monotonic_cost_decrease'] = bool(r.rand() < .3)
                if r.rand() < .3:            # searches that accept any step: costs go up and down
                    s['options'].update(require_monotonic_cost_decrease=False, gamma=float(r.choice([-1e6, -3.0])),
                                        alpha_min=float(r.choice([1e-3, 1.0, 30.0])))
                elif r.rand() < .3:
                    s['options'].update(fitgen.search_options(r, guard=False))
            # of any run: silent (by default or on request), or some verbosity
            s['report'] = [[1], [2], [10], [1, None], [0, 1, 2]][r.randint(5)]
            s['runs'] = [[0, m], [1e30, int(r.randint(1, m + 1))]]
            for _ in range(3):
                s['runs'].append([[int(r.randint(0, 8)), float(r.choice([0.5, 0.999, 1.001, 2.0, 1e-3]))],
                                  int(r.randint(1, m + 1)) if r.rand() < .5 else m])
            sc.append(s)
    tr = ctx.drive('outer', sc, per_scenario=120)
    sc, tr = lib.split_dead(ctx, sc, tr, 'fit')
    for s, t in zip(sc, tr):
        t['k'] = s['k'] if 'k' in s else len(s['D'])
    rej = ctx.validate('ProgressTrace', tr)
    for i, verdicts in sorted(rej.items()):
        for clause in sorted({c.strip().strip('"') for v in verdicts for c in v.strip('{}').split(',')}):
            ctx.violation('%s report: %s' % (sc[i]['model'], clause),
                          {'scenario': sc[i], 'clauses': verdicts, 'trace': tr[i]})
    ctx.extra['fits'] = sum(len(t['runs']) for t in tr)
    ctx.extra['silent_fits'] = sum(q['silent'] for t in tr for q in t['runs'])
    ctx.extra['rows'] = sum(len(b['rows']) for t in tr for q in t['runs'] for b in q['tables'])
    ctx.extra['rows_of_growing_costs'] = sum(float.fromhex(b[2]) > 0 for t in tr for q in t['runs'] for h in q['tables']
                                             for b in h['rows'] if b[2] != 'nan')
    ctx.extra['rows_of_other_calls'] = sum(len(b['rows']) for t in tr for q in t['runs']
                                           for c in q['calls'] for b in c['tables'])
    ctx.sample({k: sc[0][k] for k in ('model', 'options', 'runs', 'report')})
    ctx.assumptions += ['printed numbers have seven significant digits',
                        'reports of transforms are judged by themselves, those of fits against the costs']
    return ctx.finish('model_checking', 'one trace per problem: the printed tables of fits with several '
                      'tolerances and limits against the costs of growing limits')
