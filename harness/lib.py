"""Common machinery of the checks: TLC runs, worker pool, evidence, verdicts.

This module never imports the code under test: that happens only in worker
processes (worker.py), whose calls into /repo are recorded as events.
"""

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
PY = '/opt/venv/bin/python'
REPO_SRC = os.environ.get('VERIF_DEV_SRC', '/repo/src')  # override: development only
TLA = '/opt/veriftools/tla'
NPROC = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    """The check itself failed: it has no answer (exit 2)."""


class Ctx:
    """One run of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.cls = None
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.mc_runs = []
        self.samples = []
        self.violations = []
        self.assumptions = []
        self.extra = {}

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # -- TLC ------------------------------------------------------------

    def java(self):
        if self.cls is None:
            self.cls = os.path.join(self.tmp, 'cls')
            os.makedirs(self.cls)
            r = subprocess.run(
                ['javac', '-nowarn', '-cp', TLA + '/tla2tools.jar', '-d', self.cls,
                 os.path.join(VERIF, 'java', 'Rat.java')],
                capture_output=True, text=True)
            if r.returncode:
                raise MachineryError('javac failed:\n' + r.stderr)
        return self.cls

    def tlc(self, module, config, env=None, workers=NPROC, simulate=None,
            timeout=800, heap='8g', args=()):
        """Run TLC on spec/<module>.tla with the given configuration text."""
        cfg = os.path.join(self.tmp, '%s-%d.cfg' % (module, len(self.mc_runs)))
        with open(cfg, 'w') as f:
            f.write(config)
        meta = tempfile.mkdtemp(dir=self.tmp)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
               '-Djava.io.tmpdir=' + self.tmp,
               '-cp', os.pathsep.join([self.java(), TLA + '/tla2tools.jar',
                                       TLA + '/CommunityModules-deps.jar']),
               'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
               '-workers', str(workers), '-config', cfg]
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate[0], '-depth', str(simulate[1]),
                    '-seed', str(self.seed)]
        cmd += list(args) + [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e.pop('JAVA_TOOL_OPTIONS', None)
        t = time.time()
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=e,
                               timeout=timeout, cwd=SPEC)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC on %s ran out of its %d s' % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = '\n'.join(l for l in r.stdout.splitlines()
                        if not l.startswith(('Loading ', 'Parsing file', 'Semantic processing')))
        gen = dist = 0
        m = None
        for m in re.finditer(r'([\d,]+) states generated.*?([\d,]+) distinct states found', out):
            pass
        if m:
            gen, dist = (int(x.replace(',', '')) for x in m.groups())
        else:
            m = re.search(r'The number of states generated: ([\d,]+)', out)
            if m:
                gen = int(m.group(1).replace(',', ''))
        run = {'module': module, 'generated': gen, 'distinct': dist,
               'wall_s': round(time.time() - t, 2)}
        self.mc_runs.append(run)
        self.transitions += gen
        self.states += dist
        if r.returncode != 0:
            raise MachineryError('TLC on %s ended with %d:\n%s\n%s' % (
                module, r.returncode, out[-6000:], r.stderr[-2000:]))
        return out

    def model_check(self, module, config, **kw):
        """Check the design itself; a violation there is a machinery error."""
        return self.tlc(module, config, **kw)

    def behaviours(self, module, config, env_name='OUT', env=None, **kw):
        """Run a specification that writes behaviours (ndjson) and return them."""
        path = os.path.join(self.tmp, '%s-%d.ndjson' % (module, len(self.mc_runs)))
        open(path, 'w').close()
        e = dict(env or {})
        e[env_name] = path
        self.tlc(module, config, env=e, **kw)
        res = []
        with open(path) as f:
            for line in f:
                if line.strip():
                    v = json.loads(line)
                    res.append(json.loads(v) if isinstance(v, str) else v)
        return res

    def validate(self, module, traces, extra_cfg='', env=None, chunk=None, **kw):
        """Check recorded traces against spec/<module>.tla.

        The trace specification starts one behaviour per recorded trace and
        writes one line "trace index | accepted/clause ..." per ended
        behaviour.  A trace is accepted when some behaviour accepts it.
        Returns {trace index: sorted list of failed clauses} for the rejected.
        """
        rejected = {}
        chunk = chunk or max(1, len(traces))
        for lo in range(0, len(traces), chunk):
            part = traces[lo:lo + chunk]
            tf = os.path.join(self.tmp, 'traces.json')
            vf = os.path.join(self.tmp, 'verdicts.txt')
            with open(tf, 'w') as f:
                json.dump(part, f)
            open(vf, 'w').close()
            e = dict(env or {})
            e.update(TRACES=tf, VERDICTS=vf)
            self.tlc(module, 'INIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n'
                     + extra_cfg, env=e, **kw)
            seen = {}
            with open(vf) as f:
                for line in f:
                    k, _, v = line.rstrip('\n').partition('|')
                    seen.setdefault(int(k.strip('"')) - 1, set()).add(
                        v.strip().strip('"').replace('\\"', ''))
            missing = [i for i in range(len(part)) if i not in seen]
            if missing:
                raise MachineryError('%s: no verdict for traces %r' % (module, missing[:5]))
            for i, vs in seen.items():
                if 'accepted' not in vs:
                    rejected[lo + i] = sorted(vs)
        self.traces += len(traces)
        return rejected

    # -- workers ---------------------------------------------------------

    def drive(self, driver, scenarios, per_scenario=60, overall=None, nproc=NPROC):
        """Run the scenarios against the code under test, in worker processes.

        Returns one trace per scenario (same order).  A scenario during which
        the worker dies or exceeds its time yields the trace
        {"id": ..., "dead": "crash" | "timeout"}.
        """
        for i, s in enumerate(scenarios):
            s.setdefault('id', i)
        work = [scenarios[i::nproc] for i in range(nproc)]
        jobs = []
        for w, part in enumerate(work):
            if part:
                jobs.append(_Worker(self, driver, w, part, per_scenario))
        deadline = time.time() + (overall or 600)
        while any(not j.done for j in jobs):
            for j in jobs:
                j.poll()
            if time.time() > deadline:
                for j in jobs:
                    j.kill()
                raise MachineryError('driver %s ran out of time' % driver)
            time.sleep(0.02)
        by_id = {}
        for j in jobs:
            by_id.update(j.results)
        res = []
        for s in scenarios:
            t = by_id[str(s['id'])]
            if 'driver_error' in t:
                raise MachineryError('driver %s failed on %r:\n%s' % (
                    driver, s['id'], t['driver_error']))
            res.append(t)
        return res

    # -- results -----------------------------------------------------------

    def violation(self, what, data):
        self.violations.append((what, data))

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def finish(self, level, rule=None):
        rep = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rep, exist_ok=True)
        for old in os.listdir(rep):
            if old.startswith(self.prop + '-'):
                os.unlink(os.path.join(rep, old))
        known = load_known(self.prop)
        fresh, matched = [], {}
        for what, data in self.violations:
            k = match_known(known, what, data)
            if k is None:
                fresh.append((what, data))
            else:
                matched.setdefault(k['id'], (k, []))[1].append(what)
        for k, whats in matched.values():
            print('KNOWN-FINDING: property=%s %s (%d observations)' % (
                self.prop, k['what'], len(whats)))
        for i, (what, data) in enumerate(fresh[:20]):
            path = os.path.join(rep, '%s-%d.json' % (self.prop, i))
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'what': what, 'data': data}, f,
                          indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  ' + what[:400])
        if len(fresh) > 20:
            print('  ... and %d more' % (len(fresh) - 20))
        coverage = {
            'states': self.states, 'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'samples': self.samples or ['(none)'],
            'tlc_runs': self.mc_runs}
        if rule:
            coverage['rule'] = rule
        coverage.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': level, 'coverage': coverage,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(fresh)}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %d traces validated, %d states, %d violations, %.1f s' % (
            self.prop, self.traces, self.states, len(fresh), time.time() - self.t0))
        return 1 if fresh else 0


def load_known(prop):
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def match_known(known, what, data):
    """A finding names the clause and the scenario features it covers."""
    for k in known:
        m = k['match']
        if not re.search(m['what'], what):
            continue
        scen = data.get('scenario', {}) if isinstance(data, dict) else {}
        if all(scen.get(a) == b for a, b in m.get('scenario', {}).items()):
            return k
    return None


class _Worker:
    def __init__(self, ctx, driver, w, scenarios, per_scenario):
        self.ctx, self.driver, self.w = ctx, driver, w
        self.todo = list(scenarios)
        self.per = per_scenario
        self.results = {}
        self.done = False
        self.n = 0
        self.hung = 0
        self.start()

    def start(self):
        self.n += 1
        base = os.path.join(self.ctx.tmp, 'w-%s-%d-%d' % (self.driver, self.w, self.n))
        while os.path.exists(base + '.in'):
            base += 'x'
        self.out = base + '.out'
        with open(base + '.in', 'w') as f:
            json.dump(self.todo, f)
        open(self.out, 'w').close()
        scratch = base + '.dir'
        os.makedirs(scratch)
        env = {k: v for k, v in os.environ.items()
               if k in ('PATH', 'HOME', 'LANG', 'VERIF_SEED', 'VERIF_TIER')}
        env['REPO_SRC'] = REPO_SRC
        env.update(PYTHONPATH=REPO_SRC + os.pathsep + os.path.join(VERIF, 'harness'),
                   PYTHONDONTWRITEBYTECODE='1',
                   PYTHONPYCACHEPREFIX=os.path.join(self.ctx.tmp, 'pyc'),
                   PYTHONHASHSEED='0', OMP_NUM_THREADS='1',
                   OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
                   TMPDIR=scratch)
        self.err = open(base + '.err', 'w+')
        self.p = subprocess.Popen(
            [PY, os.path.join(VERIF, 'harness', 'worker.py'), self.driver,
             base + '.in', self.out],
            stdout=self.err, stderr=self.err, env=env, cwd=scratch)
        self.pos = 0
        self.last = time.time() + 30  # imports
        self.started = None

    def read(self):
        with open(self.out) as f:
            f.seek(self.pos)
            data = f.read()
        end = data.rfind('\n')
        if end < 0:
            return
        self.pos += len(data[:end + 1].encode())
        for line in data[:end].split('\n'):
            if line:
                t = json.loads(line)
                self.results[str(t['id'])] = t
                self.last = time.time()

    def poll(self):
        if self.done:
            return
        self.read()
        rc = self.p.poll()
        left = [s for s in self.todo if str(s['id']) not in self.results]
        if rc is None:
            if time.time() - self.last > (self.per + 30 if not self.hung else 40):
                self.p.kill()
                self.p.wait()
                self.read()
                self.lost('timeout')
            return
        self.read()
        left = [s for s in self.todo if str(s['id']) not in self.results]
        if not left:
            self.done = True
            self.err.close()
            return
        if rc == 97:
            self.err.seek(0)
            raise MachineryError('worker could not start:\n' + self.err.read()[-4000:])
        self.lost('crash')

    def lost(self, why):
        left = [s for s in self.todo if str(s['id']) not in self.results]
        if left:
            s = left.pop(0)
            self.results[str(s['id'])] = {'id': s['id'], 'dead': why}
            self.hung += why == 'timeout'
            if self.hung == 3:      # reported three times: enough
                for s in left:
                    self.results[str(s['id'])] = {'id': s['id'], 'dropped': True}
                left = []
        self.todo = left
        if left:
            self.start()
        else:
            self.done = True

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()


def rejected_to_violations(ctx, scenarios, traces, rejected, label):
    for i, clauses in sorted(rejected.items()):
        ctx.violation('%s: %s' % (label, '; '.join(clauses)),
                      {'scenario': scenarios[i], 'clauses': clauses,
                       'trace': traces[i]})


def split_dead(ctx, scenarios, traces, label):
    """Separate traces lost to a crash or a hang of the code under test."""
    s2, t2 = [], []
    for s, t in zip(scenarios, traces):
        if 'dead' in t:
            ctx.violation('%s: no-answer-%s' % (label, t['dead']),
                          {'scenario': s, 'trace': t})
        elif 'dropped' not in t:
            s2.append(s)
            t2.append(t)
    return s2, t2
