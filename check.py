#!/usr/bin/env python3
"""Decides one property of sigrid by deterministic simulation.

check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N]     explores, exit 0 or 1
check.py PROPERTY --replay FILE [--trace]                           replays one execution, exit 0 or 1

The code under test is rebuilt from /repo's working tree (or $REPO), the simulated runs
0..N-1 of the seed are executed by several processes, and a violation is replayed twice in
fresh processes, minimised, and written out as a replay file.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True
import plan as planlib  # noqa: E402
import props  # noqa: E402


def log(*a):
    print(*a, flush=True)


def known_findings(prop):
    """Lines `finding: property=<id> kind=<kind> text=<substring> what=<description>` of the committed file."""
    res = []
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: property=%s ' % prop):
                res.append(dict(w.split('=', 1) for w in line[9:].strip().split(' ; ')))
    return res


class Build:
    def __init__(self, variant):
        base = os.path.join(HERE, 'build')
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix='run-', dir=base)
        self.variant = variant

    def make(self):
        env = dict(os.environ, SIM_OBJECTS=os.path.join(HERE, 'build', 'objects'))
        r = subprocess.run(['bash', os.path.join(HERE, 'sim', 'build.sh'), self.variant, self.dir], env=env, capture_output=True, text=True)
        if r.returncode:
            log('the code under test does not build:\n' + (r.stdout + r.stderr)[-3000:])
            return False
        return True

    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Explore:
    """Runs FROM..TO of one seed, cut into small batches, by WORKERS processes at a time."""

    def __init__(self, sim, prop, seed, runs, deadline, folder, workers=None):
        self.sim, self.prop, self.seed, self.deadline, self.folder = sim, prop, seed, deadline, folder
        self.workers = workers or max(1, min(8, os.cpu_count() or 1))
        size = max(1, min(2000, runs//(self.workers*6) or 1))
        self.todo = [(a, min(a + size, runs)) for a in range(0, runs, size)][::-1]
        self.lock, self.stop, self.bad, self.out, self.cut = threading.Lock(), False, [], [], False
        self.viol = []

    def work(self):
        while True:
            with self.lock:
                if self.stop or not self.todo:
                    return
                if time.time() > self.deadline:
                    self.cut = True
                    return
                a, b = self.todo.pop()
            f = os.path.join(self.folder, 'out-%d' % a)
            try:
                r = subprocess.run([self.sim.exe, 'batch', self.prop, str(self.seed), str(a), str(b), f], env=self.sim.env, capture_output=True, text=True, timeout=600)
                lines = open(f).read().splitlines() if os.path.exists(f) else []
            except subprocess.TimeoutExpired:
                lines, r = [], None
            if not lines or lines[-1] != 'END':
                with self.lock:
                    self.bad.append('batch %d..%d did not come to its end: %s' % (a, b, (r.stderr if r else 'time')[-300:]))
                    self.stop = True
                return
            os.unlink(f)
            with self.lock:
                self.out.append(lines)
                for line in lines:
                    w = line.split('\t')
                    if w[0] == 'VIOL':
                        self.viol.append((int(w[1]), w[2], w[4], a, b))
                        self.stop = True
                    elif w[0] == 'NONDET':
                        self.bad.append('run %s is not repeatable' % w[1])
                        if self.prop == 'C15':
                            self.viol.append((int(w[1]), 'not-repeatable', 'the same execution, done again in the same process image, took another course', a, b))

    def run(self):
        ts = [threading.Thread(target=self.work) for _ in range(self.workers)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.viol.sort()

    def summary(self):
        runs, stats, fired, count, cov, hashes = [0]*6, [0]*6, [0]*16, {}, None, set()
        nh = 0
        for lines in self.out:
            for line in lines:
                w = line.split('\t')
                if w[0] == 'RUNS':
                    runs = [x + int(y) for x, y in zip(runs, w[1:])]
                elif w[0] == 'STATS':
                    v = [int(y) for y in w[1:]]
                    stats = [x + y for x, y in zip(stats[:5], v[:5])] + [max(stats[5], v[5])]
                elif w[0] == 'FIRED':
                    fired = [x + int(y) for x, y in zip(fired, w[1:])]
                elif w[0] == 'COUNT':
                    count[w[1]] = count.get(w[1], 0) + int(w[2])
                elif w[0] == 'COV' and len(w) > 2:
                    bits = [c == '1' for c in w[2]]
                    cov = bits if cov is None or len(cov) != len(bits) else [a or b for a, b in zip(cov, bits)]
                elif w[0] == 'HASHES':
                    hashes.update(w[1:])
                    nh += len(w) - 1
        return {'runs': runs, 'stats': stats, 'fired': fired, 'count': count, 'cov': cov or [], 'distinct': len(hashes), 'hashed': nh}


FIRED = ['one allocation failed', 'memory exhausted from an allocation on', 'stream write failed', None,
         'solver: info>0, finite garbage', 'solver: info>0, NaN', 'solver: info>0, huge values', 'solver: info<0, untouched', 'solver: legal rounding jitter', 'solver: info>0, result intact']


def evidence(prop, tier, seed, ex, sim, wall, search_s, violations, samples, spec):
    s = ex.summary()
    c = {'evaluations': s['runs'][0], 'distinct_nontrivial': s['distinct'],
         'rule': 'One evaluation is one simulated run: a history of calls, faults, heap behaviour and schedule, all drawn from (VERIF_SEED, index). ' + spec['rule'] +
                 ' Distinct: the hash over the executed calls with their outcome, the faults that fired, the task switches and the instrumented steps differs from that of every other run.',
         'samples': samples,
         'simulated_runs': s['runs'][0], 'executions_including_reference_runs': s['runs'][1], 'runs_per_hour': int(s['runs'][0]*3600/max(search_s, .001)),
         'calls_into_the_library': s['count'].get('calls', 0),
         'simulated_time': '%d instrumented steps of the code under test (the library has no clock; a step is one edge of its control flow)' % s['stats'][3],
         'faults_configured': s['runs'][3],
         'faults_injected': {n: v for n, v in zip(FIRED, s['fired']) if n},
         'allocations_simulated': s['stats'][0], 'solver_calls_simulated': s['stats'][1], 'stream_writes_simulated': s['stats'][2],
         'task_switches': s['stats'][4], 'caller_threads': s['runs'][4], 'peak_live_bytes': s['stats'][5],
         'runs_repeated_to_prove_determinism': s['runs'][5],
         'edges_of_the_code_under_test': {'reached': sum(s['cov']), 'of': len(s['cov'])},
         'probes': {k: v for k, v in s['count'].items() if v},
         'real_components': 'all of cpp/*.cpp and cpp/*.h of the working tree, and the installed LAPACK behind the solver seam',
         'stubs': spec['stubs'], 'search_cut_by_time': ex.cut}
    write_evidence(prop, {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': c, 'assumptions': spec['assumptions'], 'wall_s': round(wall, 2), 'violations': violations})


def write_evidence(prop, e):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(e, f, indent=1)
        f.write('\n')
    os.replace(path + '.tmp', path)


def write_replay(prop, seed, index, text, result):
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', '%s-%d-%s.plan' % (prop, seed, index))
    with open(path, 'w') as f:
        f.write(text + '# %s: %s\n' % (result['kind'], result['text']))
    return path


def run_batch(sim, text):
    """Executes the batch of runs in which a violation was seen, in one process as then."""
    prop, seed, lo, hi, index = text.splitlines()[1].split()[1:6]
    f = os.path.join(sim.scratch, 'again')
    subprocess.run([sim.exe, 'batch', prop, seed, lo, hi, f], env=sim.env, capture_output=True, text=True, timeout=600)
    for line in open(f).read().splitlines() if os.path.exists(f) else []:
        w = line.split('\t')
        if w[0] == 'VIOL' and w[1] == index:
            return {'status': 1, 'kind': w[2], 'op': w[3], 'text': w[4]}
        if w[0] == 'NONDET' and w[1] == index and prop == 'C15':
            return {'status': 1, 'kind': 'not-repeatable', 'op': '', 'text': 'not repeatable'}
    return {'status': 0, 'kind': '', 'op': '', 'text': 'no violation'}


def simulate(prop, a):
    spec = props.SPECS[prop]
    t0 = time.time()
    b = Build(spec['variant'])
    try:
        if not b.make():
            return 2
        sim = planlib.Sim(b.dir, b.dir)
        if a.replay:
            text = open(a.replay).read()
            r = run_batch(sim, text) if text.startswith('sigrid-sim-batch') else sim.run(text, a.trace)
            if r['status'] == 1:
                log('%s in call %s: %s' % (r['kind'], r['op'], r['text']))
                log('VIOLATION property=%s replay=%s' % (prop, a.replay))
                return 1
            log('no violation' if r['status'] == 0 else 'error: ' + r['text'])
            return 0 if r['status'] == 0 else 2
        runs = a.runs or spec[a.tier]
        t1 = time.time()
        log('property %s, %s tier, seed %d: %d simulated runs (build %.1f s)' % (prop, a.tier, a.seed, runs, t1 - t0))
        ex = Explore(sim, prop, a.seed, runs, t0 + (420 if a.tier == 'quick' else a.seconds or 6*3600), b.dir, a.workers)
        ex.run()
        search_s = time.time() - t1
        samples = [sim.gen(prop, a.seed, i) for i in range(2)]
        if ex.bad and not ex.viol:
            log('\n'.join(ex.bad[:5]))
            return 2
        known, confirmed, loose = known_findings(prop), None, None
        for index, kind, text, lo, hi in ex.viol[:8]:
            plan = sim.gen(prop, a.seed, index)
            x, y = sim.run(plan), sim.run(plan)
            if x['status'] != 1 or x['hash'] != y['hash'] or x['text'] != y['text']:
                # what the code under test did depends on more than the plan: the whole process that found it is the replay
                log('run %d: %s; alone, in a process of its own, it is different (%s / %s)' % (index, text, x['text'], y['text']))
                what = 'sigrid-sim-batch 1\nbatch %s %d %d %d %d\n' % (prop, a.seed, lo, hi, index)
                z = run_batch(sim, what)
                if z['status'] == 1 or (loose is None and kind not in ('died', 'hang')):
                    known_here = [f for f in known if f.get('kind') == kind and f.get('text', '') in text]
                    if not known_here:
                        loose = (index, what, {'kind': kind, 'text': text})
                continue
            k = [f for f in known if f.get('kind') == x['kind'] and f.get('text', '') in x['text']]
            if k:
                log('KNOWN-FINDING: property=%s %s' % (prop, k[0].get('what', kind)))
                continue
            confirmed = (index, plan, x)
            break
        violations = 0
        if loose and not confirmed:
            violations = 1
            index, what, x = loose
            path = write_replay(prop, a.seed, index, what, x)
        elif confirmed:
            index, plan, x = confirmed
            violations = 1
            log('run %d: %s in call %s: %s' % (index, x['kind'], x['op'], x['text']))
            best = planlib.minimise(sim, plan, x['kind'], 45 if a.tier == 'quick' else 300)
            y, z = sim.run(best), sim.run(best)
            if y['status'] != 1 or y != z:
                best, y = plan, x
            path = write_replay(prop, a.seed, index, best, y)
            log('minimised to %d calls and %d faults: %s' % (len(planlib.Plan(best).ops), len(planlib.Plan(best).faults), y['text']))
            samples.insert(0, best)
        evidence(prop, a.tier, a.seed, ex, sim, time.time() - t0, search_s, violations, samples, spec)
        if violations:
            log('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        if ex.viol and not known:
            return 2
        s = ex.summary()
        log('%s holds on %d runs (%d distinct), %d calls, faults fired: %s; %.1f s' % (prop, s['runs'][0], s['distinct'], s['count'].get('calls', 0),
            ', '.join('%s %d' % (n, v) for n, v in zip(FIRED, s['fired']) if n and v) or 'none', time.time() - t0))
        return 0
    finally:
        b.remove()


def main():
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    p.add_argument('--runs', type=int, default=0)
    p.add_argument('--seconds', type=int, default=0)
    p.add_argument('--workers', type=int, default=0)
    p.add_argument('--replay')
    p.add_argument('--trace')
    a = p.parse_args()
    if a.property not in props.SPECS:
        log('unknown property ' + a.property)
        return 2
    if props.SPECS[a.property].get('harness') == 'python':
        import pycheck
        return pycheck.main(a, sys.modules[__name__])
    return simulate(a.property, a)


if __name__ == '__main__':
    sys.exit(main())
