"""Decides C18 with the simulator of the Python class (py/pysim.py)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import plan as planlib
import props

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(HERE, 'py', 'pysim.py')
PY = sys.executable or 'python3'


def run(cmd, timeout=300):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MALLOC_PERTURB_='165', OPENBLAS_NUM_THREADS='1')
    return subprocess.run([PY, SIM] + [str(c) for c in cmd], capture_output=True, text=True, timeout=timeout, env=env)


def replay(pkg, folder, text):
    f = os.path.join(folder, 'plan-%d' % threading.get_ident())
    with open(f, 'w') as h:
        h.write(text)
    r = run(['replay', pkg, f])
    for line in r.stdout.splitlines():
        if line.startswith('RESULT\t'):
            return json.loads(line[7:])
    return {'v': None, 'hash': 'error ' + r.stderr[-300:], 'count': {}}


def minimise(pkg, folder, text, kind, seconds):
    deadline = time.time() + seconds
    lines = text.strip().splitlines()
    head, ops = json.loads(lines[0]), [json.loads(x) for x in lines[1:]]

    def dump(h, o):
        return '\n'.join([json.dumps(h)] + [json.dumps(x) for x in o]) + '\n'

    def bad(h, o):
        r = replay(pkg, folder, dump(h, o))
        return bool(r['v']) and r['v'][0] == kind
    ops = planlib.chunks_out(ops, lambda o: bad(head, o), deadline)
    ts = sorted(set(o['t'] for o in ops))
    if len(ts) < head['threads'] and time.time() < deadline:
        h, o = dict(head, threads=max(1, len(ts))), [dict(x, t=ts.index(x['t'])) for x in ops]
        if bad(h, o):
            head, ops = h, o
    for i in range(len(ops)):
        for key, value in (('fault', None), ('gcAt', None), ('layout', ['c', 'c']), ('dtype', ['<f8', '<f8']), ('after', 'keep'), ('kind', 0), ('n0', 2), ('n1', 2)):
            if key in ops[i] and ops[i][key] != value and time.time() < deadline:
                o = [dict(x) for x in ops]
                if value is None:
                    del o[i][key]
                else:
                    o[i][key] = value
                if bad(head, o):
                    ops = o
    return dump(head, ops)


def main(a, check):
    log, prop = check.log, 'C18'
    spec = props.SPECS[prop]
    t0 = time.time()
    base = os.path.join(HERE, 'build')
    os.makedirs(base, exist_ok=True)
    folder = tempfile.mkdtemp(prefix='run-', dir=base)
    pkg = os.path.join(folder, 'pkg')
    try:
        r = subprocess.run(['bash', os.path.join(HERE, 'py', 'build.sh'), pkg], capture_output=True, text=True)
        if r.returncode:
            log('the code under test does not build:\n' + (r.stdout + r.stderr)[-3000:])
            return 2
        if a.replay:
            x = replay(pkg, folder, open(a.replay).read())
            if x['v']:
                log('%s: %s' % tuple(x['v']))
                log('VIOLATION property=%s replay=%s' % (prop, a.replay))
                return 1
            log('no violation')
            return 2 if x['hash'].startswith('error') else 0
        runs = a.runs or spec[a.tier]
        deadline = t0 + (420 if a.tier == 'quick' else a.seconds or 6*3600)
        t1 = time.time()
        log('property %s, %s tier, seed %d: %d simulated runs (build %.1f s)' % (prop, a.tier, a.seed, runs, t1 - t0))
        workers = a.workers or max(1, min(8, os.cpu_count() or 1))
        size = max(1, min(1000, runs//(workers*5) or 1))
        todo = [(x, min(x + size, runs)) for x in range(0, runs, size)][::-1]
        lock, res, bad, state = threading.Lock(), [], [], {'stop': False, 'cut': False}

        def work():
            while True:
                with lock:
                    if state['stop'] or not todo:
                        return
                    if time.time() > deadline:
                        state['cut'] = True
                        return
                    lo, hi = todo.pop()
                f = os.path.join(folder, 'out-%d' % lo)
                try:
                    p = run(['batch', pkg, a.seed, lo, hi, f], 900)
                    lines, err = (open(f).read().splitlines() if os.path.exists(f) else []), p.stderr
                except subprocess.TimeoutExpired:
                    lines, err = [], 'time'
                with lock:
                    if not lines or lines[-1] != 'END':
                        bad.append('batch %d..%d did not come to its end: %s' % (lo, hi, err[-400:]))
                        state['stop'] = True
                        return
                    for line in lines[:-1]:
                        d = json.loads(line)
                        res.append(d)
                        if d['v']:
                            state['stop'] = True
                        if d.get('repeat') is False:
                            bad.append('run %d is not repeatable' % d['i'])
        ts = [threading.Thread(target=work) for _ in range(workers)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        search = time.time() - t1
        viol = sorted((d['i'], d['v']) for d in res if d['v'])
        if bad and not viol:
            log('\n'.join(bad[:5]))
            return 2
        known = check.known_findings(prop)
        confirmed = None
        for i, v in viol[:8]:
            text = run(['gen', a.seed, i]).stdout
            x, y = replay(pkg, folder, text), replay(pkg, folder, text)
            if not x['v'] or x['v'] != y['v']:
                log('run %d: the violation does not replay (%s / %s)' % (i, x['v'], y['v']))
                continue
            k = [f for f in known if f.get('kind') == x['v'][0] and f.get('text', '') in x['v'][1]]
            if k:
                log('KNOWN-FINDING: property=%s %s' % (prop, k[0].get('what', v)))
                continue
            confirmed = (i, text, x)
            break
        samples = [run(['gen', a.seed, i]).stdout for i in range(2)]
        path = None
        if confirmed:
            i, text, x = confirmed
            log('run %d: %s: %s' % (i, x['v'][0], x['v'][1]))
            best = minimise(pkg, folder, text, x['v'][0], 45 if a.tier == 'quick' else 300)
            y, z = replay(pkg, folder, best), replay(pkg, folder, best)
            if not y['v'] or y['v'] != z['v']:
                best, y = text, x
            path = check.write_replay(prop, a.seed, i, best, {'kind': y['v'][0], 'text': y['v'][1]})
            log('minimised to %d calls: %s' % (len(best.strip().splitlines()) - 1, y['v'][1]))
            samples.insert(0, best)
        count = {}
        for d in res:
            for k, v in d['count'].items():
                count[k] = count.get(k, 0) + v
        c = {'evaluations': len(res), 'distinct_nontrivial': len(set(d['hash'] for d in res)),
             'rule': 'One evaluation is one simulated run: several caller threads with several objects each, all calls, faults, array layouts, turns and collections drawn from (VERIF_SEED, index). ' + spec['rule'] +
                     ' Distinct: the hash over the calls with their outcome, the turns of the threads and the bits of the results differs from that of every other run.',
             'samples': samples, 'simulated_runs': len(res), 'runs_per_hour': int(len(res)*3600/max(search, .001)),
             'simulated_time': '%d lines of the class executed (it has no clock)' % count.get('lines', 0),
             'faults_injected': {'conversion of an array raises': count.get('fault convert', 0), 'numpy call runs out of memory': count.get('fault numpy', 0),
                                 'collector runs inside a call': count.get('gc inside a call', 0)},
             'task_switches': count.get('switches', 0), 'caller_threads': sum(d['threads'] for d in res),
             'runs_repeated_to_prove_determinism': sum('repeat' in d for d in res),
             'probes': count, 'real_components': 'py/*.py and all of cpp/ of the working tree, numpy, LAPACK',
             'stubs': spec['stubs'], 'search_cut_by_time': state['cut']}
        check.write_evidence(prop, {'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration', 'coverage': c, 'assumptions': spec['assumptions'],
                                    'wall_s': round(time.time() - t0, 2), 'violations': 1 if confirmed else 0})
        if confirmed:
            log('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        if viol and not known:
            return 2
        log('%s holds on %d runs (%d distinct), %d results compared, %d faults; %.1f s' % (prop, len(res), c['distinct_nontrivial'], count.get('results compared', 0),
            count.get('fault convert', 0) + count.get('fault numpy', 0), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(folder, ignore_errors=True)
