#!/usr/bin/env python3
"""Simulator for the Python class of sigrid.

pysim.py batch PKGDIR SEED FROM TO OUT | gen SEED INDEX | replay PKGDIR FILE

PKGDIR holds the package `sigrid` (the Python files of the working tree and the library built from it). A run executes
a plan (JSON): calls of several caller threads on several objects. What is simulated: the order of everything (real
threads that pass a baton, turns at lines of the class), when the garbage collector runs, what happens to arrays after
the calls, failing conversions and failing numpy allocations.
"""
import ctypes
import gc
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import threading

sys.dont_write_bytecode = True
import numpy as np  # noqa: E402

LAYOUTS = ['c', 'f', 'neg', 'slice', 'transposed', 'strided', 'readonly', 'broadcast', 'offset']
DTYPES = ['<f8', '>f8', '<f4', '<i4', '<i8', 'longdouble', '>i2', '<f2', 'uint8']


# ---------------------------------------------------------------- plans
def generate(seed, index):
    r = random.Random('%d/%d' % (seed, index))
    threads = r.choice([1, 1, 1, 2, 2, 3])
    ops, n = [], 0
    faults = r.random() < .5
    for t in range(threads):
        objs = {}
        for _ in range(r.randint(6, 26)):
            n += 1
            o = r.randint(0, 2)
            op = {'id': n, 't': t, 'obj': o, 'seed': r.randrange(1 << 30)}
            st = objs.get(o)
            if st is None:
                op['op'] = 'NEW'
                objs[o] = {'d': 0, 's': 0, 'c': 0}
            else:
                want = ['DST'] * (1 if st['d'] else 6) + ['SRC'] * (1 if st['s'] else 6) + ['COMP'] * (6 if st['d'] and st['s'] and not st['c'] else 1) + \
                       ['APPLY'] * (8 if st['c'] else 1) + ['DEL', 'GC', 'MUT', 'CYCLE']
                k = r.choice(want)
                op['op'] = k
                if k == 'DST':
                    st['d'], st['c'] = 1, 0
                elif k == 'SRC':
                    st['s'], st['c'] = 1, 0
                elif k == 'COMP':
                    st['c'] = st['d'] and st['s']
                elif k == 'DEL':
                    objs[o] = None
            if op['op'] in ('DST', 'SRC', 'APPLY'):
                op['n0'], op['n1'] = r.randint(2, 6), r.randint(2, 6)
                op['layout'] = [r.choice(LAYOUTS), r.choice(LAYOUTS)]
                op['dtype'] = [r.choice(DTYPES), r.choice(DTYPES)] if r.random() < .6 else ['<f8', '<f8']
                op['kind'] = r.randint(0, 4)
                op['after'] = r.choice(['keep', 'spoil', 'drop', 'drop'])
                op['period'] = r.choice(['list', 'tuple', 'array', 'ints'])
            if faults and r.random() < .2:
                op['fault'] = r.choice([{'kind': 'convert', 'arg': r.randint(0, 1), 'exc': r.choice(['MemoryError', 'ValueError', 'KeyboardInterrupt'])},
                                        {'kind': 'numpy', 'nth': r.randint(1, 5)}])
            if r.random() < .3:
                op['gcAt'] = r.randint(1, 12)  # the collector runs at this line of the class within the call
            ops.append(op)
    # the order over all threads is the scheduler's; ops keep their order within a thread
    return {'format': 'sigrid-pysim-plan 1', 'prop': 'C18', 'seed': seed, 'index': index, 'threads': threads, 'sched': r.randrange(1 << 30), 'turn': r.choice([2, 5, 20]), 'ops': ops}


# ---------------------------------------------------------------- inputs
def grid(op):
    """Coordinates of a grid, small exactly representable numbers, as nested float arrays."""
    r = random.Random(op['seed'])
    n0, n1, k = op['n0'], op['n1'], op['kind']
    x0, y0, h, g = r.randint(0, 12), r.randint(0, 12), r.choice([4, 8, 12]), r.choice([4, 8, 12])
    x, y = np.zeros((n0, n1)), np.zeros((n0, n1))
    for i in range(n0):
        for j in range(n1):
            x[i, j], y[i, j] = x0 + h * i + .25 * (k % 3), y0 + g * j + .5 * (k % 2)
            if k == 1:
                x[i, j] += j
            elif k == 2:
                x[i, j] += r.randint(0, 1)
                y[i, j] += r.randint(0, 1)
            elif k == 3:  # far away: overlaps nothing, or little
                x[i, j] += 40
            elif k == 4:
                y[i, j] += i
    return x, y


def lay(values, layout, dtype, r):
    """An array with these values in the given layout; integers in exotic types are kept in range."""
    v = np.array(values).astype(dtype)
    n0, n1 = v.shape
    junk = 111
    if layout == 'c':
        return v.copy()
    if layout == 'f':
        return np.asfortranarray(v)
    if layout == 'neg':
        return v[::-1, ::-1].copy()[::-1, ::-1]
    if layout == 'slice':
        b = np.full((n0 + 2, n1 + 3), junk, dtype)
        b[1:n0 + 1, 2:n1 + 2] = v
        return b[1:n0 + 1, 2:n1 + 2]
    if layout == 'transposed':
        return v.T.copy().T
    if layout == 'strided':
        b = np.full((2 * n0, 3 * n1), junk, dtype)
        b[::2, 1::3] = v
        return b[::2, 1::3]
    if layout == 'readonly':
        v = v.copy()
        v.flags.writeable = False
        return v
    if layout == 'broadcast':  # same row everywhere where the values allow it
        if n0 and (v == v[0]).all():
            return np.broadcast_to(v[0].copy(), v.shape)
        return v.copy()
    b = np.full(n0 * n1 + 1, junk, dtype)  # offset
    b[1:] = v.ravel()
    return b[1:].reshape(n0, n1)


def plain(a):
    return np.array([[float(x) for x in row] for row in a], np.float64)


EXC = {'MemoryError': MemoryError, 'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt}


class Failing:
    """Looks like an array, fails when it is converted."""

    def __init__(self, a, exc):
        self.a, self.exc, self.shape, self.dtype, self.ndim = a, exc, a.shape, a.dtype, 2

    def __array__(self, *args, **kw):
        raise EXC[self.exc]('simulated')

    def __len__(self):
        return len(self.a)


class Violation(Exception):
    def __init__(self, kind, text):
        Exception.__init__(self, text)
        self.kind, self.text = kind, text


class NumpyProxy:
    """numpy as the class sees it: a drawn call fails."""

    def __init__(self, sim):
        self.__dict__['_sim'] = sim

    def __getattr__(self, name):
        v = getattr(np, name)
        if isinstance(v, type) or not callable(v):
            return v
        sim = self._sim

        def call(*a, **k):
            t = sim.current()
            if t is not None and t.npLeft > 0:
                t.npLeft -= 1
                if t.npLeft == 0:
                    t.fired = True
                    sim.count['fault numpy'] = sim.count.get('fault numpy', 0) + 1
                    raise MemoryError('simulated')
            return v(*a, **k)
        return call


class LibProxy:
    """The library as the class sees it: calls are recorded, handles are accounted for."""

    def __init__(self, sim, lib):
        self.__dict__['_sim'], self.__dict__['_lib'] = sim, lib

    def __getattr__(self, name):
        f = getattr(self._lib, name)
        if not name.startswith('SgConserveInterp2D_'):
            return f
        sim = self._sim

        def call(*a):
            sim.count['C calls of the class'] = sim.count.get('C calls of the class', 0) + 1
            h = getattr(a[0], '_obj', None) if a else None
            if h is None and a and hasattr(a[0], 'contents'):
                h = a[0].contents
            v = getattr(h, 'value', None)
            if name.endswith('_del') and h is not None:
                if v not in sim.live:
                    raise sim.fatal('double-delete', 'the class deletes a library object it does not own')
                sim.live.discard(v)
            elif not name.endswith('_new') and h is not None and v not in sim.live:
                raise sim.fatal('dead-object', '%s is called for a library object that is not alive' % name)
            res = f(*a)
            if name.endswith('_new') and h is not None:
                sim.live.add(h.value)
            return res
        return call


class Task:
    def __init__(self, i):
        self.i, self.go, self.done, self.npLeft, self.fired, self.lines, self.gcAt, self.ident = i, threading.Semaphore(0), False, 0, False, 0, 0, None


class Sim:
    def __init__(self, pkgdir):
        self.count, self.live, self.tasks, self.violation, self.trail = {}, set(), [], None, []
        sys.path.insert(0, pkgdir)
        import sigrid
        self.lib = sigrid.so
        sigrid.so = LibProxy(self, self.lib)
        m = importlib.import_module('sigrid.conserveInterp2D')
        self.file = m.__file__
        for k, v in list(vars(m).items()):
            if v is np:
                setattr(m, k, NumpyProxy(self))
        self.cls = m.ConserveInterp2D

    def fatal(self, kind, text):
        if not self.violation:
            self.violation = (kind, text)
        return Violation(kind, text)

    def current(self):
        i = threading.get_ident()
        for t in self.tasks:
            if t.ident == i:
                return t
        return None

    # ------------------------------------------------ reference: the C interface, called with nothing in between
    def reference(self, m, data):
        lib, h = self.lib, ctypes.c_void_p(0)
        P = ctypes.POINTER(ctypes.c_double)

        def two(x, y):
            return (P * 2)(x.ctypes.data_as(P), y.ctypes.data_as(P))
        lib.SgConserveInterp2D_new(ctypes.byref(h))
        (sx, sy, per), (dx, dy) = m['src'], m['dst']
        lib.SgConserveInterp2D_setSrcGrid(ctypes.byref(h), (ctypes.c_int * 2)(*sx.shape), (ctypes.c_int * 2)(*per), two(sx, sy))
        lib.SgConserveInterp2D_setDstGrid(ctypes.byref(h), (ctypes.c_int * 2)(*dx.shape), two(dx, dy))
        lib.SgConserveInterp2D_computeWeights(ctypes.byref(h))
        out = np.zeros((dx.shape[0] - 1, dx.shape[1] - 1))
        lib.SgConserveInterp2D_apply(ctypes.byref(h), data.ctypes.data_as(P), out.ctypes.data_as(P))
        lib.SgConserveInterp2D_del(ctypes.byref(h))
        return out

    # ------------------------------------------------ schedule
    def turn(self, task):
        """Maybe somebody else's turn. Called with the baton in hand."""
        others = [t for t in self.tasks if not t.done and t is not task]
        if others and self.rng.randrange(self.plan['turn']) == 0:
            t = self.rng.choice(others)
            self.count['switches'] = self.count.get('switches', 0) + 1
            self.trail.append('>%d@%d' % (t.i, task.lines))
            t.go.release()
            task.go.acquire()

    def tracer(self, task):
        def local(frame, event, arg):
            if event == 'line' and frame.f_code.co_name != '__del__':
                task.lines += 1
                self.count['lines'] = self.count.get('lines', 0) + 1
                if task.gcAt > 0:
                    task.gcAt -= 1
                    if task.gcAt == 0:
                        self.count['gc inside a call'] = self.count.get('gc inside a call', 0) + 1
                        gc.collect()
                self.turn(task)
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename == self.file else None
        return glob

    def run(self, plan):
        self.plan, self.rng = plan, random.Random(plan['sched'])
        gc.disable()
        self.tasks = [Task(i) for i in range(plan['threads'])]
        ts = []
        for t in self.tasks:
            th = threading.Thread(target=self.thread, args=(t, [o for o in plan['ops'] if o['t'] == t.i]))
            ts.append(th)
            th.start()
        self.tasks[0].go.release()
        for th in ts:
            th.join()
        if not self.violation:
            gc.collect()
            if self.live:
                self.fatal('leak', '%d library objects are alive after their Python objects are gone' % len(self.live))
        return self.violation

    def thread(self, task, ops):
        task.go.acquire()
        task.ident = threading.get_ident()
        objs, keep = {}, []
        try:
            for op in ops:
                if self.violation:
                    break
                self.turn(task)
                self.execute(task, objs, keep, op)
        except Violation:
            pass
        except BaseException as e:  # noqa
            if not self.violation:
                self.violation = ('unexpected-exception', 'operation %d: %s %s' % (op['id'], type(e).__name__, str(e)[:200]))
        sys.settrace(None)
        objs.clear()
        keep.clear()
        op = None
        task.done = True
        rest = [t for t in self.tasks if not t.done]
        if rest:
            rest[self.rng.randrange(len(rest))].go.release()

    # ------------------------------------------------ one call
    def execute(self, task, objs, keep, op):
        k, o = op['op'], objs.get(op['obj'])
        r = random.Random(op['seed'] + 1)
        self.count['op ' + k] = self.count.get('op ' + k, 0) + 1
        if o is None and k != 'NEW':
            return
        f = op.get('fault') or {}
        task.fired, task.npLeft, task.gcAt = False, f.get('nth', 0) if f.get('kind') == 'numpy' else 0, op.get('gcAt', 0)

        def call(fn):
            sys.settrace(self.tracer(task))
            try:
                return True, fn()
            except Violation:
                raise
            except BaseException as e:  # noqa
                return False, e
            finally:
                sys.settrace(None)
                task.npLeft = task.gcAt = 0

        if k == 'NEW':
            ok, v = call(lambda: self.cls())
            if ok:
                objs[op['obj']] = {'py': v, 'dst': None, 'src': None, 'weights': None, 'unsure': False, 'results': []}
            elif not task.fired:
                raise self.fatal('unexpected-exception', 'operation %d: the constructor raises %r' % (op['id'], v))
            self.note(op, ok)
            return
        if k == 'DEL':
            del objs[op['obj']]
            self.note(op, True)
            return
        if k == 'GC':
            gc.collect()
            return
        if k == 'CYCLE':
            o['py'].itself = o['py']  # only the collector can take it from now on
            return
        if k == 'MUT':
            for a, want in o['results']:
                a[...] = -7777.
                want[...] = -7777.
            return
        if k in ('DST', 'SRC'):
            x, y = grid(op)
            dt = list(op['dtype'])
            arrs = [lay(x, op['layout'][0], dt[0], r), lay(y, op['layout'][1], dt[1], r)]
            want = [plain(a) for a in arrs]
            args = list(arrs)
            failing = f.get('kind') == 'convert'
            if failing:
                args[f['arg']] = Failing(arrs[f['arg']], f['exc'])
                self.count['fault convert'] = self.count.get('fault convert', 0) + 1
            per = [r.randint(0, 1), r.randint(0, 1)]
            p = {'list': [bool(per[0]), bool(per[1])], 'tuple': (bool(per[0]), bool(per[1])), 'array': np.array(per, bool), 'ints': per}[op['period']]
            ok, v = call((lambda: o['py'].setDstGrid(args[0], args[1])) if k == 'DST' else (lambda: o['py'].setSrcGrid(p, args[0], args[1])))
            if failing and ok:
                raise self.fatal('exception-lost', 'operation %d: the conversion of an array failed, the call reports success' % op['id'])
            if not ok and not failing and not task.fired:
                raise self.fatal('unexpected-exception', 'operation %d: %s %r' % (op['id'], k, v))
            for a, w in zip(arrs, want):
                if not np.array_equal(plain(a), w):
                    raise self.fatal('input-modified', 'operation %d: an array of the caller was modified' % op['id'])
            if ok:
                o['dst' if k == 'DST' else 'src'] = tuple(want) if k == 'DST' else (want[0], want[1], per)
                o['weights'], o['unsure'] = None, False
            else:
                o['unsure'] = True
            if op['after'] == 'spoil':
                for a in arrs:
                    if a.flags.writeable:
                        a[...] = 77
            elif op['after'] == 'keep':
                keep.append(arrs)
            self.note(op, ok)
        elif k == 'COMP':
            ok, v = call(lambda: o['py'].computeWeights())
            legal = o['dst'] is not None and o['src'] is not None
            if ok and not legal:
                raise self.fatal('exception-missing', 'operation %d: computeWeights without grids reports success' % op['id'])
            if not ok and not task.fired:
                if not isinstance(v, RuntimeError) or (legal and not o['unsure']):
                    raise self.fatal('unexpected-exception', 'operation %d: computeWeights raises %r' % (op['id'], v))
            if ok:
                o['weights'] = {'src': o['src'], 'dst': o['dst']}
                o['unsure'] = False
            self.note(op, ok)
        elif k == 'APPLY':
            m = o['weights']
            base = o['src'] or (np.zeros((op['n0'], op['n1'])),)
            shape = (base[0].shape[0] - 1, base[0].shape[1] - 1)
            rr = random.Random(op['seed'])
            if op['kind'] == 0:
                vals = np.full(shape, float(rr.randint(0, 9)))
            else:
                vals = np.array([[float(rr.randint(0, 99)) for _ in range(shape[1])] for _ in range(shape[0])])
            if m is not None and m['src'][0].shape != base[0].shape:
                raise self.fatal('model', 'weights without grid')
            a = lay(vals, op['layout'][0], op['dtype'][0], r)
            want = plain(a)
            failing = f.get('kind') == 'convert'
            arg = Failing(a, f['exc']) if failing else a
            ok, v = call(lambda: o['py'].apply(arg))
            if not np.array_equal(plain(a), want):
                raise self.fatal('input-modified', 'operation %d: the data of the caller were modified' % op['id'])
            if ok and m is None:
                raise self.fatal('exception-missing', 'operation %d: apply without weights for the grids in force reports success' % op['id'])
            if ok and failing:
                raise self.fatal('exception-lost', 'operation %d: the conversion of the data failed, the call reports success' % op['id'])
            if not ok and not task.fired and not failing:
                if not isinstance(v, RuntimeError) or (m is not None and not o['unsure']):
                    raise self.fatal('unexpected-exception', 'operation %d: apply raises %r' % (op['id'], v))
            if ok:
                if not isinstance(v, np.ndarray) or v.dtype != np.float64 or v.shape != (m['dst'][0].shape[0] - 1, m['dst'][0].shape[1] - 1):
                    raise self.fatal('wrong-array', 'operation %d: the result has shape %s and type %s' % (op['id'], getattr(v, 'shape', None), getattr(v, 'dtype', None)))
                ref = self.reference(m, want)
                if not np.allclose(v, ref, rtol=1e-11, atol=1e-11):
                    i = np.unravel_index(np.argmax(~np.isclose(v, ref, rtol=1e-11, atol=1e-11)), ref.shape)
                    raise self.fatal('wrong-result', 'operation %d: the result in cell %d %d is %.12g, the library gives %.12g' % (op['id'], i[0], i[1], v[i], ref[i]))
                for b, _ in o['results']:
                    if np.shares_memory(b, v):
                        raise self.fatal('shared-result', 'operation %d: the result shares its memory with an earlier one' % op['id'])
                if np.shares_memory(a, v):
                    raise self.fatal('shared-result', 'operation %d: the result shares its memory with the data of the caller' % op['id'])
                self.count['results compared'] = self.count.get('results compared', 0) + 1
                self.count['covered cells'] = self.count.get('covered cells', 0) + int((ref != 0).sum())
                o['results'].append((v, v.copy()))
                self.trail.append(hashlib.sha1(v.tobytes()).hexdigest()[:8])
            self.note(op, ok)
        # whatever was called, nothing that was handed out before may have changed
        for q in objs.values():
            if q:
                for b, w in q['results']:
                    if not np.array_equal(b, w):
                        raise self.fatal('result-modified', 'operation %d changed a result handed out earlier' % op['id'])

    def note(self, op, ok):
        self.trail.append('%d:%s:%d:%d' % (op['t'], op['op'], op['obj'], ok))


def one(pkgdir, plan):
    """Runs a plan in a child process; what it reports."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            signal.alarm(60)
            n = os.open('/dev/null', os.O_WRONLY)
            os.dup2(n, 1)
            os.dup2(n, 2)
            s = G['sim']
            v = s.run(plan)
            h = hashlib.sha1('|'.join(s.trail + [str(v)]).encode()).hexdigest()[:16]
            os.write(wr, json.dumps({'v': v, 'hash': h, 'count': s.count}).encode())
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    data = b''
    while True:
        b = os.read(rd, 65536)
        if not b:
            break
        data += b
    os.close(rd)
    _, st = os.waitpid(pid, 0)
    if not data:
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
        what = ('hang', 'the run does not end') if sig == signal.SIGALRM else ('crash', 'the process dies with %s' % (signal.Signals(sig).name if sig else 'status %d' % os.WEXITSTATUS(st)))
        return {'v': what, 'hash': what[1], 'count': {}}
    return json.loads(data)


G = {}


def main(a):
    if a[0] == 'gen':
        print(dump(generate(int(a[1]), int(a[2]))))
        return 0
    G['sim'] = Sim(a[1])
    gc.collect()
    gc.freeze()  # what is there already is not simulated
    if a[0] == 'replay':
        r = one(a[1], load(open(a[2]).read()))
        print('RESULT\t' + json.dumps(r))
        return 1 if r['v'] else 0
    seed, lo, hi, out = int(a[2]), int(a[3]), int(a[4]), a[5]
    with open(out, 'w') as f:
        for i in range(lo, hi):
            p = generate(seed, i)
            r = one(a[1], p)
            r['i'], r['threads'], r['ops'], r['faults'] = i, p['threads'], len(p['ops']), sum('fault' in o for o in p['ops'])
            if i % 97 == 0:
                q = one(a[1], p)
                r['repeat'] = q['hash'] == r['hash'] and q['v'] == r['v']
            f.write(json.dumps(r) + '\n')
            if r['v']:
                break
        f.write('END\n')
    return 0


def dump(p):
    head = {k: v for k, v in p.items() if k != 'ops'}
    return '\n'.join([json.dumps(head)] + [json.dumps(o) for o in p['ops']])


def load(text):
    lines = [json.loads(x) for x in text.splitlines() if x.strip() and not x.startswith('#')]
    p = lines[0]
    p['ops'] = lines[1:]
    return p


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
