"""Reading, writing and minimising plans (the replay files of the simulator)."""
import os
import subprocess
import time


class Plan:
    def __init__(self, text):
        self.head, self.ops, self.faults, self.preempts = [], [], [], []
        for line in text.splitlines():
            k = line.split(' ', 1)[0]
            if k == 'op':
                self.ops.append(line.split())
            elif k == 'fault':
                self.faults.append(line.split())
            elif k == 'preempt':
                self.preempts.append(line.split())
            elif line.strip() and not line.startswith('#'):
                self.head.append(line)

    def copy(self):
        p = Plan('')
        p.head, p.ops, p.faults, p.preempts = list(self.head), [list(o) for o in self.ops], [list(f) for f in self.faults], [list(q) for q in self.preempts]
        return p

    def get(self, key):
        for h in self.head:
            if h.split(' ', 1)[0] == key:
                return h.split(' ', 1)[1]
        return ''

    def set(self, key, value):
        self.head = ['%s %s' % (key, value) if h.split(' ', 1)[0] == key else h for h in self.head]

    def text(self):
        ids = set(o[1] for o in self.ops)
        out = []
        for h in self.head:
            out.append(h)
            if h.startswith('sched explicit'):
                out += [' '.join(p) for p in self.preempts]
        for o in self.ops:
            out.append(' '.join(o))
            out += [' '.join(f) for f in self.faults if f[1] == o[1] and f[1] in ids]
        return '\n'.join(out) + '\n'


class Sim:
    """One built variant of the simulator."""

    def __init__(self, folder, scratch):
        self.exe, self.scratch, self.n = os.path.join(folder, 'sim'), scratch, 0
        self.env = dict(os.environ)
        self.env.pop('SIM_NOASLR', None)
        self.env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allow_user_segv_handler=1:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigbus=0:handle_sigill=0:detect_odr_violation=0:allocator_may_return_null=1:log_path=/dev/null:symbolize=0'

    def gen(self, prop, seed, index):
        return subprocess.run([self.exe, 'gen', prop, str(seed), str(index)], capture_output=True, text=True, env=self.env, timeout=60).stdout

    def run(self, text, trace=None):
        self.n += 1
        f = os.path.join(self.scratch, 'plan-%d-%d' % (os.getpid(), self.n))
        with open(f, 'w') as h:
            h.write(text)
        try:
            r = subprocess.run([self.exe, 'replay', f] + ([trace] if trace else []), capture_output=True, text=True, env=self.env, timeout=600)
        finally:
            os.unlink(f)
        for line in r.stdout.splitlines():
            if line.startswith('RESULT\t'):
                w = line.split('\t')
                return {'status': int(w[1]), 'kind': w[2], 'op': w[3], 'text': w[4], 'hash': w[5]}
        return {'status': -1, 'kind': 'no-result', 'op': '', 'text': (r.stdout + r.stderr)[-500:], 'hash': ''}


def chunks_out(items, fails, deadline):
    """ddmin: the smallest list found for which fails(list) still holds."""
    n = 2
    while items and time.time() < deadline:
        size = max(1, len(items)//n)
        hit = False
        i = 0
        while i < len(items) and time.time() < deadline:
            rest = items[:i] + items[i + size:]
            if fails(rest):
                items, hit = rest, True
            else:
                i += size
        if size == 1 and not hit:
            break
        if size > 1:
            n = min(len(items), n*2) or 1
    return items


def minimise(sim, text, kind, seconds):
    """Smallest plan found that still ends in the same kind of violation."""
    deadline = time.time() + seconds
    best = Plan(text)

    def bad(p):
        r = sim.run(p.text())
        return r['status'] == 1 and r['kind'] == kind
    if best.get('sched').startswith('random') and int(best.get('threads') or 1) > 1:
        tr = os.path.join(sim.scratch, 'trace-%d' % os.getpid())
        sim.run(best.text(), tr)
        try:
            q = Plan(open(tr).read())
            if bad(q):
                best = q
            os.unlink(tr)
        except OSError:
            pass

    def with_ops(ops):
        p = best.copy()
        p.ops = ops
        return p

    def with_faults(fs):
        p = best.copy()
        p.faults = fs
        return p

    def with_preempts(ps):
        p = best.copy()
        p.preempts = ps
        return p
    for _ in range(3):
        size = (len(best.ops), len(best.faults), len(best.preempts))
        # whole threads, whole handles, single calls, faults, preemptions
        for key in (lambda o: o[2], lambda o: (o[2], o[3])):
            for g in sorted(set(key(o) for o in best.ops)):
                if time.time() > deadline:
                    break
                p = with_ops([o for o in best.ops if key(o) != g])
                if p.ops and bad(p):
                    best = p
        best = with_ops(chunks_out(best.ops, lambda x: bool(x) and bad(with_ops(x)), deadline))
        ids = set(o[1] for o in best.ops)
        best = with_faults(chunks_out([f for f in best.faults if f[1] in ids], lambda x: bad(with_faults(x)), deadline))
        best = with_preempts(chunks_out(best.preempts, lambda x: bad(with_preempts(x)), deadline))
        if size == (len(best.ops), len(best.faults), len(best.preempts)):
            break
    for key, value in (('heap', '0 0 0 1'), ('buf', '0'), ('repeat', '1'), ('frame', '0 1'), ('scale', '2')):
        if time.time() < deadline and best.get(key) and best.get(key) != value:
            p = best.copy()
            p.set(key, value)
            if bad(p):
                best = p
    for i, o in enumerate(best.ops):  # smaller grids
        if o[4] in ('C_SRC', 'C_DST', 'F_SRC', 'N_SRC', 'N_DST', 'P_GRID', 'V_GRID'):
            for a in (6, 7):
                for v in range(2, int(o[a])):
                    if time.time() > deadline:
                        break
                    p = best.copy()
                    p.ops[i][a] = str(v)
                    if bad(p):
                        best = p
                        break
    return best.text()
