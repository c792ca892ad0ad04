"""Drives the harness binary step by step and records the merged trace."""
import json, os, subprocess, signal

def clamp(x):
    # positions beyond TLC's integers are as far out of range as 2^31-1
    return [clamp(e) for e in x] if isinstance(x, list) else 2147483647 if isinstance(x, int) and x > 2147483647 else x
def dumps(x): return json.dumps(x, separators=(',', ':'))

class Session:
    def __init__(self, drv, trace_path, errfile, extra=None):
        self.drv = drv; self.err = errfile; self.extra = extra
        self.tr = open(trace_path, 'w')
        self.n = 0            # trace lines written
        self.cases = []       # (first line, steps)
        self.p = None
        self.stats = {}
    def start(self):
        env = dict(os.environ, VERIF_TMP=os.path.dirname(os.path.abspath(self.err)), ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=2000:detect_stack_use_after_return=1',
                   UBSAN_OPTIONS='print_stacktrace=1', TSAN_OPTIONS='halt_on_error=1:exitcode=66:suppressions=' + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'tsan_supp.txt'))
        self.p = subprocess.Popen([self.drv], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(self.err, 'w'), env=env)
    def send(self, s):
        try:
            self.p.stdin.write((s + '\n').encode()); self.p.stdin.flush(); return True
        except BrokenPipeError: return False
    def line(self, s):
        self.tr.write(s + '\n'); self.n += 1
    def begin(self):
        if self.p is None: self.start()
        self.send('B')
        self.R = [[0], [0], [0], [0]]
        self.x = {}                      # extra state of other interfaces
        self.dead = False
        self.steps = []
        self.cases.append((self.n + 1, self.steps))
        self.line('{"op":"begin","id":%d}' % (len(self.cases) - 1))
    def crash(self, what):
        rc = self.p.wait()
        self.p = None; self.dead = True
        if rc == 3: raise RuntimeError('harness error: ' + open(self.err).read()[-500:] + ' at ' + str(what)[:500])
        try: msg = open(self.err).read()
        except OSError: msg = ''
        key = next((l for l in msg.split('\n') if 'ERROR' in l or 'runtime error' in l or 'WARNING: Thread' in l), 'signal %d' % -rc)
        os.replace(self.err, self.err + '.crash')
        self.line(dumps({'op': 'crash', 'a': [rc, key[:200]]}))
        return None
    def step(self, st):
        """st = [op,target,args(,other)]; returns the log entry or None after a crash"""
        if self.dead: return None
        self.steps.append(st)
        if st[0] in ('par', 'parnew'): return self.par(st)
        ok = self.send(dumps(st))
        l = self.p.stdout.readline() if ok else b''
        if not l.endswith(b'\n'):
            return self.crash(st)
        return self.log(l.decode(), st)
    def log(self, l, st):
        e = json.loads(l)
        m = l.rstrip()[:-1] + ',"a":' + dumps(clamp(st[2]))
        if self.extra is not None:
            for k, v in self.extra(self, e, st).items(): m += ',"%s":%s' % (k, dumps(v))
        self.line(m + '}')
        for sl, v in e['c']: self.R[sl] = v
        k = st[0] + ('/' + str(e['r'][0]))
        self.stats[k] = self.stats.get(k, 0) + 1
        return e
    def par(self, st):
        """["par" | "parnew", shared, steps, steps...]: the log of every thread becomes a case of its own"""
        if st[0] == 'parnew':           # first uses of everything, in a process of its own
            self.stop(); self.start()
        ok = self.send('P ' + dumps(st[1:]))
        if st[0] == 'parnew': self.send('B')
        first = True
        for script in st[2:]:
            if not first: self.line('{"op":"begin","id":%d}' % (len(self.cases) - 1))
            first = False; self.R = [[0], [0], [0], [0]]
            for x in [['init', [3], [st[1]]]] + script:
                l = self.p.stdout.readline() if ok else b''
                if not l.endswith(b'\n'): return self.crash('par')
                e = self.log(l.decode(), x)
            self.line('{"op":"end","leak":0}')
        self.line('{"op":"begin","id":%d}' % (len(self.cases) - 1))
        self.R = [[0], [0], [0], [0]]
        return True
    def end(self):
        if self.dead: return
        l = self.p.stdout.readline() if self.send('E') else b''
        if not l.endswith(b'\n'):
            self.crash(['E']); return
        self.line(l.decode().rstrip())
    def stop(self):
        if self.p is not None:
            try: self.p.stdin.close()
            except BrokenPipeError: pass
            self.p.wait(); self.p = None
    def close(self):
        self.stop()
        self.tr.close()
