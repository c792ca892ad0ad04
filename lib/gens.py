"""Random case generators. A generator looks at the current (logged) contents
of the four containers to choose meaningful operations; it decides nothing."""
from vals import *

SCAL = [1, 2, 3, 4, 5, 6, 7]
ALLK = list(range(0, 21))
INTS = ['int', 'uint', 'long', 'ulong']

class Ops:
    def __init__(self, rng, g=None):
        self.r = rng; self.g = g or G(rng)
    # --- choosing nodes -------------------------------------------------
    def node(self, R, want=None, slots=(0, 1, 2, 3)):
        """a reference [slot, selectors...] and the value there"""
        r = self.r
        cand = []
        for s in slots:
            for p, v in nodes(R[s]):
                if want is None or want(v): cand.append((s, p, v))
        if not cand or (want is None and r.random() < .1):
            s = r.choice(slots); return [s], R[s]
        # prefer shallow and non-empty slots
        if len(cand) > 40: cand = cand[:10] + r.sample(cand, 30)
        s, p, v = r.choice(cand)
        return [s] + list(p), v
    def index(self, n):
        r = self.r; c = r.random()
        if n and c < .6: return r.randrange(n)
        if c < .75: return n
        if c < .85: return n + 1
        if c < .95: return r.randint(0, n + 4)
        return r.choice([9, 10, 17, 40])
    def rindex(self, n):  # read only: far positions are harmless
        return self.index(n) if self.r.random() < .92 else self.r.choice([2147483647, 2147483648, 4294967295, 65536, 1 << 30])
    def keyfor(self, v, present=.6):
        if v[0] == 20 and v[1] and self.r.random() < present:
            k = list(self.r.choice(v[1])[0])
            c = self.r.random()
            if c < .06: return k + [97]
            if c < .12: return k[:-1]
            if c < .16: return k + [0]
            return k
        return self.g.key()
    def keysfor(self, v):
        return [self.keyfor(v, .35) for _ in range(self.r.choice([0, 1, 1, 2, 2, 3, 4]))]
    # --- storing --------------------------------------------------------
    def init(self, R): return ['init', self.node(R)[0], [self.g.value()]]
    def store(self, R):
        r = self.r; t, v = self.node(R)
        k = r.choice(ALLK) if r.random() < .7 else v[0]   # often the kind already there
        x = self.g.of_kind(k)
        how = r.choice({0: ['m'], 6: ['m', 'a', 's', 'c', 'r'], 7: ['m', 'a', 's', 'c', 'r', 'v', 'za', 'zs', 'zc'],
                        8: ['m', 'r'], 19: ['m'], 20: ['m', 'r']}.get(k, ['m', 'a', 's', 'c'] if k < 8 else ['m', 'a', 'c', 'r']))
        return ['store', t, [how, x]]
    def storeu(self, R):
        r = self.r; t, v = self.node(R); T = r.choice(['uint', 'ulong', 'float', 'cfloat'])
        if T == 'uint': a = [word(r.choice([0, 1, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, r.getrandbits(32)]))]
        elif T == 'ulong': a = [word(r.choice([0, 1, 2**31, 2**32, 2**63 - 1, 2**63, 2**64 - 1, r.getrandbits(64), r.getrandbits(40)]))]
        else:
            f = lambda: rword(r.choice([0.0, -0.0, 1.0, 0.5, -2.25, 2.0**100, float('inf'), float('nan'), 16777216.0, 0.10000000149011612, 1.1754943508222875e-38]))
            a = [f()] if T == 'float' else [f(), f()]
        return ['storeu', t, [r.choice('asc'), T] + a]
    def alloc(self, R):
        r = self.r; t, v = self.node(R); k = r.choice(range(8, 21)) if r.random() < .6 or v[0] < 8 else v[0]
        n = self.g.length(5)
        if k == 20: return ['alloc', t, [20]]
        if 15 <= k <= 18: return ['alloc', t, [k, r.randint(0, 4), r.randint(0, 4)]]
        return ['alloc', t, [k, n]]
    def clear(self, R): return ['clear', self.node(R)[0], []]
    def free_pointer(self, R):
        t, v = self.node(R, (lambda x: x[0] == 1) if self.r.random() < .4 else None); return ['free_pointer', t, []]
    def shape(self, R): return ['shape', self.node(R)[0], []]
    def type_name(self, R): return ['type_name', self.node(R)[0], []]
    def kindnear(self, k):
        r = self.r
        return k if r.random() < .5 and k else r.choice(range(1, 21))
    def getc(self, R):
        t, v = self.node(R); return ['getc', t, [self.kindnear(v[0])]]
    def getn(self, R):
        r = self.r; t, v = self.node(R); k = self.kindnear(v[0])
        if r.random() < .2: k = r.choice([10, 11, 12, 13, 15, 16, 17, 18])
        if r.random() < .6: return ['getn', t, [k]]
        return ['getn', t, [k, self.g.of_kind(k)]]
    def ptr(self, R):
        r = self.r; t, v = self.node(R); e = v[0] - 12 if v[0] in range(15, 19) else v[0] - 7 if v[0] in range(10, 14) else v[0]
        k = e if e in range(3, 7) and r.random() < .75 else r.choice([3, 4, 5, 6])
        return ['ptr', t, [k] + ([1] if r.random() < .5 else [])]
    # --- conversions ----------------------------------------------------
    def as_(self, R):
        r = self.r; t, v = self.node(R, (lambda x: 2 <= x[0] <= 6) if r.random() < .85 else None)
        T = r.choice(INTS + INTS + ['float', 'double', 'number', 'cnumber'])
        return ['as', t, [T] + ([1] if r.random() < .5 and T not in ('float', 'double', 'number') else [])]
    # --- promotion ------------------------------------------------------
    def promote(self, R):
        t, v = self.node(R); return ['promote', t, [self.r.choice([3, 4, 5, 6, 10, 11, 12, 13, 15, 16, 17, 18, 19])]]
    # --- elements -------------------------------------------------------
    def elk(self, v):
        k = v[0]
        return k - 12 if 15 <= k <= 18 else k - 7 if 8 <= k <= 14 else k
    def atc(self, R):
        r = self.r; t, v = self.node(R, (lambda x: 9 <= x[0] <= 14) if r.random() < .8 else None)
        k = self.elk(v); k = k if 2 <= k <= 7 and r.random() < .85 else r.choice(range(2, 8))
        return ['atc', t, [k, self.rindex(nelem(v))]]
    def atn(self, R):
        r = self.r; t, v = self.node(R, (lambda x: 9 <= x[0] <= 14 or x[0] in (0, 19)) if r.random() < .8 else None)
        k = self.elk(v); k = k if 2 <= k <= 7 and r.random() < .4 else r.choice(range(2, 8))
        return ['atn', t, [k, self.index(nelem(v))] + ([self.g.payload(k)] if k != 2 and r.random() < .5 else [])]
    def ij(self, v):
        nr, nc = (v[1], v[2]) if 15 <= v[0] <= 18 else (nelem(v), 1) if v[0] else (2, 2)
        return nr, nc
    def at2c(self, R):
        r = self.r; t, v = self.node(R, (lambda x: 15 <= x[0] <= 18) if r.random() < .85 else None)
        k = self.elk(v); k = k if 3 <= k <= 6 and r.random() < .85 else r.choice(range(3, 7))
        nr, nc = self.ij(v); return ['at2c', t, [k, self.rindex(nr), self.rindex(nc)]]
    def at2n(self, R):
        r = self.r; t, v = self.node(R, (lambda x: 15 <= x[0] <= 18 or 9 <= x[0] <= 13 or x[0] == 0) if r.random() < .9 else None)
        k = self.elk(v); k = k if 3 <= k <= 6 and r.random() < .7 else r.choice(range(3, 7))
        nr, nc = self.ij(v); i, j = self.index(nr), self.index(nc)
        if v[0] == 0: i, j = r.randint(0, 3), r.randint(0, 3)
        return ['at2n', t, [k, i, j] + ([self.g.payload(k)] if r.random() < .5 else [])]
    def number_at(self, R):
        r = self.r; t, v = self.node(R, (lambda x: x[0] >= 9 and x[0] != 20) if r.random() < .8 else None)
        return ['number_at', t, [self.rindex(nelem(v))]]
    def cnumber_at(self, R):
        r = self.r; t, v = self.node(R, (lambda x: x[0] >= 9 and x[0] != 20) if r.random() < .8 else None)
        return ['cnumber_at', t, [self.rindex(nelem(v))] + ([1] if r.random() < .5 else [])]
    def idx(self, R):
        r = self.r; t, v = self.node(R, (lambda x: x[0] in (19, 0)) if r.random() < .85 else None)
        how = r.choice(['br', 'gc', 'pa', 'brc', 'gcc', 'pac'])
        if how in ('br', 'gc'):
            return ['idx', t, [how, self.index(nelem(v) if v[0] == 19 else 0)] + ([self.g.value(1)] if r.random() < .5 else [])]
        return ['idx', t, [how, self.rindex(nelem(v))] + ([self.g.value(1)] if how == 'pa' and r.random() < .5 else [])]
    def rowcol(self, R):
        r = self.r; t, v = self.node(R, lambda x: 15 <= x[0] <= 18)
        if not 15 <= v[0] <= 18: return None
        a = r.randint(0, 1); n = v[2 - 1] if a == 0 else v[2]
        if n == 0: return None
        return ['rowcol', t, [a, r.randrange(n)]]
    def ptr_at(self, R):
        r = self.r; isp = lambda x: x[0] == 8 or x[0] == 19 and any(e[0] == 1 for e in x[1])
        t, v = self.node(R, isp if r.random() < .9 else None)
        if v[0] == 8: i = self.rindex(nelem(v))
        elif v[0] == 19 and isp(v): i = r.choice([n for n, e in enumerate(v[1]) if e[0] == 1])
        else: return ['ptr_at', t, [self.rindex(nelem(v))]]
        return ['ptr_at', t, r.choice([[i], [i, 'n'], [i, 'n', self.g.payload(1)]])]
    # --- maps -----------------------------------------------------------
    def mapnode(self, R, p=.9):
        return self.node(R, (lambda x: x[0] == 20) if self.r.random() < p else None)
    def key(self, R):
        r = self.r; t, v = self.mapnode(R); how = r.choice(['br', 'br', 'pa', 'brc', 'pac'])
        return ['key', t, [how, self.keyfor(v)] + ([self.g.value(1)] if how in ('br', 'pa') and r.random() < .6 else [])]
    def keys(self, R):
        r = self.r; t, v = self.mapnode(R); how = r.choice(['pa', 'pac'])
        return ['keys', t, [how, self.keysfor(v)] + ([self.g.value(1)] if how == 'pa' and r.random() < .5 else [])]
    def exists(self, R): t, v = self.mapnode(R); return ['exists', t, [self.keyfor(v)]]
    def existsv(self, R): t, v = self.mapnode(R); return ['existsv', t, [self.keysfor(v)]]
    def must(self, R): t, v = self.mapnode(R); return ['must', t, [self.keysfor(v)]]
    def get_keys(self, R): t, v = self.mapnode(R); return ['get_keys', t, []]
    def erase(self, R): t, v = self.mapnode(R); return ['erase', t, [self.keyfor(v)]]
    def gie(self, R):
        r = self.r; t, v = self.mapnode(R, .97); T = r.choice(['bool', 'int', 'uint', 'long', 'ulong', 'real', 'complex', 'string'])
        # prefer readable entries half of the time
        how = r.choice(['z', '1', None, None])
        ks = self.keysfor(v) or [self.keyfor(v)]
        if how == 'z': ks = [[b for b in ks[0] if b]]
        elif how == '1': ks = ks[:1]
        a = [T, ks] + ([how] if how else ['n'])
        if T == 'bool': a.append(r.randint(0, 1))
        return ['gie', t, a]
    def getmap(self, R):
        r = self.r; t, v = self.mapnode(R, .97); how = r.choice(['key', 'any', 'path'])
        want = {'bool': 2, 'int': 3, 'number': 5, 'string': 7, 'vec_real': 12, 'vec_complex': 13, 'vec_string': 14}
        T = r.choice(list(want))
        def ent(m):
            if m[0] != 20 or not m[1]: return self.g.key(), [0]
            k, x = r.choice(m[1]); return list(k), x
        if how == 'path':
            ks = []; x = v
            for _ in range(r.randint(1, 3)):
                k, x = ent(x); ks.append(k)
                if x[0] != 20: break
            if r.random() < .15: ks = (ks + [self.g.key()])[:3]
            x0 = x
        else:
            ks = self.keysfor(v) if how == 'any' else []
            k, x0 = ent(v); ks.append(k)
            if how == 'key': ks = [self.keyfor(v)] if r.random() < .2 else ks[:1]
        if r.random() < .7:
            m = [w for w in want if want[w] == x0[0] or (w == 'int' and x0[0] in (2, 4, 5, 6)) or (w == 'number' and 2 <= x0[0] <= 6)]
            if m: T = r.choice(m)
        return ['getmap', t, [T, how, ks]]
    # --- two operands ---------------------------------------------------
    def two(self, R, op, args=()):
        r = self.r; t, v = self.node(R)
        c = r.random()
        if c < .35: o = self.node(R, None, (t[0],))[0]          # same container: aliasing
        elif c < .45: o = list(t)
        elif c < .55: o = t[:r.randint(1, len(t))]
        else: o = self.node(R)[0]
        return [op, t, list(args), o]
    def from_gc(self, R): return self.two(R, 'from_gc')
    def to_gc(self, R): return self.two(R, 'to_gc')
    def load(self, R): return self.two(R, 'load')
    def asg(self, R): return self.two(R, 'asg')
    def copyctor(self, R): return self.two(R, 'copyctor')
    def asgc(self, R): return self.two(R, 'asgc', [1] if self.r.random() < .5 else [])
    def serde(self, R): return self.two(R, 'serde')
    def pushc(self, R):
        t, v = self.node(R); o, w = self.node(R, lambda x: x[0] in (6, 7), (t[0],) if self.r.random() < .5 else (0, 1, 2, 3))
        return ['pushc', t, [], o]
    def merge(self, R):
        r = self.r
        if r.random() < .8:
            t, v = self.node(R, lambda x: x[0] in (20, 0)); o, w = self.node(R, lambda x: x[0] == 20)
            return ['merge', t, [], o]
        return self.two(R, 'merge')
    def compare(self, R): return self.two(R, 'compare')
    # --- appending ------------------------------------------------------
    def push(self, R):
        r = self.r; t, v = self.node(R, (lambda x: x[0] != 20 and not 15 <= x[0] <= 18) if r.random() < .9 else None); k = r.choice(range(2, 8))
        return ['push', t, [k, self.g.payload(k)] + ([1] if r.random() < .5 else [])]
    # --- extraction -----------------------------------------------------
    def copyto_vec(self, R):
        t, v = self.node(R); return ['copyto_vec', t, [self.r.choice(INTS + ['real', 'complex', 'string'])]]
    def copyto_mat(self, R):
        t, v = self.node(R, (lambda x: x[0] >= 9) if self.r.random() < .8 else None); return ['copyto_mat', t, [self.r.choice(['int', 'long', 'real', 'complex'])]]
    def collapse(self, R): return ['collapse', self.node(R)[0], []]
    # --- serialization --------------------------------------------------
    def ser(self, R): return ['ser', self.node(R)[0], [self.r.choice([0, 0, 1, 3, 4, 16, 100])]]
    def serb(self, R): return ['serb', self.node(R)[0], [self.r.choice([0, 0, 0, -1, -1, -2, -4, -7, -100, 1, 5])]]

# mutation of a value: a near copy
def tweak(o, k, x):
    """the smallest differences from payload x of a scalar of kind k"""
    r = o.r
    flip = lambda w: [e ^ (1 << r.choice([0, 0, 15, r.randrange(16)])) if i == n else e for n in [r.choice([3, 3, r.randrange(4)])] for i, e in enumerate(w)]
    if k == 2: return 1 - x
    if k == 3:
        y = (x ^ (1 << r.choice([0, 31, r.randrange(32)]))) & 0xffffffff
        return y - (1 << 32) if y >> 31 else y
    rflip = lambda w: rword(wreal(flip(w)))     # one NaN only
    if k == 4: return flip(x)
    if k == 5: return rflip(x)
    if k == 6: return [rflip(x[0]), x[1]] if r.random() < .5 else [x[0], rflip(x[1])]
    if k == 7:
        c = r.random()
        if not x or c < .3: return x + [r.choice([0, 32, 97])]
        if c < .5: return x[:-1]
        n = r.randrange(len(x)); return x[:n] + [x[n] ^ r.choice([1, 32, 128])] + x[n + 1:]
    return o.g.payload(k)
def near(o, v):
    r = o.r
    v = json_copy(v)
    ns = [x for _, x in nodes(v)]
    x = r.choice(ns)
    k = x[0]
    c = r.random()
    alter = lambda k, y: tweak(o, k, y) if r.random() < .7 else o.g.payload(k)
    if k in range(1, 8): x[1] = alter(k, x[1])
    elif k in range(8, 15):
        if x[1] and c < .6: n = r.randrange(len(x[1])); x[1][n] = alter(k - 7, x[1][n])
        elif x[1] and c < .8: x[1].pop()
        else: x[1].append(o.g.payload(k - 7))
    elif k in range(15, 19):
        if x[3] and c < .7: n = r.randrange(len(x[3])); x[3][n] = alter(k - 12, x[3][n])
        elif x[1] != x[2]: x[1], x[2] = x[2], x[1]
        else: x[2] += 1; x[3] += [o.g.payload(k - 12) for _ in range(x[1])]
    elif k == 19:
        if x[1] and c < .4: x[1].pop()
        elif c < .6: x[1].append(o.g.value(0))
        else: return near(o, v) if r.random() < .7 else v
    elif k == 20:
        if x[1] and c < .3: x[1].pop(r.randrange(len(x[1])))
        elif c < .7:
            n = r.randrange(len(x[1])) if x[1] and r.random() < .6 else -1
            kk = o.g.key() if n < 0 else tweak(o, 7, x[1][n][0])
            if all(e[0] != kk for e in x[1]):
                if n < 0: x[1].append([kk, o.g.value(0)])
                else: x[1][n][0] = kk
                x[1].sort(key=lambda e: bytes(e[0]))
        else: return near(o, v) if r.random() < .7 else v
    else: x[:] = o.g.value(0)
    return v
def json_copy(v):
    return [json_copy(e) for e in v] if isinstance(v, list) else v
