"""Histories over the C interface."""
from gens import *
KEYS = [[], [97], [98], [97, 98], [97, 97], [195, 169], [122, 122]]
def cstr(g):
    s = [c for c in g.string() if c] if hasattr(g, 'string') else [97]
    return s
def cut(v):
    """no embedded NULs (C strings)"""
    k = v[0]
    if k == 7: return [7, [c for c in v[1] if c]]
    if k == 14: return [14, [[c for c in s if c] for s in v[1]]]
    if k == 19: return [19, [cut(x) for x in v[1]]]
    if k == 20:
        seen = {}
        for q, x in v[1]: seen[bytes(c for c in q if c)] = cut(x)
        return [20, [[list(q), seen[q]] for q in sorted(seen)]]
    return v
class Mirror:
    """where the heads are, as far as the replies tell; only used to choose"""
    def __init__(self): self.act = None; self.hd = {}
    def node(self, R):
        if self.act is None or self.hd.get(self.act) is None: return None
        v = R[self.act]
        for k, x in self.hd[self.act]:
            if k == 'i': v = v[1][x] if v[0] == 19 and x < len(v[1]) else [0]
            else:
                m = dict((tuple(a), b) for a, b in v[1]) if v[0] == 20 else {}
                v = m.get(tuple(x), [0])
        return v
    def note(self, st, e):
        op, a = st[0], st[2]; ok = e['r'][0] == 'ok' and len(e['r']) > 1 and e['r'][1] == 0
        if op in ('c_new', 'c_ptr', 'c_fill'):
            self.act = a[0]; self.hd.setdefault(a[0], [])
            if op == 'c_fill' and self.hd[a[0]] is not None: self.hd[a[0]] = []
        elif op == 'c_delete':
            self.hd.pop(a[0], None)
            if self.act == a[0]: self.act = None
        elif not ok or self.act is None: pass
        elif op == 'c_pop':
            h = self.hd[self.act]
            if h is not None: self.hd[self.act] = h[:-1] if h else None
        elif op == 'c_reset': self.hd[self.act] = []
        elif op == 'c_pushpos' and self.hd[self.act] is not None: self.hd[self.act] = self.hd[self.act] + [('i', a[0])]
        elif op == 'c_pushkey' and self.hd[self.act] is not None: self.hd[self.act] = self.hd[self.act] + [('k', a[0])]
def cif_step(rng, o, m, R):
    g = o.g; v = m.node(R); k = v[0] if v else 0
    n = len(v[1]) if k in range(8, 15) or k == 19 else (v[1] * v[2] if 15 <= k <= 18 else 0)
    T = [0]; c = rng.random()
    ids = rng.choice([0, 0, 0, 1, 1, 2, 3])
    if m.act is None and c < .55 or c < .05: return ['c_new', T, [ids, rng.randrange(2)]]
    if c < .06: return ['c_delete', T, [rng.randrange(4)]]
    if c < .075: return ['c_ptr', T, [ids]]
    if c < .09: return ['c_fill', T, [ids]]
    if c < .15 and m.act is not None and m.hd.get(m.act) == []: return ['init', [m.act], [cut(g.value(3))]]
    if c < .23 and m.act is not None and m.hd.get(m.act) == [] and rng.random() < .9: c = .3 + .6*rng.random()
    if c < .23 or (k < 15 and m.act is not None and m.hd.get(m.act) and c < .32): return ['c_pop', T, []] if rng.random() < .9 else ['c_reset', T, []]
    if c < .36:
        if k == 19 or rng.random() < .15: return ['c_pushpos', T, [rng.choice([o.index(n)] * 9 + [-1, -2147483648])]]
        if k == 20 or rng.random() < .3:
            ks = [e[0] for e in v[1]] if k == 20 else []
            return ['c_pushkey', T, [list(rng.choice(ks)) if ks and rng.random() < .7 else rng.choice(KEYS)]]
    if c < .45 or (k == 20 and c < .5):
        if k == 20 and rng.random() < .3 or rng.random() < .1: return ['c_initkey', T, []]
        if k == 20 or rng.random() < .3: return ['c_nextkey', T, []]
        c = .45 + .55 * rng.random()
    if c < .6:
        w = rng.choice(['c_get', 'c_at', 'c_at', 'c_coor', 'c_shape', 'c_type', 'c_type_name'])
        near = {2: 'bool', 3: 'int', 4: 'long', 5: 'real', 6: 'complex', 7: 'string'}
        if w == 'c_get': return [w, T, [near[k] if k in near and rng.random() < .6 else rng.choice(['bool', 'int', 'long', 'real', 'complex', 're', 'im', 'string'])]]
        if w == 'c_at':
            q = {9: 'bool', 10: 'int', 14: 'string'}.get(k)
            q = q if q and rng.random() < .6 else rng.choice(['bool', 'int', 'real', 'real', 'complex', 're', 'im', 'string'])
            p = rng.choice([-1, -2147483648]) if rng.random() < .06 else o.index(n)
            return [w, T, [q, p]]
        if w == 'c_coor':
            r0, c0 = (v[1], v[2]) if 15 <= k <= 18 else (n, 1)
            q = ['real', 'real', 'complex', 're', 'im']
            ij = [rng.randrange(-1 if rng.random() < .1 else 0, max(x, 1) + (1 if rng.random() < .25 else 0)) for x in (r0, c0)]
            return [w, T, [rng.choice(q)] + ij]
        if w == 'c_shape': return [w, T, [rng.choice(['size', 'rows', 'cols'])]]
        return [w, T, []]
    if c < .62: return [rng.choice(['c_dump', 'c_types']), T, []]
    pay = lambda q: cut(g.of_kind(q))[1]
    if c < .74:
        q = rng.choice([2, 3, 5, 6, 7]); return ['c_set', T, [q, pay(q), rng.randrange(2)]]
    if c < .86:
        q = rng.choice([2, 3, 5, 6, 7]); return ['c_push', T, [q, pay(q), rng.randrange(2)]]
    if c < .93:
        q = rng.choice([9, 10, 12, 13, 14]); r = rng.random()
        if r < .1: return ['c_setvec', T, [q, [], 0]]
        if r < .17: return ['c_setvec', T, [q, [], rng.choice([-1, -5, -2147483648])]]
        return ['c_setvec', T, [q, pay(q)]]
    if c < .965:
        z = rng.choice([0, 1, 2, 3, 5, -1]); e = rng.randrange(2) if z == 0 else 0
        return ['c_setvector', T, [z, e]]
    return ['c_setmap', T, []]
def cif_case(rng, s):
    o = Ops(rng, G(rng)); m = Mirror()
    for _ in range(rng.randint(4, 40)):
        st = cif_step(rng, o, m, s.R)
        e = s.step(st)
        if not e: return
        m.note(st, e)
        if sum(len(str(v)) for v in s.R) > (40000 if o.g.washuge else 9000): return
