"""Histories over the MATLAB interface."""
import struct
from gens import *
import texts, prtgen
def extra(s, e, st):
    if st[0] == 'mx_print': return {'x': prtgen.tabs(texts.node_at(s.R, e['t']), 6)}
    return {}
INTS = {'int8': (-128, 127), 'uint8': (0, 255), 'int16': (-32768, 32767), 'uint16': (0, 65535), 'int32': (-2**31, 2**31 - 1), 'uint32': (0, 2**32 - 1), 'int64': (-2**63, 2**63 - 1), 'uint64': (0, 2**64 - 1)}
def num(rng, g, c):
    if c == 'logical': return rng.randint(0, 1)
    if c in INTS:
        lo, hi = INTS[c]
        if c == 'uint64' and rng.random() < .93: hi = 2**63 - 1
        x = rng.choice([lo, hi, lo + 1, hi - 1, 0, 1, hi // 2, hi // 2 + 1]) if rng.random() < .5 else g.i64()
        return word(x if lo <= x <= hi else lo + x % (hi - lo + 1))
    x = g.real()
    if c == 'single':
        try: x = struct.unpack('<f', struct.pack('<f', x))[0]
        except OverflowError: x = 1.5
    return rword(x)
def size(rng, g): return g.length() if rng.random() < .9 else rng.choice([5, 8, 17])
def dims(rng, g):
    c = rng.random()
    if c < .2: return [1, 1]
    if c < .45: return [1, size(rng, g)]
    if c < .6: return [size(rng, g), 1]
    if c < .93: return [size(rng, g), size(rng, g)]
    return [rng.randint(0, 2), rng.randint(0, 3), rng.randint(2, 3)] + ([2] if rng.random() < .2 else [])
def count(d):
    n = 1
    for x in d: n *= x
    return n
def sparse(rng, g):
    c = rng.choice(['double', 'double', 'logical']); z = int(c == 'double' and rng.random() < .4)
    nr, nc = rng.randint(0, 5), rng.randint(0, 5)
    jc, ir, d = [0], [], []
    for _ in range(nc):
        rows = [i for i in range(nr) if rng.random() < .4]
        ir += rows; jc.append(len(ir))
    for _ in ir: d.append([num(rng, g, c), num(rng, g, c)] if z else num(rng, g, c) if c == 'double' else 1)
    return ['sparse', c, z, nr, nc, jc, ir, d]
def arr(rng, g, depth):
    c = rng.random()
    if depth > 0 and c < .45:
        if c < .22:
            d = dims(rng, g); n = count(d)
            if n > 40: d, n = [1, 3], 3
            return ['cell', d, [arr(rng, g, depth - 1) if rng.random() < .93 else ['nul'] for _ in range(n)]]
        d = [1, 1] if rng.random() < .7 else dims(rng, g)
        if count(d) > 20: d = [2, 2]
        names = []
        for _ in range(g.length(3)):
            k = g.key()
            if k not in names: names.append(k)
        return ['struct', d, names, [[arr(rng, g, depth - 1) if rng.random() < .95 else ['nul'] for _ in names] for _ in range(count(d))]]
    if c < .52: return sparse(rng, g)
    if c < .62:
        t = g.text()
        if rng.random() < .7: return ['char', [1, len(t)] if t else rng.choice([[0, 0], [1, 0]]), t]
        if rng.random() < .5: return ['str', t]
        d = [rng.randint(1, 3), rng.randint(1, 4)]; return ['char', d, [rng.randint(1, 255) for _ in range(count(d))]]
    if c < .64: return ['obj']
    k = rng.choice(['double', 'double', 'single', 'logical'] + list(INTS))
    z = int(k != 'logical' and rng.random() < .25); d = dims(rng, g)
    return ['num', k, z, d, [[num(rng, g, k), num(rng, g, k)] if z else num(rng, g, k) for _ in range(count(d))]]
def mex_case(rng, s):
    o = Ops(rng, G(rng, nonul=True, big=.08))
    for n in (0, 1):
        if not s.step(['init', [n], [o.g.value(3)]]): return
    for _ in range(rng.randint(2, 9)):
        c = rng.random()
        at = lambda: o.node(s.R)[0] if rng.random() < .4 else [rng.randrange(4)]
        if c < .3: st = ['mx_in', at(), [arr(rng, o.g, rng.choice([0, 0, 1, 2]))]]
        elif c < .5: st = ['mx_out', at(), []]
        elif c < .68: st = ['mx_rt', [rng.randrange(2, 4)], [], at()]
        elif c < .76:
            m = [[n] for n in range(4) if s.R[n][0] in (0, 20)]
            st = ['mx_sparse', rng.choice(m) if m and rng.random() < .8 else at(), [sparse(rng, o.g)]]
        elif c < .88: st = ['mx_val', at(), []]
        elif c < .92: st = ['mx_print', at(), []]
        else: st = ['init', [rng.randrange(2)], [o.g.value(3)]]
        if not s.step(st): return
        if sum(len(str(v)) for v in s.R) > (60000 if o.g.washuge else 12000): return
