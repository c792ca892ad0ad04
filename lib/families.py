"""Which operations exercise which property, and how cases are composed."""
from gens import *

def mix(o, table):
    names = [n for n, w in table for _ in range(w)]
    return lambda R: getattr(o, o.r.choice(names))(R)

READ = [('shape', 1), ('getc', 1)]
FAM = {
    'P01': [('store', 8), ('storeu', 3), ('alloc', 3), ('clear', 1), ('free_pointer', 1), ('shape', 2), ('type_name', 1), ('getc', 5), ('getn', 4), ('ptr', 2)],
    'P02': [('as_', 10), ('storeu', 1), ('getmap', 1), ('gie', 3)],
    'P03': [('atc', 3), ('atn', 6), ('at2c', 3), ('at2n', 5), ('number_at', 3), ('cnumber_at', 3), ('idx', 5), ('rowcol', 3), ('ptr_at', 2), ('ptr', 1)],
    'P04': [('key', 8), ('keys', 3), ('exists', 2), ('existsv', 2), ('must', 2), ('get_keys', 2), ('erase', 4), ('gie', 4), ('getmap', 4)],
    'P05': [('from_gc', 3), ('to_gc', 3), ('load', 2), ('asg', 3), ('copyctor', 2), ('asgc', 4), ('pushc', 1), ('key', 1), ('store', 1), ('atn', 1), ('push', 1), ('idx', 1), ('clear', 1)],
    'P06': [('merge', 10), ('key', 1), ('erase', 1)],
    'P07': [('compare', 10)],
    'P08': [('promote', 10), ('getn', 2)],
    'P09': [('push', 10), ('pushc', 2)],
    'P10': [('copyto_vec', 10), ('copyto_mat', 6)],
    'P11': [('collapse', 1)],
    'P12': [('ser', 4), ('serb', 4), ('serde', 4)],
}
FAM['P22'] = sorted({}.items()) + [(n, w) for p in ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12') for n, w in FAM[p]]

def settle(o, prop):
    """initial contents of the containers for a case"""
    r, g = o.r, o.g
    c = r.random()
    if prop == 'P02':
        v = [19, [g.of_kind(r.choice([2, 3, 4, 5, 5, 5, 6, 6]), 0) for _ in range(r.randint(1, 5))]]
        if c < .3: v = [20, [[[97 + i], e] for i, e in enumerate(v[1])]]
        if c > .9: v = g.value(1)
        return [v]
    if prop == 'P03':
        if c < .3: return [g.of_kind(r.choice([8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 0]), 1)]
        return [[19, [g.of_kind(r.choice([1, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 0, 3, 4, 7, 20]), 1) for _ in range(r.randint(1, 3))]]]
    if prop in ('P04', 'P06'):
        return [g.of_kind(20, 3), g.of_kind(20, 3) if r.random() < .8 else g.value()]
    if prop == 'P05':
        return [g.of_kind(r.choice([19, 20, 19, 20, 20] + ALLK), 3), g.value(2)]
    if prop == 'P07':
        v = g.value(2) if c < .6 else g.of_kind(r.choice([19, 20]), 3)
        return [v, json_copy(v) if r.random() < .4 else near(o, v), g.value(1)]
    if prop == 'P08':
        return [g.of_kind(r.choice([0] + list(range(1, 19)) + list(range(1, 19)) + [19, 20]), 1), [19, [g.of_kind(r.choice(range(0, 19)), 1) for _ in range(3)]]]
    if prop == 'P09':
        return [g.of_kind(r.choice(list(range(0, 15)) + list(range(8, 15)) + [19, 15, 18, 20]), 1), [19, [g.of_kind(r.choice(range(0, 15)), 1) for _ in range(3)]]]
    if prop == 'P10':
        if c < .4: return [g.of_kind(r.choice(range(0, 19)), 1)]
        if c < .7: return [o.g.numlist()]
        return [[19, [o.g.of_kind(r.choice(range(0, 19)), 1) for _ in range(3)]]]
    if prop == 'P11':
        if c < .5: return [g.numlist()]
        if c < .8: return [[20, [[[97 + i], g.numlist()] for i in range(r.randint(1, 3))]]]
        return [g.of_kind(r.choice([19, 20]), 3)]
    if prop in ('P12', 'P13'):
        return [g.value(3) if c < .5 else g.of_kind(r.choice([19, 20]), 3), g.value(1)]
    return [g.value(3 if c < .3 else 2) for _ in range(r.randint(1, 3))]

# steps per case (after the initial contents)
DEPTH = {'P01': 6, 'P02': 10, 'P03': 6, 'P04': 10, 'P05': 6, 'P06': 4, 'P07': 4, 'P08': 4, 'P09': 6, 'P10': 5, 'P11': 2, 'P12': 4, 'P22': 14}

def core_case(prop, rng, s):
    o = Ops(rng, G(rng, big=.05))
    f = mix(o, FAM[prop])
    for n, v in enumerate(settle(o, prop)):
        if not s.step(['init', [n], [v]]): return
    for _ in range(rng.randint(1, DEPTH[prop])):
        st = f(s.R)
        if st is None: continue
        if not s.step(st): return
        if sum(map(size, s.R)) > (6000 if o.g.washuge else 900): return
    if prop == 'P11' and not s.step(['collapse', [0], []]): return
def size(v): return sum(map(size, v)) if isinstance(v, list) else 1

INTERESTING = [0, 1, 2, 7, 8, 15, 16, 19, 20, 21, 63, 64, 127, 128, 254, 255]
def ser_case(prop, rng, s):
    """valid, truncated and corrupted serialized data"""
    o = Ops(rng, G(rng, big=.05))
    for n, v in enumerate(settle(o, 'P13')):
        if not s.step(['init', [n], [v]]): return
    e = s.step(['ser', [0], [0]])
    if not e or e['r'][0] != 'ok': return
    b = list(e['r'][3])
    if len(b) > 260: b = b[:260]
    for _ in range(rng.randint(2, 8)):
        c = rng.random(); x = list(b)
        if c < .2 and x: x = x[:rng.randrange(len(x))]
        elif c < .3: x = x + [rng.randint(0, 255) for _ in range(rng.randint(1, 6))]
        elif c < .7 and x:
            for _ in range(rng.randint(1, 2)):
                i = rng.randrange(len(x)); x[i] = rng.choice(INTERESTING) if rng.random() < .7 else (x[i] + rng.choice([1, 255, 128])) % 256
        elif c < .85 and len(x) >= 8:
            i = rng.randrange(0, len(x) - 3) & ~3
            x[i:i + 4] = list(struct.pack('<i', rng.choice([-1, 2147483647, -2147483648, 1 << 28, 1 << 29, 1 << 30, 65536, 100, 21, 20, 19, rng.randint(0, 20)])))
        elif c < .95: x = list(struct.pack('<i', rng.randint(0, 21))) + [rng.choice([0, 0, 0, 1, 2, 255, rng.randint(0, 255)]) for _ in range(rng.randint(0, 24))]
        else: x = [rng.randint(0, 255) for _ in range(rng.randint(0, 12))]
        t = [rng.randrange(2)] if rng.random() < .8 else o.node(s.R)[0]
        if not s.step(['deser', t, [x] + (['v'] if rng.random() < .5 else [])]): return
def truncations_case(prop, rng, s):
    o = Ops(rng, G(rng, big=.02))
    v = settle(o, 'P13')[0]
    if not s.step(['init', [0], [v]]): return
    e = s.step(['ser', [0], [0]])
    if not e or e['r'][0] != 'ok': return
    b = e['r'][3]
    if len(b) > 120: return
    for n in range(len(b) + 1):
        if not s.step(['deser', [1], [b[:n]] + (['v'] if n % 2 else [])]): return
