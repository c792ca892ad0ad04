"""Histories of several threads: each works on containers of its own (0 to 2)
and reads container 3, which is the same object for all of them."""
import texts as T, tabgen as TB, prtgen as PG
from gens import *
from families import FAM

def extra(s, e, st):
    op = st[0]
    if op in ('twrite', 'tread', 'tread2'): return TB.extra(s, e, st)
    if op in ('dump', 'types', 'info'): return PG.extra(s, e, st)
    return T.json_extra(s, e, st)

# operations that only read their target
READERS = {'getc', 'as', 'atc', 'at2c', 'number_at', 'cnumber_at', 'rowcol', 'exists', 'existsv', 'must', 'get_keys', 'gie', 'getmap',
           'compare', 'copyto_vec', 'copyto_mat', 'ser', 'serb', 'to_json', 'to_yaml', 'to_toml', 'dump', 'types', 'info', 'twrite', 'shape', 'type_name'}
# operations that only read their other operand
COPIERS = {'from_gc', 'load', 'asg', 'copyctor', 'merge', 'compare', 'serde', 'to_gc'}
CORE = sorted({n for p in ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12') for n, w in FAM[p]})
READ_GEN = ['getc', 'as_', 'atc', 'at2c', 'number_at', 'cnumber_at', 'rowcol', 'exists', 'existsv', 'must', 'get_keys', 'gie', 'getmap', 'compare', 'copyto_vec', 'copyto_mat', 'ser', 'serb', 'shape']

def allowed(st, nshared=3):
    op = st[0]
    if st[1][0] == nshared and (op not in READERS or op == 'getmap' and st[2][0] in ('vec_real', 'vec_complex')): return False   # these widen the entry in place
    if len(st) > 3 and st[3][0] == nshared and op not in COPIERS: return False
    return True

def shown(rng, o, R):
    """a text or a report of any container"""
    op = rng.choice(['to_json', 'to_yaml', 'to_toml', 'dump', 'types', 'info', 'dump', 'types'])
    t = [3] if rng.random() < .4 else o.node(R)[0]
    if op in ('to_json', 'to_yaml'): return [op, t, [rng.choice([0, 1, 2, 3]), list(rng.choice([b'', b'  ']))]]
    if op == 'to_toml': return [op, t, [rng.choice([0, 1, 2])]]
    return [op, t, [list(rng.choice(PG.PREFIX)), list(rng.choice(PG.INDENT)), rng.choice([0, 0, 1, 2]), rng.choice([6, 12, 17]), rng.choice([0, 0, 0, 1, 3])]]
def parsed(rng, o):
    """a text read into a container of the thread"""
    c = rng.randrange(4); t = [rng.randrange(3)]
    if c == 0: return ['from_json', t, [list(T.JT(rng).text().encode()), rng.choice([0, 1, 2, 3])]]
    if c == 1:
        txt, cc, dl = TB.table_text(rng, o.g); st = [rng.choice(['tread', 'tread2']), t, [txt, cc, dl, rng.choice([0, 1])]]
        return st + [[(t[0] + rng.choice([1, 2])) % 3]] if st[0] == 'tread2' and rng.random() < .7 else st   # parameters go elsewhere
    return reread(rng, t)
def reread(rng, t):
    if rng.random() < .5: return ['from_yaml', t, [list(rng.choice(YAML)), rng.choice([0, 1, 2, 3])]]
    return ['from_toml', t, [list(rng.choice(TOML)), rng.choice([0, 1, 2, 3])]]
YAML = [b'a: 1\nb: [1, 2.5, x]\n', b'- 1\n- true\n- "s"\n', b'k:\n  - 1+2i\n  - 3-4i\nz: ~\n', b'{a: 1, b: {c: [true, false]}}\n', b'a: [1\n']
TOML = [b'a = 1\nb = [1, 2]\n[t]\nc = "x"\nd = 1.5\n', b'[[p]]\nx = 1\n[[p]]\nx = 2\n', b'd = 1979-05-27T07:32:00Z\n', b'a = \n', b"s = ['1+2i', '3-4i']\n"]

def thread_case(rng, s):
    """each script is first built alone, then all of them run at once"""
    o = Ops(rng, G(rng, big=.04, utf8=True))
    c = rng.random()
    if c < .35: v = o.g.of_kind(20, 3)
    elif c < .6: v = o.g.of_kind(19, 2)
    elif c < .7: v = TB.table_value(rng, o.g)
    elif c < .8: v = PG.hkeys(rng, o.g.of_kind(20, 2))
    else: v = o.g.value(2)
    scripts = []
    same = rng.random() < .25        # all the threads do the same
    for k in range(rng.choice([2, 2, 2, 3, 4])):
        if k:
            if same and scripts: scripts.append(scripts[0]); continue
            s.end(); s.begin()
        if not s.step(['init', [3], [v]]): return
        mine = []
        for n in range(rng.randint(1, 5)):
            c = rng.random(); R = s.R
            if c < .2: st = shown(rng, o, R)
            elif c < .28 and v[0] == 20: st = ['twrite', [3], [rng.choice([9, 44]), 6, rng.choice([0, 1, 2])]]
            elif c < .4: st = parsed(rng, o)
            elif c < .55: st = [rng.choice(['from_gc', 'asg', 'load', 'merge', 'copyctor', 'serde', 'compare']), [rng.randrange(3)], [], o.node(R, None, (3,))[0]]
            elif c < .75:
                st = getattr(o, rng.choice(READ_GEN))([R[3]] * 4)   # choose a node of the shared container
                if st: st[1][0] = 3; st = st[:3] + ([[rng.randrange(3)]] if len(st) > 3 else [])
            else: st = getattr(o, rng.choice(CORE))(R)
            if st is None or not allowed(st): continue
            if not s.step(st): return
            mine.append(st)
            if sum(map(size, s.R)) > 900: break
        if mine: scripts.append(mine)
    if len(scripts) < 2: return
    s.end(); s.begin()
    s.step(['par' if rng.random() < .7 else 'parnew', v] + scripts)
def size(v): return sum(map(size, v)) if isinstance(v, list) else 1
