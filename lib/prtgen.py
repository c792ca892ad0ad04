"""Printed reports: number tables and histories."""
from gens import *
import texts, tabgen
def tabs(v, p):
    return [tabgen.real_table(v, p), texts.fmt_table(v, 12)]
def extra(s, e, st):
    if st[0] in ('dump', 'types', 'info'):
        a = st[2]; p = 12 if a[2] == 2 and st[0] == 'dump' else 6 if a[2] == 2 else a[3]
        return {'x': tabs(texts.node_at(s.R, e['t']), p)}
    return {}
HK = [b'1#a', b'2##b', b'3#-head', b'4##=Title line', b' 5 #~ x', b'10##_y z', b'12 # -a', b'1#', b'1##', b'1#-', b'2###c', b'2##--d', b'a1#b', b'1 a#b', b'#a', b'7#\nx', b'7#x\ny', b'7#x\n', b'8#\xc3\xa9t\xc3\xa9', b'0##~', b'1\t#\t=\tq', b'1#==', b'99', b'9 9#a', b'6#x\r', b'001##- n', b'3#x\0y', b'1#a b  ']
def hkeys(rng, v):
    """some keys become formatted ones"""
    if v[0] == 19: return [19, [hkeys(rng, x) for x in v[1]]]
    if v[0] == 20:
        d = {}
        for k, x in v[1]: d[rng.choice(HK) if rng.random() < .3 else bytes(k)] = hkeys(rng, x)
        return [20, [[list(k), d[k]] for k in sorted(d)]]
    return v
INDENT = [b'    ', b'  ', b'\t', b'', b'. ', b'      ']
PREFIX = [b'', b'  ', b'> ', b'pre:', b'\t', b'abc def ']
def print_case(rng, s):
    o = Ops(rng, G(rng, big=.12))
    v = hkeys(rng, o.g.value(4) if rng.random() < .5 else o.g.of_kind(rng.choice([19, 20, 20]), rng.choice([2, 3, 4])))
    if not s.step(['init', [0], [v]]): return
    for _ in range(rng.randint(2, 4)):
        op = rng.choice(['dump', 'dump', 'dump', 'types', 'types', 'info'])
        t = o.node(s.R, slots=(0,))[0] if rng.random() < .4 or op == 'info' else [0]
        st = [op, t, [list(rng.choice(PREFIX)), list(rng.choice(INDENT)), rng.choice([0, 0, 1, 2, 3]), rng.choice([6, 6, 12, 17, 1, 3, 0]), rng.choice([0, 0, 0, 0, 1, 2, 3, 4])]]
        if not s.step(st): return
def longkey_case(rng, s):
    n = rng.choice([200, 700])
    k = b'1#-' + b'x' * n if rng.random() < .5 else b" " * 60 + b"7##" + b"y" * 5
    v = [20, [[list(k), [3, 1]]]]
    if not s.step(['init', [0], [v]]): return
    s.step([rng.choice(['dump', 'types']), [0], [[], [32], 0, 6, 0]])
def longlist_case(rng, s):
    """positions with two, three and four digits"""
    g = G(rng, big=0)
    n = rng.choice([10, 11, 99, 100, 101, 255, 256, 257, 999, 1001, 1010])
    el = rng.choice([lambda: [3, 1], lambda: [rng.choice([2, 3]), 1], lambda: [rng.choice([9, 10]), [1, 0]], lambda: g.of_kind(rng.choice([19, 20]), 0)])
    v = [19, [el() for _ in range(n)]] if rng.random() < .7 else [rng.choice([9, 10]), [1] * n] if rng.random() < .5 else [15, *((n, 2) if rng.random() < .5 else (2, n)), [7] * (2 * n)]
    if not s.step(['init', [0], [v]]): return
    for op in ('types', 'dump'):
        if not s.step([op, [0], [[], [32], 0, 6, 0]]): return
