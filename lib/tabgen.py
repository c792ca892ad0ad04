"""Column tables: texts and contents."""
import re
from gens import *
import texts
PREF = re.compile(rb'[ \t\n\x0b\x0c\r]*([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)')
PRE2 = re.compile(rb'[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?')
def num_table(text):
    t = bytes(text); out = {}
    for i in range(len(t)):
        m = PRE2.match(t, i)
        if m: out[m.group()] = rword(float(m.group()))
    return [[list(k), v] for k, v in out.items()]
def real_table(v, p):
    seen = {}
    def num(k, x):
        if k in (2, 3): w = rword(float(x))
        elif k == 4: w = rword(float(wlong(x)))
        elif k == 5: w = x
        elif k == 6: num(5, x[0]); num(5, x[1]); return
        else: return
        seen[tuple(w)] = texts.fmt(wreal(w), p)
    def go(v):
        k = v[0]
        if 2 <= k <= 6: num(k, v[1])
        elif 9 <= k <= 13: [num(k - 7, x) for x in v[1]]
        elif 15 <= k <= 18: [num(k - 12, x) for x in v[3]]
        elif k == 19: [go(x) for x in v[1]]
        elif k == 20: [go(x) for _, x in v[1]]
    go(v)
    return [[list(k), t] for k, t in seen.items()]
def wlong(w):
    x = (w[0] << 48) | (w[1] << 32) | (w[2] << 16) | w[3]
    return x - (1 << 64) if x >> 63 else x
def extra(s, e, st):
    op = st[0]
    if op == 'twrite': return {'x': [real_table(texts.node_at(s.R, e['t']), st[2][1])]}
    if op in ('tread', 'tread2'): return {'x': [num_table(st[2][0])]}
    return {}

def b(s): return list(s.encode())
HEADS = ['a', 'b', 'time', 'x_1', 'T[s]', 'vélo', 'A', 'aa', '1', '-', 'speed(m/s)', 'averyveryverylongheadername', 'exactlytwentychars_x', '12345678', '123456789', 'c"d', "q'", 'x=y', '!']
def headers(rng, n):
    h = rng.sample(HEADS, n) if n <= len(HEADS) else [rng.choice(HEADS) + str(i) for i in range(n)]
    return h
def cells(rng, g, n):
    k = rng.choice([12, 12, 12, 10, 11, 9, 19])
    if k == 19: return [19, [[q, g.payload(q)] for q in (rng.choice([2, 3, 4, 5]) for _ in range(n))]]
    return [k, [g.payload(k - 7) for _ in range(n)]]
def table_value(rng, g):
    """mostly a good table, sometimes spoilt"""
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 6]); r = rng.choice([0, 1, 1, 2, 3, 5, 9])
    h = [14, [b(x) for x in headers(rng, n)]]
    if rng.random() < .4:
        d = [17, r, n, [g.payload(5) for _ in range(r * n)]]
    else: d = [19, [cells(rng, g, r) for _ in range(n)]]
    c = rng.random()
    if c < .08: h[1] = h[1] + [b('extra')]
    elif c < .14: h[1] = h[1][:-1]
    elif c < .18 and d[0] == 19 and n: d[1][rng.randrange(n)] = cells(rng, g, max(0, r - 1))
    elif c < .21 and d[0] == 19 and n: d[1][rng.randrange(n)] = g.value(1)
    elif c < .23: h = g.value(1)
    elif c < .25: d = g.value(2)
    elif c < .27: return [20, [[b('data'), d]]]
    elif c < .29: return [20, [[b('headers'), h]]]
    m = {b'data': d, b'headers': h}
    if rng.random() < .2: m[bytes(g.key())] = g.value(1)
    return [20, [[list(k), m[k]] for k in sorted(m)]]
NUMS = ['0', '1', '-1', '+2', '1.5', '.5', '5.', '-0.0', '1e3', '1E-3', '1e', '1e+', '1e5x', 'inf', '-Infinity', 'nan', 'NaN', 'abc', '-', '.', '1..2', '--1', '123456789012345678', '0.1', '1e400', '1e-400', '4.9e-324', '2.2250738585072014e-308', '1.7976931348623157e308', '1,5', '007', '+.5e-2', 'e5', 'infx', 'in', '12abc']
def cell(rng, g):
    c = rng.random()
    if c < .4: return repr(g.real())
    if c < .6: return str(g.i32())
    return rng.choice(NUMS)
def table_text(rng, g):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4]); r = rng.choice([0, 1, 2, 2, 3, 5])
    cc = rng.choice(['#%', '#', '#%', '%', '', '#!', ';'])
    dl = rng.choice([' \t', ' \t', ',', ';,', '\t', ' ', '|', ', '])
    nl = rng.choice(['\n', '\n', '\n', '\r\n'])
    sep = lambda: rng.choice(dl) * rng.choice([1, 1, 1, 2, 3])
    edge = lambda: sep() if rng.random() < .12 else ''
    com = lambda: rng.choice(cc or '#') + rng.choice(['', ' a comment', '! p = 1.5', '!q=abc', '!  name  =  some text ', '! =', '!=', '! x', '! y = ', '!z=1=2', '!p=2x', '! k = -inf', '!k= nanometre', '!=5', '! a b = c d', '!\tt\t=\t7\t', '!', '! w = 1e-3 s', '!zz = 1.25e2m'])
    L = []
    row = lambda xs: edge() + ''.join((sep() if i else '') + x for i, x in enumerate(xs)) + edge()
    def noise():
        while rng.random() < .25: L.append(com() if rng.random() < .8 else ('' if rng.random() < .5 else edge()))
    noise()
    hs = headers(rng, n)
    if rng.random() < .04 and n > 1: hs[0] = hs[1]
    L.append(row(hs))
    for _ in range(r):
        noise()
        k = n if rng.random() < .96 else max(0, n + rng.choice([-1, 1]))
        L.append(row([cell(rng, g) for _ in range(k)]) + (rng.choice(cc or '#') + ' x' if rng.random() < .04 else ''))
    noise()
    t = nl.join(L) + (nl if rng.random() < .6 else '')
    if rng.random() < .05: t = t[:rng.randrange(len(t) + 1)]
    if rng.random() < .02: t = t.replace('1', '\0')
    return list(t.encode()), b(cc), b(dl)
def write_case(rng, s):
    o = Ops(rng, G(rng, big=0))
    v = table_value(rng, o.g)
    if not s.step(['init', [0], [v]]): return
    d = rng.choice([9, 9, 44, 59, 32, 124])
    for _ in range(rng.randint(1, 2)):
        e = s.step(['twrite', [0], [d, rng.choice([6, 17, 17, 12, 3, 1]), rng.choice([0, 0, 1, 2, 3, 4, 5])]])
        if not e: return
    if rng.random() < .5: s.step(['init', [1], [o.g.value(2)]])
    e = s.step(['twrite', [0], [d, 17, rng.choice([0, 1])]])
    if e and e['r'][0] == 'ok' and len(e['r'][1]) < 3000:   # what was written is read back
        st = [rng.choice(['tread', 'tread2']), [1], [e['r'][1], b('#%'), [d], rng.choice([0, 1, 3, 4])]]
        s.step(st + [[2]] if st[0] == 'tread2' and rng.random() < .3 else st)
def read_case(rng, s):
    o = Ops(rng, G(rng, big=0))
    if rng.random() < .5:
        if not s.step(['init', [0], [o.g.value(2)]]): return
    if rng.random() < .6:
        if not s.step(['init', [1], [[20, [[b('p'), [3, 1]], [b('q'), [19, []]]]] if rng.random() < .6 else o.g.value(2)]]): return
    for _ in range(rng.randint(1, 3)):
        t, cc, dl = table_text(rng, o.g)
        st = [rng.choice(['tread', 'tread2', 'tread2']), [0], [t, cc, dl, rng.choice([0, 0, 1, 2, 3, 4, 5])]]
        if st[0] == 'tread2' and rng.random() < .8: st.append([1])
        if not s.step(st): return
