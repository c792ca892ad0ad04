"""Histories over the Lua interpreter."""
from gens import *
NAMES = [[120], [121], [122]]
LEAKS = ['call', 'callfail', 'set', 'get', 'getnil', 'getfun', 'exec', 'execfail', 'syntax', 'nofile', 'badcall', 'own']
def lua_value(o, rng):
    """mostly content that Lua can express"""
    g = o.g; c = rng.random()
    if c < .15: return g.value(3)
    k = rng.choice([2, 3, 4, 5, 7, 9, 10, 11, 12, 14, 19, 19, 20, 20, 20])
    return clean(g.of_kind(k, 3), rng)
def clean(v, rng):
    if v[0] in (0, 1, 6, 8, 13, 15, 16, 17, 18): return v if rng.random() < .1 else [4, word(rng.getrandbits(62))]
    if v[0] == 19: return [19, [clean(x, rng) for x in v[1]]]
    if v[0] == 20: return [20, [[k, clean(x, rng)] for k, x in v[1]]]
    return v
def lua_case(rng, s):
    o = Ops(rng, G(rng, big=.05))
    for n in (0, 1):
        if not s.step(['init', [n], [lua_value(o, rng)]]): return
    nm = lambda: rng.choice(NAMES)
    for _ in range(rng.randint(2, 14)):
        c = rng.random()
        if c < .28: st = ['lua_set', o.node(s.R, None, (0, 1, 2))[0] if rng.random() < .4 else [rng.randrange(3)], [nm()]]
        elif c < .5: st = ['lua_get', [rng.choice([2, 2, 3, 1])] if rng.random() < .85 else o.node(s.R)[0], [nm()]]
        elif c < .68:
            st = ['lua_call', [rng.choice([2, 3, 3])] if rng.random() < .9 else o.node(s.R)[0], [rng.choice(['id', 'id', 'two', 'none', 'wrap', 'mapk', 'pair', 'fail', 'failt', 'undefined'])], o.node(s.R, None, (0, 1, 2))[0] if rng.random() < .4 else [rng.randrange(3)]]
        elif c < .7: st = ['lua_callx', [3], [], o.node(s.R)[0]]
        elif c < .93:
            w = rng.choice(['copy', 'del', 'id', 'wrap', 'mapk', 'pair', 'len', 'field', 'elem', 'error', 'errt', 'syntax', 'file', 'filebad', 'fileerr', 'nofile'])
            k = 0
            if w == 'field':
                m = [v for v in s.R if v[0] == 20 and v[1]]
                k = list(rng.choice(rng.choice(m)[1])[0]) if m and rng.random() < .8 else o.g.key()
            elif w in ('elem', 'file', 'filebad', 'fileerr'): k = rng.choice([1, 1, 2, 2, 3, 4, 0, 9])
            st = ['lua_cmd', [0], [w, nm(), nm(), k]]
        else: st = ['init', [rng.randrange(2)], [lua_value(o, rng)]]
        if not s.step(st): return
        if sum(len(str(v)) for v in s.R) > (60000 if o.g.washuge else 12000): return
def lua_leak_case(rng, s):
    o = Ops(rng, G(rng))
    if not s.step(['init', [0], [lua_value(o, rng)]]): return
    if len(str(s.R[0])) > 300: return
    s.step(['lua_leak', [0], [rng.choice(LEAKS)]])
