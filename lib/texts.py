"""Text formats: number tables for the specification, text generators."""
import re, json, functools
from gens import *

NUM = re.compile(rb'[+-]?\d+(?:\.\d*)?(?:[eE][+-]?\d+)?')
def lex_table(text):
    """decimal lexemes of a text with the nearest binary64"""
    t = bytes(text); out = {}
    ms = list(NUM.finditer(t))
    if b'_' in t: ms += NUM.finditer(re.sub(rb'(?<=\d)_(?=\d)', b'', t))   # digit separators of TOML
    for m in ms:
        l = m.group()
        for x in {l, l.lstrip(b'+-'), b'-' + l.lstrip(b'+-')} if l[:1] in b'+-' else {l}:
            try: out[x] = rword(float(x))
            except ValueError: pass
    return [[list(k), v] for k, v in out.items()]
def fmt(x, p):
    s = '%.*g' % (p, x)
    return list(s.encode())
def fmt_table(v, p=12):
    """reals of the complex numbers of a value with their decimal text"""
    seen = {}
    def word1(w):
        seen[tuple(w)] = fmt(wreal(w), p)
    def go(v):
        k = v[0]
        if k == 6: pay(v[1])
        elif k == 13: [pay(x) for x in v[1]]
        elif k == 18: [pay(x) for x in v[3]]
        elif k == 19: [go(x) for x in v[1]]
        elif k == 20: [go(x) for _, x in v[1]]
    def pay(c):
        word1(c[0]); word1(c[1]); word1([c[1][0] ^ 32768] + c[1][1:])
    go(v)
    return [[list(k), t] for k, t in seen.items()]
def node_at(R, t):
    """value at a logged target [slot,[["i",n]|["k",bytes],...]]"""
    v = R[t[0]]
    for s, x in t[1]:
        v = v[1][x] if s == 'i' else next(e for k, e in v[1] if k == x)
    return v
def json_extra(s, e, st):
    op = st[0]
    if op in ('to_json', 'to_yaml'): return {'x': [lex_table(e['r'][1]) if e['r'][0] == 'ok' else [], fmt_table(node_at(s.R, e['t']))]}
    if op == 'to_toml': return {'x': [lex_table(e['r'][1]) if e['r'][0] == 'ok' else []]}
    if op in ('from_json', 'from_json2', 'from_yaml', 'from_toml'): return {'x': [lex_table(st[2][0])]}
    return {}

# --- random JSON texts ------------------------------------------------------
class JT:
    def __init__(self, rng): self.r = rng; self.g = G(rng, utf8=True)
    def ws(self):
        r = self.r
        return '' if r.random() < .6 else ''.join(r.choice(' \t\n\r ') for _ in range(r.randint(1, 3)))
    def string(self, s=None):
        r = self.r
        s = bytes(self.g.text() if s is None else s).decode('utf-8', 'replace')
        out = '"'
        for ch in s:
            o = ord(ch); c = r.random()
            if ch in '"\\' or o < 32 or c < .1:
                simple = {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\r': '\\r', '\b': '\\b', '\f': '\\f', '/': '\\/'}
                if ch in simple and r.random() < .7: out += simple[ch]
                elif o < 0x10000: out += '\\u%04x' % o if r.random() < .5 else '\\u%04X' % o
                else:
                    o -= 0x10000; out += '\\u%04x\\u%04X' % (0xd800 + (o >> 10), 0xdc00 + (o & 1023))
            else: out += ch
        return out + '"'
    def number(self):
        r = self.r; c = r.random()
        if c < .3: return str(self.g.i32())
        if c < .5: return str(self.g.i64())
        if c < .6: return r.choice(['0', '-0', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '18446744073709551615', '18446744073709551616', '2147483647', '2147483648', '-2147483648', '-2147483649', '123456789012345678901234567890',
                                    '0.0', '-0.0', '1e0', '1E+2', '1e-2', '0e5', '1.7976931348623157e308', '2.2250738585072014e-308', '5e-324', '2.4703282292062327e-324', '1e-400', '4.9e-324', '0.1', '0.30000000000000004', '9007199254740993', '9007199254740993.0', '1.00000000000000011102230246251565', '8.5e15', '1.0'])
        if c < .8: return repr(self.rfin())
        s = ('-' if r.random() < .4 else '') + (r.choice(['0', str(r.randint(1, 9)) + ''.join(r.choice('0123456789') for _ in range(r.choice([0, 1, 3, 9, 17, 20, 30])))]))
        if r.random() < .5: s += '.' + ''.join(r.choice('0123456789') for _ in range(r.choice([1, 2, 5, 17, 25])))
        if r.random() < .5: s += r.choice('eE') + r.choice(['', '+', '-']) + str(r.choice([0, 1, 2, 5, 10, 15, 22, 23, 40, 100, 250, 299, 308, 320]))
        return s
    def rfin(self):
        while True:
            x = self.g.real()
            if math.isfinite(x): return x
    def doc(self, d=3):
        r = self.r; c = r.random(); w = self.ws
        if d <= 0 or c < .35:
            c = r.random()
            if c < .1: return 'null'
            if c < .25: return r.choice(['true', 'false'])
            if c < .6: return self.number()
            return self.string()
        n = r.choice([0, 1, 1, 2, 2, 3, 4]) if r.random() < .97 else r.choice([8, 17, 33])
        if c < .7:
            if r.random() < .3:   # homogeneous: exercises collapsing
                f = r.choice([self.number, self.string, lambda: r.choice(['true', 'false']), lambda: str(r.randint(-3, 3)), lambda: '[%s]' % ','.join(self.number() for _ in range(2))])
                es = [f() for _ in range(n)]
            else: es = [self.doc(d - 1) for _ in range(n)]
            return '[' + w() + (w() + ',' + w()).join(es) + w() + ']'
        return '{' + w() + (w() + ',' + w()).join(self.string(self.key()) + w() + ':' + w() + self.doc(d - 1) for _ in range(n)) + w() + '}'
    def key(self): return [b for b in self.g.key()] if self.r.random() < .8 else self.g.text()
    def text(self):
        r = self.r
        if r.random() < .02:
            n = r.choice([20, 40, 80]); return self.ws() + '[' * n + r.choice(['', '1', '{}', '"x"']) + ']' * n
        return self.ws() + self.doc() + self.ws()
    JUNK = [b',', b':', b'[', b']', b'{', b'}', b'"', b'\\', b'0', b'1', b'-', b'.', b'e', b'E', b'+', b' ', b'\n', b'\t', b'a', b'true', b'null', b'/', b'//x\n', b'/**/', b"'", b'\xff', b'\xc3', b'\xef\xbb\xbf', b'u', b'\\u', b'\\ud800', b'\\x', b'NaN', b'Infinity', b'\x01', b'\x0b', b'#', b';', b'nul', b'tru', b'fals', b'True', b'NULL', b'[]', b'{}', b'""', b'\x00', b'1']
    def mutate(self, b):
        r = self.r; c = r.random()
        i = r.randrange(len(b) + 1)
        if c < .3: return b[:i]
        if c < .45: return b[:i] + b[i + 1:]
        if c < .75: return b[:i] + r.choice(self.JUNK) + b[i:]
        if c < .9: return b[:i] + r.choice(self.JUNK) + b[i + 1:]
        j = r.randrange(len(b) + 1); i, j = min(i, j), max(i, j)
        return b[:i] + b[j:] if r.random() < .5 else b[:j] + b[i:]

def prev_content(o, s):
    r = o.r
    if r.random() < .7: return s.step(['init', [0], [o.g.value(2) if r.random() < .5 else o.g.of_kind(r.choice([19, 20, 12, 14, 17, 10]), 2)]])
    return True
def json_read_case(rng, s):
    o = Ops(rng); t = JT(rng)
    for _ in range(rng.randint(1, 3)):
        if not prev_content(o, s): return
        b = t.text().encode('utf-8', 'surrogatepass')
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])): b = t.mutate(b)
        b = b[:1500]
        tgt = [0] if rng.random() < .8 else o.node(s.R)[0]
        if not s.step(['from_json', tgt, [list(b), rng.choice([0, 0, 0, 1, 2, 3])]]): return
        if not prev_content(o, s): return
        if not s.step(['from_json2', tgt, [list(b)]]): return
def json_trunc_case(rng, s):
    t = JT(rng)
    while True:
        b = t.text().encode()
        if len(b) < 90: break
    for n in range(len(b) + 1):
        if not s.step(['from_json', [0], [list(b[:n]), 0]]): return
        if not s.step(['from_json2', [1], [list(b[:n])]]): return
def json_write_case(rng, s):
    o = Ops(rng, G(rng, big=.05))
    c = rng.random()
    v = o.g.value(3) if c < .5 else o.g.of_kind(rng.choice([19, 20, 20, 13, 12, 17, 18]), 3) if c < .85 else o.g.numlist()
    if not s.step(['init', [0], [v]]): return
    for _ in range(rng.randint(1, 3)):
        how = rng.choice([0, 0, 0, 1, 2, 3])
        e = s.step(['to_json', o.node(s.R, None, (0,))[0] if rng.random() < .4 else [0], [how, rng.choice([[], [], [32], [32, 32], [9], [32] * 7])]])
        if not e or e['r'][0] != 'ok': return
        b = e['r'][1]
        if len(b) > 4000: return
        if not s.step(['from_json', [1], [b, 0]]): return
        if not s.step(['from_json2', [2], [b]]): return

# --- YAML -------------------------------------------------------------------
class YT(JT):
    """texts of the block fragment, with free layout"""
    def scalar(self):
        r = self.r; c = r.random()
        if c < .1: return r.choice(['null', 'Null', 'NULL'])
        if c < .22: return r.choice(['true', 'false', 'True', 'FALSE'])
        if c < .5:
            x = self.rfin() if r.random() < .5 else None
            return str(self.g.i32() if r.random() < .6 else self.g.i64()) if x is None else '%.17g' % x
        if c < .55: return r.choice(['.nan', '.inf', '-.inf', '0x1F', '0x0', '0xabcdef', '-0', '0', '1.0', '1e3', '1.5e+10', '-2.5E-3', '0.1'])
        if c < .7: return r.choice(['abc', 'word', 'x_1', 'Nulls', 'trueish', '_a', 'a.b', 'a-b', 'inf', 'nan', 'yes', 'e5', '1+2i', '-1.5-2i', '1e+20+3i'])
        return self.string()
    def flow(self, d):
        r = self.r; sp = lambda: ' ' * r.choice([0, 0, 1, 1, 2])
        if d <= 0 or r.random() < .6: return self.scalar()
        n = r.choice([0, 1, 2, 3])
        if r.random() < .7: return '[' + sp() + (sp() + ',' + sp()).join(self.flow(d - 1) for _ in range(n)) + sp() + ']'
        ks = self.keys(n)
        return '{' + sp() + (sp() + ',' + sp()).join(k + ': ' + sp() + self.flow(d - 1) for k in ks) + sp() + '}'
    def keys(self, n):
        r = self.r; out = {}
        for _ in range(n):
            if r.random() < .6: k = r.choice(['a', 'b', 'c', 'key', 'x1', '_y', 'Name', 'z_z']); out[k] = k
            else:
                k = bytes(self.key()).decode('utf-8', 'replace'); out[k] = self.string(k.encode())
        return list(out.values())
    def block(self, ind, d):
        """lines of a block collection at indentation ind"""
        r = self.r; L = []
        n = r.choice([1, 1, 2, 3])
        seq = r.random() < .5
        for k in ['-'] * n if seq else [k + ':' for k in self.keys(n)]:
            pad = ' ' * ind
            if r.random() < .1: L.append(r.choice(['', '   ', pad + '# c: [', '#']))
            if d > 0 and r.random() < .5:
                L.append(pad + k + ' ' * r.choice([0, 1, 2]))
                L += self.block(ind + r.choice([1, 2, 2, 3, 4]), d - 1)
            elif r.random() < .05: L.append(pad + k)
            else: L.append(pad + k + ' ' * r.choice([1, 1, 2]) + self.flow(2 if r.random() < .5 else 0) + ' ' * r.choice([0, 0, 1]))
        return L
    def ytext(self):
        r = self.r
        if r.random() < .15: return self.flow(2) + r.choice(['', '\n'])
        L = self.block(r.choice([0, 0, 0, 0, 2]), r.choice([1, 2, 3]))
        return r.choice(['', '', '\n']) + '\n'.join(L) + r.choice(['', '\n', '\n\n'])
    def ymut(self, b):
        """the text breaks off; other malformed texts crash the bundled parser (known finding)"""
        return b[:self.r.randrange(len(b) + 1)]
def yaml_read_case(rng, s):
    o = Ops(rng); t = YT(rng)
    for _ in range(rng.randint(1, 3)):
        if not prev_content(o, s): return
        b = t.ytext().encode('utf-8', 'replace')
        if rng.random() < .35: b = t.ymut(b)
        tgt = [0] if rng.random() < .8 else o.node(s.R)[0]
        if not s.step(['from_yaml', tgt, [list(b[:1500]), rng.choice([0, 0, 0, 1, 2, 3])]]): return
def yaml_write_case(rng, s):
    o = Ops(rng, G(rng, hp=.4, big=.05, utf8=rng.random() < .9))
    c = rng.random()
    v = o.g.value(3) if c < .5 else o.g.of_kind(rng.choice([19, 20, 20, 13, 12, 17, 18]), 3) if c < .85 else o.g.numlist()
    if not s.step(['init', [0], [v]]): return
    if rng.random() < .5 and not s.step(['init', [1], [o.g.value(2)]]): return
    for _ in range(rng.randint(1, 3)):
        e = s.step(['to_yaml', o.node(s.R, None, (0,))[0] if rng.random() < .4 else [0], [rng.choice([0, 0, 0, 1, 2, 3]), rng.choice([[], [], [32], [32, 32], [32] * 7])]])
        if not e or e['r'][0] != 'ok': return
        b = e['r'][1]
        if len(b) > 4000: return
        if not s.step(['from_yaml', [1], [b, rng.choice([0, 0, 1, 2, 3])]]): return

# --- TOML -------------------------------------------------------------------
class TT(JT):
    def tstring(self, s=None):
        r = self.r
        s = bytes(self.g.text() if s is None else s).decode('utf-8', 'replace')
        if r.random() < .2 and not any(ord(c) < 32 and c != '\t' or c in "'\x7f" for c in s) : return "'" + s + "'"
        out = '"'
        for ch in s:
            o = ord(ch); c = r.random()
            if ch in '"\\' or (o < 32 and ch != '\t') or o == 127 or c < .08:
                simple = {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\r': '\\r', '\b': '\\b', '\f': '\\f'}
                if ch in simple and r.random() < .7: out += simple[ch]
                elif o < 0x10000 and r.random() < .8: out += '\\u%04x' % o if r.random() < .5 else '\\u%04X' % o
                else: out += '\\U%08x' % o
            else: out += ch
        return out + '"'
    def tkey1(self):
        r = self.r
        if r.random() < .7: return r.choice(['a', 'b', 'c', 'key', 'x-1', '1', '0', '_y', 'Name', '-', 'z_z'])
        return self.tstring(self.key())
    def tkey(self):
        r = self.r; sp = lambda: r.choice(['', '', '', ' ', '\t'])
        return (sp() + '.' + sp()).join(self.tkey1() for _ in range(r.choice([1, 1, 1, 1, 2, 3])))
    def tnum(self):
        r = self.r; c = r.random()
        if c < .3: return str(self.g.i32())
        if c < .5: return str(self.g.i64())
        if c < .62: return r.choice(['+1', '+0', '-0', '9223372036854775807', '-9223372036854775808', '9223372036854775808', '2147483648', '-2147483649', '+1.5', '-0.0', 'inf', '-inf', '+inf', 'nan', '-nan', '+nan', '1e5', '1E+5', '01', '1.', '.5', '1_000', '0x1F', '1979-05-27', '07:32:00', '0e0', '5e-324', '1.7976931348623157e308', '9007199254740993.0'])
        if c < .72:     # digit separators
            s = repr(r.choice([self.g.i32(), self.g.i64(), self.rfin()])); n = r.randint(1, len(s))
            for _ in range(r.choice([1, 1, 2])): s = s[:n] + '_' + s[n:]; n = r.randint(1, len(s) - 1)
            return s
        if c < .8:      # other bases
            b = r.choice(['0x%x', '0x%X', '0o%o', '0b%s']); v = abs(r.choice([self.g.i32(), self.g.i64(), r.getrandbits(r.choice([8, 15, 16, 63, 64]))]))
            s = b % (v if b != '0b%s' else bin(v)[2:])
            if r.random() < .2: s = s[:2] + '0' * r.randint(1, 5) + s[2:]
            if r.random() < .2: n = r.randint(2, len(s)); s = s[:n] + '_' + s[n:]
            return s
        if c < .9: return self.twhen()
        x = self.rfin(); s = repr(x)
        return s
    def twhen(self):
        r = self.r
        d = '%04d-%02d-%02d' % (r.choice([0, 1, 4, 1900, 1979, 1999, 2000, 2020, 2023, 2024, 9999]), r.choice([1, 2, 2, 2, 6, 9, 12, 12, r.randint(0, 13)]), r.choice([1, 28, 28, 29, 30, 31, r.randint(0, 32)]))
        t = '%02d:%02d:%02d' % (r.choice([0, 7, 12, 23, 23, r.randint(0, 25)]), r.choice([0, 9, 59, r.randint(0, 61)]), r.choice([0, 1, 59, r.randint(0, 59), r.randint(0, 62)]))
        if r.random() < .4: t += '.' + r.choice(['0', '5', '000', '001', '120', '999999', '123456789', '1234567891', '000000001', '100000000', '0000000009'])
        if r.random() < .05: t = t[:-1]
        o = r.choice(['', '', 'Z', 'z', '+00:00', '-00:00', '+01:00', '-07:30', '+23:59', '-12:00', '+00:05', '-00:30', '+5:00', '+24:00', '+14:00'])
        return r.choice([d, d, t, t, d + 'T' + t + o, d + 'T' + t + o, d + ' ' + t + o, d + 't' + t + o])
    def tmulti(self):
        r = self.r; q = r.choice(['"', "'"]); s = ''
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            s += r.choice(['a', 'b c', '\n', '\n', '\n\n', '\n  ', q, q * 2, '\t', '#', 'é', '\\\\', '\\\n', '\\  \n\n  ', '\\"', '\\u00e9', '\\t', '\\ x', '[x]\n', '='])
        return q * 3 + s + q * r.choice([3, 3, 3, 3, 4, 5, 2])
    def tval(self, d=2, ml=True):
        r = self.r; c = r.random()
        if d <= 0 or c < .6:
            c = r.random()
            return r.choice(['true', 'false']) if c < .15 else self.tnum() if c < .6 else self.tmulti() if c < .7 else self.tstring()
        n = r.choice([0, 1, 2, 3])
        if c < .85:
            nl = lambda: r.choice(['', '', ' ', '\n', ' # c ]\n']) if r.random() < .3 else r.choice(['', ' '])
            if r.random() < .4:
                f = r.choice([self.tnum, self.tstring, self.twhen, self.tmulti, lambda: str(r.randint(-5, 5)), lambda: repr(r.random()), lambda: r.choice(['true', 'false']), lambda: '[1, 2]', lambda: '[%r, %r]' % (r.random(), 1.0)])
                es = [f() for _ in range(n)]
            else: es = [self.tval(d - 1) for _ in range(n)]
            return '[' + nl() + (nl() + ',' + nl()).join(es) + (nl() + ',' if es and r.random() < .2 else '') + nl() + ']'
        return '{' + ', '.join(self.tkey() + ' = ' + self.tval(d - 1) for _ in range(n)) + r.choice(['', ' ']) + '}'
    def ttext(self):
        r = self.r; L = []; heads = []
        for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
            c = r.random()
            if c < .1: L.append(r.choice(['', '  ', '# c = [', '\t# x']))
            elif c < .35:
                if heads and r.random() < .5: k = r.choice(heads)
                else: k = self.tkey()
                if r.random() < .5: k = k + '.' + self.tkey1()
                heads.append(k)
                L.append(r.choice(['[%s]', '[%s]', '[[%s]]', '[[ %s ]]', ' [%s] # h']) % k)
            else: L.append(r.choice(['', '', '  ', '\t']) + self.tkey() + r.choice([' = ', '=', ' =\t', '  =  ']) + self.tval() + r.choice(['', '', '', ' ', ' # t']))
        nl = '\n' if r.random() < .9 else '\r\n'
        return nl.join(L) + r.choice(['', nl])
    TJUNK = [b'=', b'[', b']', b'{', b'}', b'"', b"'", b'.', b',', b'#', b'\n', b'\r', b'\\', b'a', b'0', b'1', b'-', b'+', b'_', b' ', b'\xff', b'\x01', b'inf', b'[[', b']]', b'a=1', b'"""', b"'''", b':', b'T', b'Z', b'0x', b'\n[a]\n', b'\\u', b'\\x']
    def tmut(self, b):
        r = self.r; c = r.random()
        i = r.randrange(len(b) + 1)
        if c < .35: return b[:i]
        if c < .5: return b[:i] + b[i + 1:]
        if c < .8: return b[:i] + r.choice(self.TJUNK) + b[i:]
        if c < .9: return b[:i] + r.choice(self.TJUNK) + b[i + 1:]
        j = r.randrange(len(b) + 1); i, j = min(i, j), max(i, j)
        return b[:i] + b[j:] if r.random() < .5 else b[:j] + b[i:]
def toml_read_case(rng, s):
    o = Ops(rng); t = TT(rng)
    for _ in range(rng.randint(1, 3)):
        if not prev_content(o, s): return
        b = t.ttext().encode('utf-8', 'replace')
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])): b = t.tmut(b)
        tgt = [0] if rng.random() < .8 else o.node(s.R)[0]
        if not s.step(['from_toml', tgt, [list(b[:1500]), rng.choice([0, 0, 0, 1, 2, 3])]]): return
def no_none(v, rng):
    """removes most empty values: TOML has none"""
    if v[0] == 0: return [3, 1] if rng.random() < .97 else v
    if v[0] == 19: return [19, [no_none(x, rng) for x in v[1]]]
    if v[0] == 20: return [20, [[k, no_none(x, rng)] for k, x in v[1]]]
    return v
def toml_write_case(rng, s):
    o = Ops(rng, G(rng, hp=.4, big=.05, utf8=rng.random() < .95))
    v = o.g.of_kind(20, rng.choice([1, 2, 3, 3]))
    if rng.random() < .85: v = no_none(v, rng)
    if not s.step(['init', [0], [v]]): return
    if rng.random() < .5 and not s.step(['init', [1], [o.g.value(2)]]): return
    for _ in range(rng.randint(1, 2)):
        e = s.step(['to_toml', o.node(s.R, None, (0,))[0] if rng.random() < .3 else [0], [rng.choice([0, 0, 0, 1, 2])]])
        if not e or e['r'][0] != 'ok': continue
        b = e['r'][1]
        if len(b) > 4000: return
        if not s.step(['from_toml', [1], [b, rng.choice([0, 0, 1, 2, 3])]]): return
