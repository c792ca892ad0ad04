"""Random values in the encoding of spec/GCValue.tla (lists = tuples)."""
import struct, math

def word(n):
    n &= (1 << 64) - 1
    return [n >> 48, (n >> 32) & 0xffff, (n >> 16) & 0xffff, n & 0xffff]
def rword(x):
    if x != x: return [32760, 0, 0, 0]
    return word(struct.unpack('<Q', struct.pack('<d', x))[0])
def unword(w): return (w[0] << 48) | (w[1] << 32) | (w[2] << 16) | w[3]
def wlong(w):
    n = unword(w); return n - (1 << 64) if n >> 63 else n
def wreal(w): return struct.unpack('<d', struct.pack('<Q', unword(w)))[0]
def bs(s): return list(s if isinstance(s, (bytes, bytearray)) else s.encode('utf-8'))

import os
HUGE_P = float(os.environ.get('VERIF_HUGE', '.006'))
NUMK = range(2, 7)
I32 = [0, 1, -1, 2, 3, 5, 7, 9, 10, -10, 12, 99, 100, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536,
       -32768, -65536, 1 << 24, (1 << 24) + 1, 1 << 30, 999999999, 1000000000, 2147483646, 2147483647, -2147483647, -2147483648]
I64 = I32 + [1 << 31, (1 << 31) + 1, -(1 << 31) - 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 7, -(1 << 32), -(1 << 32) - 1,
             1 << 40, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, (1 << 53) + 3, -(1 << 53) - 1, (1 << 54) + 1, 1 << 62, (1 << 62) + 1, 9007199254740995,
             123456789012345678, 999999999999999999, 10**18, (1 << 63) - 1, (1 << 63) - 513, (1 << 63) - 1024, -(1 << 63), -(1 << 63) + 1]
RE = [0.0, -0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 1.5, 0.1, 1 / 3, -2.75, 3.14159265358979, 1e-3, 1e-17, 123456.789, 1e15, 1e16, 1e17, 1e21, 1e22, 1e300, -1e300,
      2147483647.0, 2147483646.5, 2147483648.0, 2147483647.5, -2147483648.0, -2147483648.5, -2147483649.0, 4294967295.0, 4294967295.5, 4294967296.0,
      2.0**53, 2.0**53 + 2, 2.0**62, 2.0**63, 2.0**63 - 1024, -(2.0**63), -(2.0**63) - 2048, 2.0**64, 2.0**64 - 2048, 2.0**65, 5e-324, -5e-324, 1e-310,
      2.2250738585072014e-308, 1.7976931348623157e308, float('inf'), float('-inf'), float('nan'), 0.99999999999999989, 1.0000000000000002, 16777217.0,
      3.4028235677973366e38, 3.5e38, 1e-40, 9007199254740993.0, 100.0, 1e5, 1e-5, 299792458.0, -0.3, 0.30000000000000004, 6.02214076e23]

class G:
    """value generator; opts: utf8 (text valid UTF-8), finite, nonul"""
    def __init__(self, rng, utf8=False, finite=False, ptr=True, kinds=None, big=0.03, nonul=False, nosub=False, hp=1):
        self.r = rng; self.utf8 = utf8; self.finite = finite; self.ptr = ptr; self.big = big; self.nonul = nonul; self.nosub = nosub
        self.kinds = kinds or [k for k in range(0, 21) if ptr or k not in (1, 8)]
        self.huge = rng.random() < HUGE_P * hp and big > 0      # one value of this case is large
        self.washuge = self.huge
    def i32(self):
        r = self.r; c = r.random()
        if c < .5: return r.choice(I32)
        if c < .8: return r.randint(-20, 200)
        return r.randint(-2**31, 2**31 - 1)
    def i64(self):
        r = self.r; c = r.random()
        if c < .6: return r.choice(I64)
        if c < .75: return r.randint(-20, 200)
        return r.randint(-2**63, 2**63 - 1) >> r.choice([0, 0, 8, 24, 31, 32, 40])
    def real(self):
        r = self.r
        while True:
            c = r.random()
            if c < .5: x = r.choice(RE)
            elif c < .62: x = float(r.randint(-50, 50)) / r.choice([1, 2, 4, 10, 3, 7])
            elif c < .74: x = float(self.i64())
            elif c < .87: x = r.uniform(-1, 1) * 10.0**r.randint(-20, 20)
            else: x = struct.unpack('<d', struct.pack('<Q', r.getrandbits(64)))[0]
            if self.finite and not math.isfinite(x): continue
            if self.nosub and x != 0 and abs(x) < 2.3e-308: continue
            return x
    def cplx(self):
        r = self.r; c = r.random()
        re = self.real()
        im = 0.0 if c < .3 else (-0.0 if c < .34 else self.real())
        return [rword(re), rword(im)]
    def length(self, small=4):
        r = self.r; c = r.random()
        if c < .0015 and self.big > 0: return r.choice([64, 65, 100, 127, 128, 129, 255, 256, 257, 300])
        if c < .12: return 0
        if c < .3: return 1
        if c < 1 - self.big: return r.randint(1, small)
        return r.choice([7, 8, 9, 10, 11, 12, 16, 17, 20, 33])
    def text(self):
        r = self.r; c = r.random()
        if c < .1: s = b''
        elif c < .3: s = bytes(r.choice(b'abcxyz019 _-') for _ in range(r.randint(1, 6)))
        elif c < .5: s = r.choice([b'a', b'key', b'hello world', b' lead', b'trail ', b'1', b'-12', b'1.5', b'true', b'false', b'null', b'nan', b'"q"', b"it's", b'a\\b', b'a/b',
                                   b'a,b', b'a: b', b'# c', b'[x]', b'{y}', b'tab\there', b'line\nbreak', b'cr\rlf\n', b'~', b'yes', b'no', b'0x10', b'1e5', b'- a', b'%', b'@', b'&a', b'*a', b'!t', b'|', b'>',
                                   b'\n', b'\n\nx', b'\t', b' ', b'""', b"''", b"'''", b'"""', b'\\', b'\\n', b'\\u0041', b'inf', b'.inf', b'=', b'a=b', b'a.b', b'$x', b'\x7f', b'?', b':', b'-', b'NULL', b'True', b'on', b'1_000', b'12:30', b'2001-01-01', b'0o7', b'.5', b'5.', b'+1'])
        elif c < .7: s = ''.join(r.choice('aé€ñß漢字😀\u00a0\u2028 \u0080\u07ff\u0800\uffff\U00010000\U0010ffffz') for _ in range(r.randint(1, 5))).encode('utf-8')
        elif c < .85: s = bytes(r.randint(0, 127) for _ in range(r.randint(1, 6)))
        elif c < 1 - self.big or self.utf8:
            s = bytes(r.randint(0, 255) for _ in range(r.randint(1, 6)))
            if self.utf8: s = bytes(b & 127 for b in s)
        else: s = bytes(r.randint(32, 126) for _ in range(r.choice([15, 16, 17, 31, 32, 64, 127, 128, 255, 256, 300])))
        if self.nonul: s = s.replace(b'\0', b'0')
        return list(s)
    KEYS = [b'', b'a', b'b', b'c', b'd', b'aa', b'ab', b'a b', b'A', b'1', b'key', b'key1', b'\xc3\xa9', b'a.b', b'z', b'_x', b'"', b'a\0b', b'a\0', b'name-1', b'null', b'true']
    def key(self):
        r = self.r
        if r.random() < .85:
            k = r.choice(self.KEYS if r.random() < .3 else self.KEYS[1:8])
            return list(k.replace(b'\0', b'0') if self.nonul else k)
        return self.text()
    def payload(self, k):
        r = self.r
        if k == 1: return r.choice([0, 1, 2, 3, 7, 255, 4096, 29999, r.randint(0, 29999)])
        if k == 2: return r.randint(0, 1)
        if k == 3: return self.i32()
        if k == 4: return word(self.i64())
        if k == 5: return rword(self.real())
        if k == 6: return self.cplx()
        if k == 7: return self.text()
    HUGE = [64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 512, 513, 1000, 1001, 1025]
    def large(self, k):
        r = self.r; self.huge = False
        n = r.choice(self.HUGE)
        if k == 7: return [7, [r.randint(97, 122) for _ in range(n)] if r.random() < .5 else (self.text() * 1100)[:n]]
        if k <= 14:
            one = self.payload(k - 7) if r.random() < .5 else None
            if k in (13, 14): n = min(n, 300)
            return [k, [one if one is not None and r.random() < .9 else self.payload(k - 7) for _ in range(n)]]
        if k <= 18:
            nr, nc = r.choice([(1, 257), (257, 1), (17, 16), (12, 30), (30, 12), (129, 2), (2, 129), (11, 11), (300, 1), (10, 100)])
            if k == 18 and nr * nc > 300: nr, nc = 11, 12
            one = self.payload(k - 12)
            return [k, nr, nc, [one if r.random() < .8 else self.payload(k - 12) for _ in range(nr * nc)]]
        c = r.random()
        if c < .2:                                     # deep
            v = self.value(0)
            for _ in range(min(n, r.choice([20, 33, 40]))): v = [19, [v]] if r.random() < .5 else [20, [[self.key(), v]]]
            return v if v[0] == k else [19, [v]] if k == 19 else [20, [[self.key(), v]]]
        ks = r.choice([[3], [3, 4], [2], [7], [5], [x for x in self.kinds if x < 8], [19, 20, 3]])
        ks = [x for x in ks if x in self.kinds] or [3]
        el = lambda: [3, r.randint(0, 9)] if n > 130 and c < .8 else self.of_kind(r.choice(ks), 0) if max(ks) < 19 else self.of_kind(r.choice(ks), 1, 2)
        if n > 130 and max(ks) >= 19: n = 130
        if k == 19: return [19, [el() for _ in range(n)]]
        d = {}
        n = min(n, 300)
        for i in range(n): d[b'%d' % i if c < .5 else b'k%03d' % i if c < .8 else bytes(self.text())] = el()
        if self.nonul: d = {x.replace(b'\0', b'0'): d[x] for x in d}
        return [20, [[list(x), d[x]] for x in sorted(d)]]
    def of_kind(self, k, depth=2, small=4):
        r = self.r
        if self.huge and k >= 7: return self.large(k)
        if k == 0: return [0]
        if k <= 7: return [k, self.payload(k)]
        if k <= 14: return [k, [self.payload(k - 7) for _ in range(self.length(small))]]
        if k <= 18:
            nr, nc = r.choice([(0, 0), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 3), (3, 1), (0, 2), (2, 0), (4, 2), (2, 5)])
            return [k, nr, nc, [self.payload(k - 12) for _ in range(nr * nc)]]
        if k == 19: return [19, [self.value(depth - 1) for _ in range(min(130, self.length(3 if depth < 2 else 4)))]]
        d = {}
        for _ in range(min(130, self.length(3 if depth < 2 else 4))): d[bytes(self.key())] = self.value(depth - 1)
        return [20, [[list(k), d[k]] for k in sorted(d)]]
    def value(self, depth=2):
        r = self.r
        ks = self.kinds if depth > 0 else [k for k in self.kinds if k < 19]
        k = r.choice(ks)
        if depth > 0 and r.random() < .25: k = r.choice([x for x in (19, 20) if x in self.kinds] or [k])
        return self.of_kind(k, depth)
    def numlist(self, depth=2):
        """list likely to collapse"""
        r = self.r; c = r.random()
        n = min(130, self.length(4))
        if c < .5:
            ks = r.choice([[2], [3], [4], [5], [6], [2, 3], [3, 4], [3, 5], [4, 5], [3, 4, 5], [2, 3, 4, 5, 6], [3, 6], [7], [3, 7], [0, 3], [1, 3], [1]])
            return [19, [self.of_kind(r.choice(ks)) for _ in range(n)]]
        if c < .9:
            m = min(40, self.length(3))
            ks = r.choice([[9], [10], [11], [12], [13], [9, 10], [10, 11], [10, 12], [11, 12], [10, 11, 12, 13], [14], [10, 14], [12, 3], [8], [8, 10], [10, 7], [15], [17, 12]])
            out = []
            for _ in range(n):
                k = r.choice(ks); mm = m if r.random() < .9 else m + 1
                if k in range(8, 15):
                    if r.random() < .5: out.append([k, [self.payload(k - 7) for _ in range(mm)]])
                    else: out.append([19, [[k - 7, self.payload(k - 7)] for _ in range(mm)]])
                else: out.append(self.of_kind(k))
            return [19, out]
        return [19, [self.numlist(depth - 1) if depth > 0 else self.value(0) for _ in range(n)]]

def nodes(v, path=()):
    """all nodes of a value with their selectors (int for lists, key bytes for maps)"""
    yield path, v
    if v[0] == 19:
        for i, e in enumerate(v[1]): yield from nodes(e, path + (i,))
    elif v[0] == 20:
        for i, (k, e) in enumerate(v[1]): yield from nodes(e, path + (i,))
def nelem(v):
    if v[0] == 0: return 0
    if v[0] <= 7: return 1
    if 15 <= v[0] <= 18: return len(v[3])
    return len(v[1])
def at(v, path):
    for p in path:
        if v[0] == 19: v = v[1][p]
        else: v = v[1][p][1]
    return v
