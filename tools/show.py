#!/usr/bin/env python3
"""readable form of a replay file"""
import json, sys
def b(x): 
    try: return repr(bytes(x))
    except Exception: return str(x)
d = json.load(open(sys.argv[1]))
print(d['rejected'])
for l in d['log']:
    e = json.loads(l)
    for k in ('r', 'a'):
        for x in e.get(k, []):
            if isinstance(x, list) and x and all(isinstance(y, int) and 0 <= y < 256 for y in x): print('   ', e['op'], k, b(x))
            elif k == 'a' or k == 'r': print('   ', e['op'], k, str(x)[:300])
    if e.get('c'): print('    ->', str(e['c'])[:1500])
