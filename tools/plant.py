#!/usr/bin/env python3
"""plant.py FILE.py: each FILE defines PLANTS=[dict(id,property,file,edits=[(old,new)],needs,breaks,demo,libs)].
Applies each edit to /repo, checks build, stable tests and the demonstration, and stores it in seeded/."""
import sys, os, json, subprocess, runpy, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = os.environ.get('REPO', '/repo')
DEMO = '''#!/bin/bash
# run in the repository: compiles demo.cc against its sources; exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
%s
timeout 120 "$T/demo"
'''
BUILD = {
 '': 'g++ -std=c++17 -w -O0 -Iinclude "$D/demo.cc" src/*.cc -o "$T/demo" || exit 99',
 'json': 'g++ -std=c++17 -w -O0 -Iinclude -Isrc_json_interface "$D/demo.cc" src/*.cc src_json_interface/*.cc -o "$T/demo" || exit 99',
 'yaml': 'g++ -std=c++17 -w -O0 -Iinclude -Isrc_yaml_interface "$D/demo.cc" src/*.cc src_yaml_interface/*.cc -o "$T/demo" || exit 99',
 'toml': 'g++ -std=c++17 -w -O0 -Iinclude -Isrc_toml_interface "$D/demo.cc" src/*.cc src_toml_interface/*.cc -o "$T/demo" || exit 99',
 't': 'g++ -std=c++17 -w -O1 -g -fsanitize=address -Iinclude "$D/demo.cc" src/*.cc -lpthread -o "$T/demo" || exit 99',
 'json-t': 'g++ -std=c++17 -w -O1 -g -fsanitize=address -Iinclude -Isrc_json_interface "$D/demo.cc" src/*.cc src_json_interface/*.cc -lpthread -o "$T/demo" || exit 99',
 'mex': 'g++ -std=c++17 -w -O0 -Iinclude -I"$D" "$D/demo.cc" src/*.cc src_matlab_interface/GenericContainerInterface_matlab.cc -o "$T/demo" || exit 99',
 'lua': '''L=src_lua_interface/lua-5.4.6/src
for f in $L/*.c; do case $f in */lua.c|*/luac.c) ;; *) gcc -w -O0 -DLUA_USE_LINUX -DLUA_COMPAT_5_3 -c $f -o "$T/$(basename $f).o" || exit 99;; esac; done
g++ -std=c++17 -w -O0 -Iinclude -I$L "$D/demo.cc" src/*.cc src_lua_interface/GenericContainerInterface_lua.cc "$T"/*.o -ldl -o "$T/demo" || exit 99''',
}
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def stable():
    if sh('bash /opt/vp/build.sh').returncode: return 'build failed'
    o = '/tmp/plant_out.json'; sh('bash /opt/vp/test.sh ' + o)
    base = json.load(open('/opt/vp/BASELINE.json')); res = json.load(open(o))
    p = set(res.get('passed', res.get('pass', [])))
    want = set(base.get('stable', base.get('passed', base.get('tests', []))))
    miss = want - p
    return 'tests fail: %s' % sorted(miss) if miss else None
def main():
    only = set(sys.argv[2:])
    for P in runpy.run_path(sys.argv[1])['PLANTS']:
        if only and P['id'] not in only: continue
        d = os.path.join(V, 'seeded', P['id'])
        assert not sh('git -C %s status --porcelain' % R).stdout.strip(), 'repo not clean'
        try:
            fn = os.path.join(R, P['file']); s = open(fn).read()
            for old, new in P['edits']:
                assert s.count(old) == 1, '%s: %d matches of %r' % (P['id'], s.count(old), old)
                s = s.replace(old, new)
            os.makedirs(d, exist_ok=True)
            open(d + '/demo.cc', 'w').write(P['demo']); open(d + '/demo.sh', 'w').write(DEMO % BUILD[P.get('libs', '')]); os.chmod(d + '/demo.sh', 0o755)
            if P.get('libs') == 'mex': shutil.copy(V + '/harness/mex/mex.h', d); shutil.copy(V + '/harness/mex/standin.hh', d)
            clean = sh('bash %s/demo.sh' % d, cwd=R)
            open(fn, 'w').write(s)
            diff = subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE).stdout
            open(d + '/patch.diff', 'wb').write(diff)
            json.dump(dict(property=P['property'], needs=P['needs'], what_it_breaks=P['breaks']), open(d + '/meta.json', 'w'), indent=1)
            bad = sh('bash %s/demo.sh' % d, cwd=R)
            t = stable()
            # are the removed lines original ones?
            base = subprocess.run(['git', '-C', R, 'show', 'a99f380:' + P['file']], stdout=subprocess.PIPE).stdout.decode().split('\n')
            rem = [l[1:] for l in diff.decode().split('\n') if l.startswith('-') and not l.startswith('---')]
            orig = [l in base for l in rem]
            ok = clean.returncode == 0 and bad.returncode not in (0, 99) and not t
            print(P['id'], 'OK' if ok else 'REJECTED', 'clean', clean.returncode, 'patched', bad.returncode, t or '', '' if all(orig) and rem else 'NOT ALL ORIGINAL LINES %s' % orig, flush=True)
            if clean.returncode or bad.returncode == 99: print((clean.stdout + bad.stdout).decode()[-1500:])
            if not ok: shutil.rmtree(d)
        finally:
            sh('git -C %s checkout -- .' % R)
    sh('bash /opt/vp/build.sh')
main()
