#!/usr/bin/env python3
"""mutate.py PID COUNT SEED: small random edits of the code behind a property, in a scratch copy of /repo;
reports the edits the property's quick check does not reject."""
import sys, os, re, random, subprocess, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, H = 'src/GenericContainer.cc', 'include/GenericContainer/GenericContainer.hh'
PR, CO, SE = 'src/GenericContainerPromote.cc', 'src/GenericContainerCollapse.cc', 'src/GenericContainerSerialize.cc'
def fns(f, *names): return [(f, n) for n in names]
WHERE = {
 'P01': fns(C, 'allocate_', 'set_', 'free_pointer', 'get_pvoid', 'get_ppvoid', 'get_int_pointer', 'get_long_pointer', 'get_real_pointer', 'get_complex_pointer', 'get_bool', 'get_int', 'get_long', 'get_real', 'get_complex', 'get_string', 'get_vec', 'get_mat', 'num_rows', 'num_cols', 'get_num_elements', 'clear', 'ck'),
 'P02': fns(C, 'get_value', 'get_number', 'get_complex_number', 'get_as', 'get_if_exists'),
 'P03': fns(C, 'get_bool_at', 'get_int_at', 'get_long_at', 'get_real_at', 'get_complex_at', 'get_string_at', 'get_gc_at', 'get_number_at', 'get_complex_number_at', 'operator [] ( unsigned', 'operator () ( unsigned', 'get_row', 'get_column'),
 'P04': fns(C, 'exists', 'must_exists', 'get_if_exists', 'get_map', 'get_keys', 'erase', 'operator () ( string', 'operator () ( vec_string', 'operator [] ( string'),
 'P05': fns(C, 'from_gc', 'to_gc', 'operator ='), 'P06': fns(C, 'merge'), 'P07': fns(C, 'compare_content'),
 'P08': [(PR, '')], 'P09': fns(C, 'push_'), 'P10': fns(C, 'copyto') + fns(PR, 'copyto'), 'P11': [(CO, '')], 'P12': [(SE, '')], 'P13': [(SE, '')],
 'P14': [('src_json_interface/to_json.cc', '')], 'P15': [('src_json_interface/from_json.cc', ''), ('src_json_interface/from_json2.cc', ''), ('src_json_interface/jsonLexer.cc', '')],
 'P16': [('src_yaml_interface/to_yaml.cc', ''), ('src_yaml_interface/from_yaml.cc', '')], 'P17': [('src_toml_interface/to_toml.cc', ''), ('src_toml_interface/from_toml.cc', '')],
 'P18': [('src_lua_interface/GenericContainerInterface_lua.cc', '')], 'P19': [('src/GenericContainerInterface_C.cc', '')],
 'P20': [('src/GenericContainerSupport.cc', ''), ('src/GenericContainerTables.cc', '')], 'P21': fns(C, 'dump', 'print_content_types', 'info'),
 'P23': [('src_matlab_interface/GenericContainerInterface_matlab.cc', '')],
 'P22': fns(C, 'clear', 'allocate_', 'from_gc', 'push_', 'get_complex', 'get_string', 'operator') + [(PR, ''), (SE, ''), (CO, '')],
}
RULES = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
         (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'!(?=[a-z(])', ''), (r'\{0\}', '{1}'), (r' = 0;', ' = 1;'), (r'\{1\}', '{0}'), (r'\+ ?1\b', '+ 2'), (r'- ?1\b', ''),
         (r' \+ ', ' - '), (r' - ', ' + '), (r'\*', '+'), (r'\bbreak;', ''), (r'\breturn;', ''), (r'\.imag\(\)', '.real()'), (r'\.real\(\)', '.imag()'),
         (r'\bint32_t\b', 'int16_t'), (r'\bint_type\b', 'short'), (r'\blong_type\b', 'int_type'), (r'\bfloor\b', 'ceil'), (r'\bnum_rows\b', 'num_cols'), (r'\bnumRows\b', 'numCols'), (r'\( ?i, ?j ?\)', '(j,i)'),
         (r'\bfront\b', 'back'), (r'\bempty\(\)', 'size() == 1'), (r'\bLONG\b', 'INTEGER'), (r'\bINTEGER\b', 'BOOL'), (r'\bREAL\b', 'LONG'), (r'\bVEC_REAL\b', 'VEC_LONG'), (r'\bMAT_REAL\b', 'MAT_LONG'), (r'\bVEC_LONG\b', 'VEC_INTEGER')]
def candidates(pid, root):
    out = []
    for f, name in WHERE[pid]:
        L = open(os.path.join(root, f)).read().split('\n')
        inside = name == ''; depth = 0; started = False
        for i, l in enumerate(L):
            if name and re.match(r'  \S.*GenericContainer::' + re.escape(name), l) or name and re.match(r'  GenericContainer::' + re.escape(name), l): inside = True
            if inside:
                s = l.strip()
                if not s.startswith(('//', '*', '/*', '#', 'GC_ASSERT', 'template')) and 'GenericContainer::' not in l:
                    for a, b in RULES:
                        for m in re.finditer(a, l.split('//')[0]):
                            if '"' in l[:m.start()] and l[:m.start()].count('"') % 2: continue
                            out.append((f, i, l, l[:m.start()] + b + l[m.end():]))
                    if re.match(r'^\s+[a-zA-Z_.>\-\[\]()]+.*;\s*(//.*)?$', l) and not re.match(r'^\s*(return|break|case|using|typedef|auto|const|int|unsigned|static|throw|delete\b)', s) and ('(' in s or '=' in s) and not re.match(r'^\s*\w[\w:<> ]* [&*]? ?\w+(\{|;| =)', l):
                        out.append((f, i, l, '    ;'))
                if name and l == '  }': inside = False
    return sorted(set(out))
def main():
    pid, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    wt = '/tmp/wt_' + pid
    shutil.rmtree(wt, ignore_errors=True); shutil.copytree('/repo', wt, symlinks=True, ignore=shutil.ignore_patterns('.git', 'build', 'docs*'))
    c = candidates(pid, wt); rng = random.Random(seed); pick = rng.sample(c, min(n, len(c)))
    res = dict(killed=0, survived=0, broken=0)
    try:
        for f, i, a, b in pick:
            p = os.path.join(wt, f); src = open(p).read(); L = src.split('\n'); L[i] = b; open(p, 'w').write('\n'.join(L))
            try:
                r = subprocess.run([sys.executable, os.path.join(V, 'check.py'), pid, 'quick'], env=dict(os.environ, REPO=wt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                o = r.stdout.decode('utf-8', 'replace')
            finally: open(p, 'w').write(src)
            k = 'killed' if r.returncode == 1 else 'survived' if r.returncode == 0 else 'broken'
            res[k] += 1
            if k == 'survived' or k == 'broken' and 'build failed' not in o: print('%s %s %s:%d\n   %s\n   %s' % (pid, k.upper(), f, i + 1, a.strip(), b.strip()), (o[-400:] if k == 'broken' else ''), flush=True)
        print(pid, len(c), 'candidates', res, flush=True)
    finally: shutil.rmtree(wt, ignore_errors=True)
main()
