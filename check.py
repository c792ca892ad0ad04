#!/usr/bin/env python3
"""Decides one property: check.py PXX quick|thorough   |   check.py replay FILE

1. TLC explores the small-scope model (spec/GCModel.tla), checks its laws and
   writes every transition as a script.
2. The driver (harness/) built from /repo executes those scripts and seeded
   random histories on the real library, logging replies and contents.
3. TLC validates every logged step against the specification (spec/GCTrace.tla).
A rejected step is re-executed; if it is rejected again it is a violation.
"""
import sys, os, json, time, random, shutil, subprocess, tempfile, multiprocessing as mp, re, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.dont_write_bytecode = True
import tlc, session, props

class CheckError(Exception): pass

def scratch_root():
    d = os.path.join(V, 'build'); os.makedirs(d, exist_ok=True); return d

def build(out, features):
    p = subprocess.run([os.path.join(V, 'harness', 'build.sh'), out] + features, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0: raise CheckError('build failed:\n' + p.stdout.decode('utf-8', 'replace')[-3000:])

def parse_validation(out, rc, n):
    """-> list of rejected line numbers with expected answers"""
    bad = []; want = None; consumed = None
    for l in out.split('\n'):
        if l.startswith('"WANT '):
            want = json.loads(l)[5:]
        elif l.startswith('"BAD '):
            b = json.loads(json.loads(l)[4:]); bad.append((b[0], b[1:], want)); want = None
        elif l.startswith('"CONSUMED '): consumed = int(re.findall(r'\d+', l)[0])
    if consumed != n:
        m = re.findall(r'^/\\ i = (\d+)', out, re.M)
        if m and ('evaluating' in out or 'Attempted' in out) and 'StackOverflow' not in out and 'overridden by the Java' not in out:
            bad.append((int(m[-1]), ['evaluation', [x for x in out.split('\n') if 'Attempted' in x or 'annot' in x][:2]], None))
        else: raise CheckError('trace validation failed to run (rc %d): %s' % (rc, out[-1500:]))
    return bad

def validate(trace, n, d):
    rc, out = tlc.run('GCTrace.tla', 'GCTrace.cfg', {'TRACE': trace}, ['-workers', '1'], metadir=d, heap='3g')
    return parse_validation(out, rc, n)

def run_cases(job):
    """executes a batch of cases and validates its trace"""
    try:
        prop, tier, drv, d, idx, kind, arg = job
        P = props.PROPS[prop]
        tr = os.path.join(d, 'tr%s_%d.ndjson' % (kind, idx))
        s = session.Session(drv, tr, os.path.join(d, 'err%s_%d' % (kind, idx)), P.extra)
        crashes = 0; skipped = 0
        if kind == 'S':
            for steps in arg:
                s.begin()
                for st in steps:
                    if not s.step(st): break
                s.end()
                crashes += s.dead
                if crashes > 4: break
        else:
            seed, count = arg
            rng = random.Random(seed)
            for _ in range(count):
                f = P.pick(rng)
                s.begin(); f(rng, s); s.end()
                crashes += s.dead
                if crashes > 4: break
        s.close()
        bad = validate(tr, s.n, d)
        cases = []
        for ln, what, want in bad[:3]:
            c = max(i for i, (first, _) in enumerate(s.cases) if first <= ln)
            cases.append((s.cases[c][1], what, want, ln - s.cases[c][0]))
        sample = None
        if s.cases: sample = s.cases[len(s.cases) // 2][1][:6]
        sz = os.path.getsize(tr)
        os.unlink(tr)
        return dict(lines=s.n, cases=len(s.cases), stats=s.stats, bad=cases, nbad=len(bad), sample=sample, bytes=sz)
    except Exception as e:
        return dict(error='%s: %s' % (type(e).__name__, str(e)[-2000:]) + traceback.format_exc()[-800:])

def one_case(drv, d, steps, P):
    tr = os.path.join(d, 'confirm.ndjson')
    s = session.Session(drv, tr, os.path.join(d, 'err_confirm'), P.extra)
    # what threads do may depend on the schedule: more than once
    for _ in range(8 if steps and steps[-1][0] in ('par', 'parnew') else 1):
        s.begin()
        for st in steps:
            if not s.step(st): break
        s.end()
        if s.dead: break
    s.close()
    bad = validate(tr, s.n, d)
    log = open(tr).read()
    crash = ''
    if s.dead:
        try: crash = open(os.path.join(d, 'err_confirm.crash')).read()[:4000]
        except OSError: pass
    return bad, log, crash

def shrink_threads(drv, d, st, P, budget=16):
    k = 2
    while k < len(st):
        for cand in ([st[:k] + st[k + 1:]] if len(st) > 4 else []) + [st[:k] + [st[k][:i] + st[k][i + 1:]] + st[k + 1:] for i in reversed(range(len(st[k])))]:
            if budget <= 0: return st
            budget -= 1
            try:
                if one_case(drv, d, [cand], P)[0]: st = cand; k = 1; break
            except (CheckError, RuntimeError): pass
        k += 1
    return st

def shrink(drv, d, steps, P, budget=14):
    """drop steps while the case is still rejected"""
    if steps[-1][0] in ('par', 'parnew'): return [shrink_threads(drv, d, steps[-1], P)]
    i = len(steps) - 1
    while i >= 0 and budget > 0 and len(steps) > 1:
        t = steps[:i] + steps[i + 1:]
        budget -= 1
        try:
            b, _, _ = one_case(drv, d, t, P)
            if b: steps = t
        except (CheckError, RuntimeError): pass
        i -= 1
    return steps

def model(P, tier, d):
    """explores the model; returns scripts and (states, transitions)"""
    scripts = []; st = tr = 0
    for m in P.models(tier):
        cfg = os.path.join(d, 'model_%s.cfg' % m['fam'])
        with open(cfg, 'w') as f:
            f.write('CONSTANTS %s\nSPECIFICATION Spec\nVIEW View\nINVARIANT TypeOK\nPROPERTY Laws\nCHECK_DEADLOCK FALSE\n' % m['consts'])
        rc, out = tlc.run(m['module'], cfg, m.get('env'), ['-workers', str(m.get('workers', 4))], metadir=d, heap='4g')
        if rc != 0 or 'No error has been found' not in out:
            raise CheckError('model %s: %s' % (m, '\n'.join(l for l in out.split('\n') if not l.startswith('"S '))[-2500:]))
        a, b = tlc.stats(out); tr += a; st += b
        for l in out.split('\n'):
            if l.startswith('"S '): scripts.append(json.loads(json.loads(l)[2:]))
    return scripts, st, tr

def known(prop):
    res = []
    try:
        for l in open(os.path.join(V, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop): res.append(l)
    except OSError: pass
    return res

def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = props.PROPS[prop]
    d = tempfile.mkdtemp(prefix=prop + '_', dir=scratch_root())
    try:
        pool = mp.Pool(8)
        with mp.pool.ThreadPool(1) as tp:
            only = os.environ.get('VERIF_ONLY_RANDOM')        # tools/huge.sh
            fut = tp.apply_async((lambda *a: ([], 0, 0)) if only else model, (P, tier, d))
            build(os.path.join(d, 'drv'), P.features)
            scripts, mstates, mtrans = fut.get()
        drv = os.path.join(d, 'drv', 'drv')
        t1 = time.time()
        rng = random.Random(seed * 1000003 + int(prop[1:]))
        # the model's transitions; the quick tier replays at most a fixed number of them
        nscript = len(scripts)
        scripts.sort(key=lambda x: json.dumps(x))
        cap = P.script_cap(tier)
        if len(scripts) > cap: scripts = rng.sample(scripts, cap)
        jobs = []
        per = 1500
        for i in range(0, len(scripts), per): jobs.append((prop, tier, drv, d, len(jobs), 'S', scripts[i:i + per]))
        total = int(only or P.cases(tier))
        nb = max(8, (total + P.batch - 1) // P.batch)
        for b in range(nb): jobs.append((prop, tier, drv, d, len(jobs), 'R', (rng.getrandbits(48), max(1, total // nb))))
        rng.shuffle(jobs)
        agg = dict(lines=0, cases=0, stats={}, samples=[], rejected=0, unconfirmed=0)
        viol = None
        for res in pool.imap_unordered(run_cases, jobs):
            if 'error' in res: raise CheckError(res['error'])
            for k in ('lines', 'cases'): agg[k] += res[k]
            for k, v in res['stats'].items(): agg['stats'][k] = agg['stats'].get(k, 0) + v
            if res['sample'] and len(agg['samples']) < 3: agg['samples'].append(res['sample'])
            agg['rejected'] += res['nbad']
            for steps, what, want, _ in res['bad']:
                if viol: break
                bad, log, crash = one_case(drv, d, steps, P)
                if bad:
                    pool.terminate()
                    steps = shrink(drv, d, steps, P)
                    bad, log, crash = one_case(drv, d, steps, P)
                    viol = dict(property=prop, seed=seed, tier=tier, steps=steps, rejected=[list(b) for b in bad[:5]], log=log.split('\n')[:-1], crash=crash)
                else: agg['unconfirmed'] += 1
            if viol: break
        pool.terminate()
        ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
                  coverage=dict(states=mstates, transitions=mtrans, model_scripts=nscript, model_scripts_replayed=len(scripts),
                                traces_validated_against_impl=agg['cases'], steps_validated=agg['lines'],
                                operations=agg['stats'], unconfirmed_rejections=agg['unconfirmed'],
                                samples=agg['samples'], bounds=P.bounds(tier)),
                  wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        print('%s %s: model %d states %d transitions; %d traces, %d steps validated against the implementation; %.1f s (setup %.1f s)' %
              (prop, tier, mstates, mtrans, agg['cases'], agg['lines'], time.time() - t0, t1 - t0))
        if viol:
            rd = os.path.join(scratch_root(), 'replay'); os.makedirs(rd, exist_ok=True)
            fn = os.path.join(rd, '%s-%d.json' % (prop, seed))
            with open(fn, 'w') as f: json.dump(viol, f, indent=1)
            print('rejected:', json.dumps(viol['rejected'])[:1500])
            for l in viol['log'][-4:]: print('   ', l[:800])
            if viol['crash']: print(viol['crash'][:1500])
            print('VIOLATION property=%s replay=%s' % (prop, fn))
            return 1
        for k in known(prop): print('KNOWN-FINDING: ' + k[len('finding: '):])
        return 0
    finally:
        try: pool.terminate()
        except Exception: pass
        shutil.rmtree(d, ignore_errors=True)

def replay(fn):
    x = json.load(open(fn)); P = props.PROPS[x['property']]
    d = tempfile.mkdtemp(prefix='replay_', dir=scratch_root())
    try:
        build(os.path.join(d, 'drv'), P.features)
        bad, log, crash = one_case(os.path.join(d, 'drv', 'drv'), d, x['steps'], P)
        print(log); print(crash)
        for b in bad: print('REJECTED', b)
        return 1 if bad else 0
    finally: shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    try:
        if sys.argv[1] == 'setup':
            for t in ('tlc', 'clang++'):
                if not shutil.which(t): raise CheckError('missing ' + t)
            sys.exit(0)
        if sys.argv[1] == 'replay': sys.exit(replay(sys.argv[2]))
        sys.exit(check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
    except CheckError as e:
        print('CHECK ERROR', e); sys.exit(2)
