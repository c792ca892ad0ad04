import os, re, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = '/opt/veriftools/tla/tla2tools.jar'
def run(module, cfg, env=None, args=(), timeout=800, heap='2g', metadir=None):
    md = tempfile.mkdtemp(prefix='tlc', dir=metadir)
    e = dict(os.environ); e.update(env or {})
    e['JAVA_TOOL_OPTIONS'] = '-Xmx%s -Xss64m' % heap
    try:
        p = subprocess.run(['tlc', '-noTE', '-nowarning', '-metadir', md, '-config', cfg] + list(args) + [module], cwd=os.path.join(V, 'spec'), env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    finally:
        shutil.rmtree(md, ignore_errors=True)
def stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
