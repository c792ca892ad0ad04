"""Configuration of the checks."""
import functools
import families as F
import texts as T
import luagen as L
import cifgen as C
import tabgen as TB
import prtgen as PG
import mexgen as MX
import concgen as CG

class Prop:
    batch = 1200
    def __init__(self, pid, gens, features=(), quick=8000, thorough=150000, fam=None, depth=(1, 1), extra=None, models=None, scripts=(20000, 200000), note='', batch=None, trust=''):
        self.pid = pid; self.gens = gens; self.features = list(features); self.q = quick; self.t = thorough
        self.fam = fam; self.depth = depth; self.extra = extra; self._models = models; self._scripts = scripts; self.note = note; self.trust = trust
        if batch: self.batch = batch
    @property
    def modelname(self): return ', '.join('%s family %s' % (m['module'], m['fam']) for m in self.models('quick'))
    def pick(self, rng):
        w = rng.random() * sum(x for _, x in self.gens)
        for f, x in self.gens:
            w -= x
            if w <= 0: return f
        return self.gens[-1][0]
    def cases(self, tier): return self.q if tier == 'quick' else self.t
    def script_cap(self, tier): return self._scripts[0 if tier == 'quick' else 1]
    def models(self, tier):
        r = []
        if self.fam: r.append(dict(module='GCModel.tla', fam=self.fam, consts='Fam = "%s" Depth = %d' % (self.fam, self.depth[0 if tier == 'quick' else 1])))
        if self._models: r += self._models(tier)
        return r
    def bounds(self, tier):
        return 'models: %s; %d random histories' % (', '.join('%s (%s)' % (m['module'], m['consts']) for m in self.models(tier)), self.cases(tier)) + self.note

def core(p): return functools.partial(F.core_case, p)
PROPS = {}
def add(pid, *a, **k): PROPS[pid] = Prop(pid, *a, **k)
add('P01', [(core('P01'), 1)], fam='P01', quick=24000)
add('P02', [(core('P02'), 1)], fam='P02', quick=24000)
add('P03', [(core('P03'), 1)], fam='P03', quick=24000)
add('P04', [(core('P04'), 1)], fam='P04', depth=(3, 4), quick=14000)
add('P05', [(core('P05'), 1)], fam='P05', quick=24000)
add('P06', [(core('P06'), 1)], fam='P06', quick=20000)
add('P07', [(core('P07'), 1)], fam='P07', quick=24000)
add('P08', [(core('P08'), 1)], fam='P08', depth=(2, 3), quick=24000)
add('P09', [(core('P09'), 1)], fam='P09', depth=(2, 3), quick=24000)
add('P10', [(core('P10'), 1)], fam='P10', quick=30000)
add('P11', [(core('P11'), 1)], fam='P11', quick=30000)
add('P12', [(core('P12'), 1)], fam='P12', quick=16000)
add('P13', [(functools.partial(F.ser_case, 'P13'), 5), (functools.partial(F.truncations_case, 'P13'), 1)], fam='P13', quick=8000, batch=500)
add('P22', [(core('P22'), 1)], fam='P22', depth=(3, 4), quick=12000)
def jmodel(fam, q, t): return lambda tier: [dict(module='GCJsonModel.tla', fam=fam, consts='Fam = "%s" Depth = %d' % (fam, q if tier == 'quick' else t))]
add('P14', [(T.json_write_case, 1)], features=['json'], models=jmodel('P14', 1, 1), quick=9000, extra=T.json_extra, batch=600)
add('P15', [(T.json_read_case, 8), (T.json_trunc_case, 1)], features=['json'], models=jmodel('P15', 4, 5), quick=9000, extra=T.json_extra, batch=600, scripts=(30000, 400000))
add('P16', [(T.yaml_write_case, 2), (T.yaml_read_case, 1)], features=['yaml'], models=lambda tier: [dict(module='GCYamlModel.tla', fam='P16', consts='Fam = "P16" Depth = %d' % (4 if tier == 'quick' else 5))], quick=7000, extra=T.json_extra, batch=600)
add('P17', [(T.toml_write_case, 1), (T.toml_read_case, 1)], features=['toml'], models=lambda tier: [dict(module='GCTomlModel.tla', fam='P17', consts='Fam = "P17" Depth = %d' % (3 if tier == 'quick' else 4))], scripts=(14000, 400000), quick=5000,  extra=T.json_extra, batch=600)
add('P18', [(L.lua_case, 40), (L.lua_leak_case, 1)], features=['lua'], quick=9000, models=lambda tier: [dict(module='GCLuaModel.tla', fam='P18', consts='Fam = "P18" Depth = 2')], scripts=(16000, 400000))
add('P19', [(C.cif_case, 1)], features=['cif'], quick=12000, models=lambda tier: [dict(module='GCCifModel.tla', fam='P19', consts='Fam = "P19" Depth = %d' % (2 if tier == 'quick' else 3))], scripts=(40000, 400000))
add('P20', [(TB.write_case, 1), (TB.read_case, 1)], features=['table'], quick=9000, extra=TB.extra, batch=600, models=lambda tier: [dict(module='GCTableModel.tla', fam='P20', consts='Fam = "P20" Depth = %d' % (3 if tier == 'quick' else 4))], scripts=(20000, 400000))
add('P21', [(PG.print_case, 200), (PG.longkey_case, 1), (PG.longlist_case, 1)], features=['print'], quick=6000, extra=PG.extra, batch=600, models=lambda tier: [dict(module='GCPrintModel.tla', fam='P21', consts='Fam = "P21" Depth = %d' % (2 if tier == 'quick' else 3))], scripts=(10000, 200000))
add('P23', [(MX.mex_case, 1)], features=['mex'], quick=8000, extra=MX.extra, models=lambda tier: [dict(module='GCMexModel.tla', fam='P23', consts='Fam = "P23" Depth = %d' % (2 if tier == 'quick' else 3))], scripts=(30000, 400000), trust='The matrix API of MATLAB is replaced by a stand-in (harness/mex, harness/drv_mex.cc) written from its documentation. ')
add('P24', [(CG.thread_case, 1)], features=['json', 'yaml', 'toml', 'table', 'print', 'tsan'], quick=6000, extra=CG.extra, batch=500, models=lambda tier: [dict(module='GCConcModel.tla', fam='P24', consts='Fam = "P24" Depth = %d' % (1 if tier == 'quick' else 2))], scripts=(16000, 200000), trust='Races are observed with the ThreadSanitizer of clang 18. ')
