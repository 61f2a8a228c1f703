"""The model as Initialize leaves it: the whole chain from the configuration file, with the soil file, the list construction and the water integral opaque."""
from harness import *
import util, libmodel, upd, conf, bmi

class Init: pass
_memo = {}
def run(m):
    if m in _memo: return _memo[m]
    r = Init(); r.m = m; I = r.I = m.interp(cut=set(conf.CUTS), log=('cut', 'throw', 'abort', 'exit', 'assert')); I.logmem = {'cut'}
    st = State({}, T); p = Ptr(atom('param', 'cfg')); libmodel.sstore(I, st, leaf(p), leaf(Str('config.txt')))
    r.f = m.fn('BmiLGAR::Initialize')
    v, r.st = I.call_function(r.f, [leaf(bmi.THIS), leaf(p)], st); m.use(I)
    if r.st is None: raise AnalysisError('Initialize never returns')
    q = m.lv(bmi.THIS, 'BmiLGAR', 'state')
    S = I.load(r.st, leaf(q), 'ptr')
    if S.var is not None or not isinstance(S.leaf, Ptr): raise AnalysisError('the model state after Initialize')
    r.S = S.leaf
    _memo[m] = r
    return r
def get(r, path, ty='double'): return r.I.load(r.st, leaf(r.m.lv(r.S, upd.STATE, path)), ty)
