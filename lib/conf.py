"""The configuration reader as a transfer function: one arbitrary line of the file, and what follows the reading loop."""
from harness import *
import util, libmodel, upd

CUTS = {'lgar_read_vG_param_file', 'InitializeWettingFronts', 'lgar_calc_mass_bal', 'listLength', 'ReadVectorData', 'listPrint'}
P = 'lgar_bmi_params.'

class Conf: pass

def run(m, cuts=CUTS, form=None):
    c = Conf(); c.m = m; c.form = form
    I = c.I = m.interp(cut=set(cuts), log=('throw', 'abort', 'exit', 'assert', 'cut', 'getline'))
    I.track_stores = True; I.logmem = {'cut'}; I.lineform = form
    c.f = m.fn('InitFromConfigFile')
    st = State({}, T); c.S = Ptr(atom('param', 'state')); cs = Ptr(atom('param', 'cfg'))
    libmodel.sstore(I, st, leaf(cs), leaf(Str('config.txt')))
    args = []
    for p in c.f.params: args.append(leaf(cs) if len(args) == 0 else leaf(c.S))
    if len(args) != 2: raise AnalysisError('signature of InitFromConfigFile')
    v, c.st = I.call_function(c.f, args, st); m.use(I)
    if c.st is None: raise AnalysisError('the configuration reader never returns')
    # the reading loop: holds a getline and compares the most distinct strings
    best = None
    for r in I.loops:
        if r.loopstack: continue
        if not any(e.kind == 'getline' and r.key in e.loops for e in I.events): continue
        ks = keys_in(r)
        if best is None or len(ks) > len(best[1]): best = (r, ks)
    if best is None: raise AnalysisError('no reading loop found')
    c.r = best[0]; c.groups = best[1]
    # the key: the value compared with the most strings
    c.key = max(c.groups, key=lambda k: len(c.groups[k]))
    c.keys = sorted(c.groups[c.key])
    return c

def streqs(d):
    for a in util.atoms_of(d):
        if a.kind == 'streq': yield a
def keys_in(r):
    """compared value -> {constant strings}"""
    out = {}
    vals = [x for x in r.next.values()] + [r.latch.pc if r.latch else T]
    for _, _, s in r.exits: vals.append(s.pc)
    for v in vals:
        for a in streqs(v):
            x, y = a.args[:2]
            if isinstance(x, Str): x, y = y, x
            if isinstance(y, Str): out.setdefault(x, {}).setdefault(y.s, a)
    return out

def under(c, d, key=None, unit=None, value=None):
    """cofactor: the line's key is `key` (a string) or none of the known ones (None)"""
    seen = True
    while seen:
        seen = False
        for a in d.sup:
            if a.kind != 'streq': continue
            x, y = a.args[:2]
            if isinstance(x, Str): x, y = y, x
            if x is c.key and isinstance(y, Str):
                d = util.cofactor(d, a, key is not None and y.s == key); seen = True; break
    return d

def field(c, name): return c.m.lv(c.S, upd.STATE, P + name)
def before(c, name, ty='double'):
    p = field(c, name); k = c.I.cls_of(p, None)
    return c.I.loadc(c.r.head.get(k) or c.I.initnode(k), p, ty)
def after(c, name, ty='double'):
    """value of a parameter at the end of an iteration (a line of the file)"""
    p = field(c, name); k = c.I.cls_of(p, None)
    return c.I.loadc(c.r.latch.mem.get(k) or c.I.initnode(k), p, ty)
