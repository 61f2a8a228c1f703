from harness import *
import bmi, util, libmodel
from taint import Taint
from effects import PURE_EXT, IO_EXT, NORETURN

EXPLAIN = ('Every function that reads the verbosity setting is evaluated on the gated value graph. Path conditions are canonical decision diagrams, so a condition that mentions verbosity but does not '
           'depend on it (error path that also prints) is recognised as independent. No store to model state, effectful call, allocation, release, abnormal termination, loop that has effects, or result may depend on it.')
ASSUME = ['text output has no influence on the model', 'the verbosity setting is the global the configuration reader assigns']
EFFECT = {'abort', 'exit', 'throw', 'assert', 'free', 'getline', 'ioin'}
OKEXT = re.compile(r'^(llvm\.|_ZNSo|_ZStls|_ZNKSt|_ZNSt7__cxx11|_ZNSaI|_ZSt4endl|_ZSt5flush|strlen|memcmp|__gxx_personality|_ZNSt8ios_base|_ZSt|__cxa_begin|_ZNSt(11char|ios)|_ZN9__gnu_cxx|_ZdlPv|_Znwm|_ZNKS)')

def check(ctx):
    for cf in (ctx.configs() if ctx.tier == 'thorough' else ('STANDALONE',)): one(ctx, ctx.mod(cf))

def gname(m):
    g = [n for n, v in m.m.globals.items() if re.search(r'(^|\d)verbosity', n) and not v.const]
    if not g: raise AnalysisError('verbosity setting not found')
    return set(g)

def reads(f, gs):
    return [i for b in f.blocks for i in b.insts for o in list(i.ops) if o is not None and uses(o, gs)]
def uses(o, gs):
    if isinstance(o, irload.GRef): return o.name in gs
    if isinstance(o, irload.Const) and o.kind == 'expr': return any(uses(x, gs) for x in o.ops)
    return False

def mkfree(m):
    def effectfree(name):
        """only prints: no write outside its locals, no abnormal termination, no input"""
        f = m.m.funcs.get(name)
        if f is None or f.decl: return bool(IO_EXT.match(name) or PURE_EXT.match(name) or OKEXT.match(name))
        W, R, E = m.eff.summary(name)
        if writesfile(m, name): return False
        if any(o[0] not in ('ret', 'heap', 'const') and not (o[0] == 'global' and o[1].startswith('_ZSt4c')) for t, o in W): return False
        return all(IO_EXT.match(e) or PURE_EXT.match(e) or OKEXT.match(e) for e in E)
    return effectfree

def one(ctx, m):
    gs = gname(m)
    fs = [f for f in m.own() if f.blocks and '__cxx_global_var_init' not in f.dem and '_GLOBAL__' not in f.dem]
    direct = [f for f in fs if reads(f, gs)]
    ctx.need(direct, 'nothing reads the verbosity setting')
    effectfree = mkfree(m)
    # predicates over the setting (is_verbose() helpers) are looked through; everything that calls one is analysed too
    helpers = set(); todo = True
    while todo:
        todo = False
        for f in fs:
            if f.name in helpers or not f.ret or f.ret.k == 'void': continue
            calls = {c[0] for c in m.eff.local[f.name][2]}
            if (reads(f, gs) or calls & helpers) and effectfree(f.name) and resultdep(m, f, gs, {x.name for x in fs} - helpers - {f.name}): helpers.add(f.name); todo = True
    target = list(direct)
    for f in fs:
        if f not in target and {c[0] for c in m.eff.local[f.name][2]} & helpers: target.append(f)
    ctx.rule('no state change, effectful call, allocation, release, abnormal termination, input, result or effectful loop depends on the verbosity setting')
    cut = {f.name for f in m.own()} - helpers
    for f in sorted(target, key=lambda f: f.dem):
        if f.name in helpers: ctx.count('helper predicates'); continue
        ctx.guard('verbosity', func, ctx, m, f, gs, cut - {f.name}, effectfree)
    # nothing else may use the setting as data: it is assigned in one place only, from the configuration
    ctx.count('functions reading the setting', len(target))

def console(og):
    return all(o[0] == 'load' and o[1][0] == 'raw' and all(x[0] == 'global' and x[1] in ('stdout', 'stderr') for x in o[1][1]) for o in og)
def filecall(cn, ao):
    k = {'fprintf': 0, 'fputs': 1, 'fputc': 1, 'putc': 1, 'fwrite': 3, 'vfprintf': 0}.get(cn)
    return k is not None and k < len(ao) and ao[k] is not None and not console(ao[k])
def writesfile(m, name, seen=None):
    """writes to a file other than the console"""
    seen = set() if seen is None else seen
    if name in seen or name not in m.eff.local: return False
    seen.add(name)
    return any(filecall(cn, ao) or (cn and writesfile(m, cn, seen)) for cn, ao, i, tg in m.eff.local[name][2])
def source(gs):
    def src(a):
        if a.kind == 'ld': p = a.args[2]; return isinstance(p.root, Obj) and p.root.kind == 'global' and p.root.name in gs
        if a.kind == 'ret': return any(isinstance(k, Ptr) and isinstance(k.root, Obj) and k.root.kind == 'global' and k.root.name in gs for k in (a.args[1] if len(a.args) > 1 and isinstance(a.args[1], tuple) else ()))
        return False
    return src
def resultdep(m, f, gs, cut):
    I = m.interp(cut=cut, log=())
    v, st = I.call_function(f, [leaf(Ptr(atom('param', base(f.dem), k))) if p.ty.k == 'ptr' else leaf(sym('arg%d' % k)) for k, p in enumerate(f.params)], State({}, T))
    t = Taint(source(gs)); t.close_loops(I)
    return v is not None and t.dep(v) is not None
def func(ctx, m, f, gs, cut, effectfree, src=None, what='verbosity', rule='verbosity'):
    I = m.interp(cut=cut, log='*'); I.track_stores = True
    args = [leaf(Ptr(atom('param', base(f.dem), k))) if p.ty.k == 'ptr' else leaf(sym('arg%d' % k)) for k, p in enumerate(f.params)]
    v, st = I.call_function(f, args, State({}, T)); m.use(I)
    t = Taint(src or source(gs)); t.close_loops(I)
    W = m.where(f)
    local = lambda p: isinstance(p.root, Obj) and (p.root.kind == 'alloca' or (p.root.kind == 'global' and p.root.name in gs)) or (isinstance(p.root, Atom) and p.root.kind == 'ret')
    effloops = {}
    n = 0
    for p, val, pc, inst, path, loops in I.stores:
        if local(p): continue
        n += 1
        for k in loops: effloops.setdefault(k, m.loc(inst))
        for x, how in ((pc, 'happens depending on ' + what), (val, 'stores a value that depends on ' + what), (Sx('p', p), 'writes a place that depends on ' + what)):
            if t.dep(x): ctx.violation(rule, m.loc(inst), 'write to %s %s (condition/value %s)' % (m.fname(p.tag) if p.tag else 'memory', how, util.short(x))); break
        else: ctx.ok('writes independent of ' + what)
    files = {i for cn, ao, i, tg in m.eff.local[f.name][2] if filecall(cn, ao)}
    for e in I.events:
        if e.kind in ('io',):
            if e.inst not in files: continue
            name = 'output to a result file'; vals = []
        elif e.kind == 'cut':
            if effectfree(e.data[0]): continue
            vals = [a for a in e.data[1] if a is not None]
            name = base(m.m.funcs[e.data[0]].dem)
        elif e.kind in EFFECT:
            name = e.kind; vals = []
            if e.kind in ('free',): 
                if all(isinstance(l, Ptr) and isinstance(l.root, Obj) and l.root.kind in ('alloca', 'heap') for l in leaves(e.data[1])): continue
            if e.kind in ('ioin',) : vals = []
        elif e.kind in ('memcpy', 'memset'):
            name = e.kind; vals = []
            if all(isinstance(l, Ptr) and isinstance(l.root, Obj) and l.root.kind == 'alloca' for l in leaves(e.data[0])): continue
        else: continue
        n += 1
        for k in e.loops: effloops.setdefault(k, m.loc(e.inst))
        if t.dep(e.pc): ctx.violation(rule, m.loc(e.inst), '%s happens depending on %s: %s' % (name, what, util.short(e.pc)))
        elif any(t.dep(v_) for v_ in vals): ctx.violation(rule, m.loc(e.inst), 'an argument of %s depends on %s' % (name, what))
        else: ctx.ok('effects independent of ' + what, '%s at %s' % (name, m.loc(e.inst)))
    for r in I.loops:
        if r.key in effloops:
            bad = [x for x in r.exits if t.dep(x[2].pc)]
            if bad: ctx.violation(rule, W, 'a loop containing %s ends depending on %s (%s)' % (effloops[r.key], what, m.loc(bad[0][0].insts[-1])))
            else: ctx.ok('loops independent of ' + what)
    if v is not None and t.dep(v): ctx.violation(rule, W, 'the result depends on %s: %s' % (what, util.short(v)))
    elif st is not None and t.dep(st.pc): ctx.violation(rule, W, 'returning depends on ' + what)
    else: ctx.ok('results independent of ' + what, '%s: %d effects' % (base(f.dem), n))
    # facts: conditions under which execution survives a check
    for pc, c, cs, ls, inst in I.facts:
        if inst is not None and inst.op == 'br' and t.dep(c) and len(inst.succ) == 2 and not isloop(inst): ctx.violation(rule, m.loc(inst), 'termination depends on %s: %s' % (what, util.short(c)))
def isloop(inst):
    ls, inner = cfg.loops(inst.block.fn)
    return any(inst.block in L.blocks and any(s not in L.blocks for s in inst.succ) for L in ls)
