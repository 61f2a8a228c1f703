from harness import *
import bmi, util, upd, libmodel, conf, c10
from c23 import fronts, install

EXPLAIN = ('Every process exit must carry a non-zero status and every exception handler must pass the failure on (control-flow analysis of all functions of the project). '
           'For each condition the model promises to detect, the function that meets it is analysed with the condition as an assumption over otherwise unknown inputs; no path that returns normally may be compatible with it.')
ASSUME = ['asserts are compiled in (the build defines no NDEBUG)', 'fixed small shapes for lists and layers where a loop is involved']
R = 'loud failure'

def check(ctx):
    ctx.rule('exit() only with a non-zero status')
    ctx.rule('an exception handler rethrows or terminates on every path; it never resumes normal execution')
    ctx.rule('assuming the failure condition, no path of the function returns normally')
    for cf in ctx.configs():
        m = ctx.mod(cf)
        ctx.guard('exit status', exits, ctx, m); ctx.guard('handlers', handlers, ctx, m)
        for k, g in GUARDS.items():
            if cf == 'STANDALONE' or k in NG: ctx.guard(k, g, ctx, m)

# ------------------------------------------------------------------ control flow
EXIT = {'exit', '_exit', '_Exit', 'quick_exit'}
def exits(ctx, m):
    for f in m.own():
        for b in f.blocks:
            for i in b.insts:
                if i.op in ('call', 'invoke') and isinstance(i.callee, irload.FRef) and i.callee.name in EXIT:
                    def vals(v, d=0):
                        if isinstance(v, irload.Const) and v.kind == 'int': return {v.v}
                        if isinstance(v, irload.Inst) and v.op == 'phi' and d < 4: return set().union(*[vals(w, d + 1) for w, blk in v.incoming])
                        if isinstance(v, irload.Inst) and v.op == 'select' and d < 4: return vals(v.ops[1], d + 1) | vals(v.ops[2], d + 1)
                        return {None}
                    vs = vals(i.ops[0])
                    if vs == {None}: ctx.undecided('exit status', m.loc(i)); continue
                    ctx.judge(0 not in {v % 256 for v in vs if v is not None}, 'exit status', m.loc(i), 'the process ends with success status', (), 'exit status', m.loc(i))
def handlers(ctx, m):
    own = set(m.own())
    ctx.count('functions searched for handlers', len(own))
    n = 0
    for f in own:
        if base(f.dem).split('::')[-1].startswith('~'): continue
        for b in f.blocks:
            for i in b.insts:
                if i.op not in ('call', 'invoke') or not isinstance(i.callee, irload.FRef) or i.callee.name != '__cxa_begin_catch': continue
                n += 1
                st = [b]; seen = set(); bad = None; first = True
                while st and bad is None:
                    x = st.pop()
                    if x in seen: continue
                    seen.add(x); stop = False; live = not first; first = False
                    for j in x.insts:
                        if j is i: live = True; continue
                        if not live: continue
                        if j.op in ('call', 'invoke') and isinstance(j.callee, irload.FRef):
                            from effects import NORETURN
                            if NORETURN.match(j.callee.name): stop = True; break
                            g = m.m.funcs.get(j.callee.name)
                            if g is not None and g in own and not returns(g): stop = True; break
                        if j.op == 'ret': bad = j; break
                    if not stop and bad is None: st.extend(x.succs)
                ctx.judge(bad is None, 'handlers', m.loc(i), 'an exception is caught and normal execution resumes', (), 'handlers')
    if not n: ctx.ok('handlers', 'no exception handler in the project')
def returns(f): return any(b.insts and b.insts[-1].op == 'ret' for b in f.blocks)

# ------------------------------------------------------------------ conditions
def alive(I, s):
    """what a normal return implies"""
    d = s.pc
    for pc, live, cs, ls, inst in I.facts:
        if ls: continue
        d = band(d, bor(bnot(I.fullpc(pc, cs)), live))
    return d
def possible(d):
    for ls, l in util.nonzero_paths(ite(d, leaf(ONE), leaf(ZERO))): return ls
    return None
def loud(ctx, m, f, I, s, D, what):
    if s is None: ctx.ok(R, what); return
    p = possible(band(D, alive(I, s)))
    ctx.judge(p is None, R, m.where(f), p is not None and '%s: execution goes on normally%s' % (what, ' (%s)' % util.showlits(p) if p else ''), tuple(a for a, v in p or ()), R, what)
def silent(ctx, m, f, s, what):
    """the scenario must not return"""
    if s is None: ctx.ok(R, what); return
    ctx.judge(False, R, m.where(f), '%s: execution goes on normally' % what, (s.pc,), R)

def derived(ctx, m):
    f = m.fn('lgar_derived_soil_parameters'); I = m.interp(log=())
    p = Ptr(atom('param', 'soil'))
    v, s = I.call_function(f, [leaf(sym('wp')), leaf(p)], State({}, T)); m.use(I)
    n = I.load(State({}, T), leaf(m.lv(p, 'soil_properties_', 'vg_n')), 'double').leaf
    loud(ctx, m, f, I, s, cmp_lt(psub(n, ONE), False), 'van Genuchten n of a soil not above 1')
def rates(ctx, m):
    u = upd.run(m, adaptive=0, calib=0, sft=0, invalid=0); f = u.f
    ip = upd.load(u, State({}, T), m.lv(u.S, upd.STATE, 'lgar_bmi_input_params'), 'ptr').leaf
    for n, t in (('precipitation_mm_per_h', 'rain'), ('PET_mm_per_h', 'potential evapotranspiration')):
        v = upd.load(u, State({}, T), m.lv(ip, 'lgar_bmi_input_parameters', n)).leaf
        loud(ctx, m, f, u.I, u.st, cmp_lt(v, True), 'negative or unset %s rate at an update' % t)
    # end of a sub-step: first front must be below the surface
    sub = upd.Sub(u); h = sub.at_latch(m.lv(u.S, upd.STATE, 'head'), 'ptr')
    d = sub.r.latch.pc
    for pc, live, cs, ls, inst in u.I.facts:
        if ls != (sub.key,): continue
        d = band(d, bor(bnot(u.I.fullpc(pc, cs)), live))
    dep = F
    for cond, p in (paths(h) if h.var is not None else [((), h.leaf)]):
        ctx.need(isinstance(p, Ptr), 'head')
        x = sub.at_latch(m.lv(p, 'wetting_front', 'depth_cm'))
        c = T
        for a, b in cond: c = band(c, bvar(a) if b else bnot(bvar(a)))
        for cc, y in (paths(x) if x.var is not None else [((), x.leaf)]):
            c2 = c
            for a, b in cc: c2 = band(c2, bvar(a) if b else bnot(bvar(a)))
            dep = bor(dep, band(c2, cmp_lt(y, False)))
    p = possible(band(d, dep))
    ctx.judge(p is None, R, m.where(f), p is not None and 'a sub-step ends normally with the first front at or above the surface', (dep,), R, 'first front at or above the surface')
WF = 'wetting_front'
def lst(m, I, n, layers):
    st = State({}, T); nodes = fronts(m, n); S = Ptr(atom('param', 'state'))
    install(m, I, st, S, nodes, layers)
    return st, nodes, S
def dzdt(ctx, m):
    f = m.fn('lgar_dzdt_calc'); ctx.need(len(f.params) == 8, 'signature')
    A = lambda h: [F, leaf(num(120)), leaf(sym('hp')), leaf(Ptr(atom('param', 'soil_type'))), leaf(Ptr(atom('param', 'cum'))), leaf(Ptr(atom('param', 'ff'))), leaf(h), leaf(Ptr(atom('param', 'soils')))]
    I = m.interp(cut={'calc_Geff', 'listPrint'}, log=())
    v, s = I.call_function(f, A(NULL), State({}, T)); m.use(I)
    silent(ctx, m, f, s, 'front velocities of an empty column')
    I = m.interp(cut={'calc_Geff', 'listPrint'}, log=()); I.unroll = 8
    st, nodes, S = lst(m, I, 3, (1, 1, 1))
    v, s = I.call_function(f, A(nodes[0]), st); m.use(I)
    for k in range(3):
        K = I.load(st, leaf(m.lv(nodes[k], WF, 'K_cm_per_h')), 'double').leaf
        loud(ctx, m, f, I, s, cmp_lt(K, True), 'negative conductivity of front %d' % (k + 1))
    t = [I.load(st, leaf(m.lv(x, WF, 'theta')), 'double').leaf for x in nodes]
    for k in range(2): loud(ctx, m, f, I, s, cmp_lt(psub(t[k], t[k + 1]), True), 'front %d drier than the one below' % (k + 1))
def delete(ctx, m):
    f = m.fn('listDeleteFront'); ctx.need(len(f.params) == 2, 'signature')
    for n in (0, 1, 3):
        for t in (0, n + 1):
            I = m.interp(log=()); I.unroll = 8
            st, nodes, S = lst(m, I, n, (1,) * n)
            v, s = I.call_function(f, [leaf(num(t)), leaf(m.lv(S, upd.STATE, 'head'))], st); m.use(I)
            silent(ctx, m, f, s, 'deleting front %d of %d' % (t, n))
def alloc(ctx, m):
    for nm in ('d_alloc', 'i_alloc', 'f_alloc'):
        f = m.fn(nm, False)
        if f is None: continue
        I = m.interp(log=()); I.hooks.update({k: (lambda I, i, a, st, env: leaf(NULL)) for k in ('malloc', 'calloc')})
        v, s = I.call_function(f, [leaf(Ptr(atom('param', 'var'))), leaf(sym('n'))], State({}, T)); m.use(I)
        silent(ctx, m, f, s, '%s without memory' % nm)
def soilfile(ctx, m):
    f = m.fn('lgar_read_vG_param_file')
    I = m.interp(log=()); I.hooks['fopen'] = lambda I, i, a, st, env: leaf(NULL)
    ctx.need(len(f.params) == 4, 'signature')
    v, s = I.call_function(f, [leaf(Ptr(atom('param', 'name'))), leaf(sym('n')), leaf(sym('wp')), leaf(Ptr(atom('param', 'soils')))], State({}, T)); m.use(I)
    silent(ctx, m, f, s, 'soil parameters file that cannot be opened')
def noconfig(ctx, m):
    f = m.fn('BmiLGAR::Initialize'); I = m.interp(cut={'lgar_initialize', 'InitFromConfigFile'}, log=())
    p = Ptr(atom('param', 'cfg')); st = State({}, T); libmodel.sstore(I, st, leaf(p), leaf(Str('')))
    v, s = I.call_function(f, [leaf(bmi.THIS), leaf(p)], st); m.use(I)
    silent(ctx, m, f, s, 'initialisation without a configuration file')
def positive(ctx, m):
    c = conf.run(m); W = m.where(c.f); al = c10.alive(c)
    for key, fld in (('timestep', 'timestep_h'), ('endtime', 'endtime_s'), ('forcing_resolution', 'forcing_resolution_h')):
        v = conf.under(c, conf.after(c, fld), key); d = conf.under(c, al, key)
        bad = ite(band(d, d), apply1(lambda x: x, v), leaf(ONE))
        D = F
        for cond, x in (paths(v) if v.var is not None else [((), v.leaf)]):
            ctx.need(isinstance(x, Poly), fld); q = cmp_lt(x, False)
            for a, b in cond: q = band(q, bvar(a) if b else bnot(bvar(a)))
            D = bor(D, q)
        p = possible(band(d, D))
        ctx.judge(p is None, R, W, 'a %s that is not positive is accepted' % key, (v,), R, '%s not positive' % key)
def soiltypes(ctx, m):
    """2 layers, arbitrary soil types"""
    I = m.interp(cut=conf.CUTS, log=()); hits = []
    f = m.fn('InitFromConfigFile'); S = Ptr(atom('param', 'state')); cs = Ptr(atom('param', 'cfg')); st = State({}, T)
    libmodel.sstore(I, st, leaf(cs), leaf(Str('config.txt')))
    ty = Obj('heap', 'types', None, None, None)
    def hook(I, g, L, es):
        n = sum(1 for b in L.blocks for i in b.insts if i.op in ('call', 'invoke') and isinstance(i.callee, irload.FRef) and 'getline' in i.callee.name)
        if n and len(L.blocks) > 60 and not I.loopstack:
            hits.append(1); I.unroll = 4
            I.store(es, leaf(m.lv(S, upd.STATE, 'lgar_bmi_params.num_layers')), leaf(num(2)))
            I.store(es, leaf(m.lv(S, upd.STATE, 'lgar_bmi_params.layer_soil_type')), leaf(Ptr(ty)))
            for k in (1, 2): I.store(es, leaf(Ptr(ty, num(4 * k))), leaf(sym('type%d' % k)))
    I.exit_hook = hook
    v, s = I.call_function(f, [leaf(cs), leaf(S)], st); m.use(I)
    ctx.need(hits and s is not None, 'end of the reading loop')
    al = alive(I, s)
    res = {a for a in util.atoms_of(al) if a.kind == 'res' and a.args[0].args[0] == 'lgar_read_vG_param_file'}
    t = [sym('type1'), sym('type2')]
    NT = I.load(s, leaf(m.lv(S, upd.STATE, 'lgar_bmi_params.num_soil_types')), 'int')
    for k in (0, 1):
        p = possible(band(al, cmp_lt(psub(t[k], ONE), True)))
        ctx.judge(p is None, R, m.where(f), 'soil type of layer %d below 1 is accepted' % (k + 1), (), R, 'soil type below 1 (layer %d)' % (k + 1))
    def le(x, y): return I.cmpv('sle', x, y)
    for k in (0, 1):
        D = T
        for j in range(2): D = band(D, le(leaf(t[j]), NT))
        if len(res) == 1: D = band(D, I.cmpv('sgt', leaf(t[k]), leaf(patom(next(iter(res))))))
        elif len(res) > 1: raise AnalysisError('number of soils in the file')
        p = possible(band(al, D))
        ctx.judge(p is None, R, m.where(f), 'a soil type of layer %d that the soil file does not have is accepted' % (k + 1), (), R, 'soil type beyond the file (layer %d)' % (k + 1))
def until(ctx, m):
    f = m.fn('BmiLGAR::UpdateUntil'); I = m.interp(cut={'BmiLGAR::Update'}, log=())
    v, s = I.call_function(f, [leaf(bmi.THIS), leaf(sym('t'))], State({}, T)); m.use(I)
    loud(ctx, m, f, I, s, cmp_lt(sym('t'), False), 'update until a time that is not positive')
def freeze(ctx, m):
    f = m.fn('frozen_factor_hydraulic_conductivity'); I = m.interp(log=()); I.unroll = 6
    ctx.need(len(f.params) == 1, 'signature')
    P = Ptr(atom('param', 'bmi')); B = 'lgar_bmi_parameters'; st = State({}, T)
    I.store(st, leaf(m.lv(P, B, 'num_layers')), leaf(num(1))); I.store(st, leaf(m.lv(P, B, 'num_cells_temp')), leaf(num(1)))
    ar = {}
    for n in ('soil_temperature', 'soil_temperature_z', 'cum_layer_thickness_cm', 'frozen_factor'):
        ar[n] = Obj('heap', n, None, None, None); I.store(st, leaf(m.lv(P, B, n)), leaf(Ptr(ar[n])))
    I.store(st, leaf(Ptr(ar['soil_temperature_z'])), leaf(sym('z0'))); I.store(st, leaf(Ptr(ar['cum_layer_thickness_cm'], num(8))), leaf(sym('bottom')))
    I.store(st, leaf(Ptr(ar['soil_temperature'])), leaf(sym('T0')))
    v, s = I.call_function(f, [leaf(P)], st); m.use(I)
    loud(ctx, m, f, I, s, cmp_lt(psub(sym('bottom'), sym('z0')), True), 'a layer without a temperature cell')
def forcing(ctx, m):
    f = m.fn('ReadForcingData')
    for which in (0, 1):
        I = m.interp(log=()); opened = []
        def op(I, i, a, st, env):
            r = a[0].leaf.root if a[0].var is None and isinstance(a[0].leaf, Ptr) else None
            if r not in opened: opened.append(r)
            return None
        def bad(neg):
            def g(I, i, a, st, env):
                r = a[0].leaf.root if a[0].var is None and isinstance(a[0].leaf, Ptr) else None
                if r in opened and opened.index(r) == which: return T if neg else F
                if r in opened and len(opened) == which + 1 - 0 and which: return NotImplemented
                return NotImplemented
            return g
        for n, g in m.m.funcs.items():
            if re.search(r'basic_ifstream<.*>::open\(', g.dem): I.hooks[n] = op
            elif re.search(r'basic_ios<.*>::operator!\(|basic_ios<.*>::fail\(', g.dem): I.hooks[n] = bad(True)
            elif re.search(r'basic_ios<.*>::operator bool\(|basic_ios<.*>::good\(|basic_ifstream<.*>::is_open\(', g.dem): I.hooks[n] = bad(False)
        p = Ptr(atom('param', 'cfg')); st = State({}, T); libmodel.sstore(I, st, leaf(p), leaf(Str('config.txt')))
        v, s = I.call_function(f, [leaf(p)] + [leaf(Ptr(atom('param', 'v%d' % k))) for k in range(len(f.params) - 1)], st); m.use(I)
        ctx.need(len(opened) > which, 'file opened')
        silent(ctx, m, f, s, 'driver: %s that cannot be opened' % ('configuration file', 'forcing file')[which])
UN = ('GetGridX', 'GetGridY', 'GetGridZ', 'GetGridNodeCount', 'GetGridEdgeCount', 'GetGridFaceCount', 'GetGridEdgeNodes', 'GetGridFaceEdges', 'GetGridFaceNodes', 'GetGridNodesPerFace')
def unsupported(ctx, m):
    for n in UN:
        f = m.fn('BmiLGAR::' + n, False)
        if f is None: continue
        I = m.interp(log=())
        args = [leaf(bmi.THIS), leaf(sym('grid'))] + [leaf(Ptr(atom('param', 'out')))] * (len(f.params) - 2)
        I.track_stores = True
        v, s = I.call_function(f, args, State({}, T)); m.use(I)
        if s is None: ctx.ok(R, 'unsupported query ' + n); continue
        if len(f.params) > 2 and not any(isinstance(x[0].root, Atom) and x[0].root.kind == 'param' and x[0].root.args == ('out',) for x in I.stores):
            ctx.judge(False, R, m.where(f), 'the unsupported query %s returns normally without an answer' % n, (), R)
        elif len(f.params) == 2: ctx.judge(False, R, m.where(f), 'the unsupported query %s answers %s' % (n, util.short(v)), (v,), R)
GUARDS = {'soil shape parameter': derived, 'forcing rates': rates, 'front velocity': dzdt, 'deleting a front': delete, 'out of memory': alloc, 'soil file': soilfile, 'no configuration': noconfig,
          'positive durations': positive, 'soil types': soiltypes, 'update until': until, 'temperature profile': freeze, 'forcing file': forcing, 'unsupported queries': unsupported}
NG = {'forcing rates'}
