from harness import *
import bmi, util, upd, libmodel
import c13
from c13 import shapes, soilof, SOIL
from c12 import get, WF, FL, Run
from c23 import fronts, install
from c21 import possible

EXPLAIN = ('The function that applies the calibrated values is analysed on every arrangement of up to the bound many fronts over the layers, with the calibrated values, the old soil parameters and the front contents as unknowns: every soil parameter (set and derived), every front field, the two column-wide values and the returned change of water are compared with what the new values imply. '
           'Its single call per calibrated run, the bookkeeping of its result and the initial values of the calibration arrays are decided on the value graph of update and initialisation.')
ASSUME = ['layers have different soils (with one soil in two layers the two sets of values compete for the same parameters)', 'up to 4 fronts (thorough: 5)', 'derived parameters and hydraulic relations are those of C14']
B = 'lgar_bmi_parameters'; CB = 'lgar_calib_params'
PAR = {'theta_e': 'theta_e', 'theta_r': 'theta_r', 'vg_n': 'vg_n', 'vg_alpha': 'vg_alpha_per_cm', 'Ksat': 'Ksat_cm_per_h'}
FN = 'BmiLGAR::update_calibratable_parameters'

def check(ctx):
    ctx.rule('soil of layer l: theta_e, theta_r, n, alpha, Ksat = calibrated values of layer l; derived parameters recomputed from them; other soils unchanged')
    ctx.rule('every front: moisture = retention curve of its soil at its unchanged pressure head, conductivity = K(moisture) with the layer\'s freeze factor, everything else unchanged')
    ctx.rule('field capacity and maximum ponding depth = calibrated values; result = water after - water before')
    ctx.rule('called exactly once when the flag is set, never otherwise; the flag is cleared; the result is added to the calibration term of the balance; before every flux')
    ctx.rule('initially the calibration values are the configured parameters of each layer')
    m = ctx.mod('STANDALONE'); hi = 5 if ctx.tier == 'thorough' else 4
    for lay in shapes(1, hi): ctx.guard('apply', apply_, ctx, m, lay)
    for cf in ctx.configs(): ctx.guard('once', once, ctx, ctx.mod(cf))
    for L in (1, 2, 3): ctx.guard('initial values', initial, ctx, m, L)

def num_fields(m):
    t = m.m.struct(SOIL)
    return [(o, n) for o, n in sorted(m.fields(SOIL).items()) if o in t.offs and t.fields[t.offs.index(o)].k in ('double', 'float')]
def soil(m, r, s, f): return Ptr(r.soils.root, num(s * m.m.struct(SOIL).size + m.off(SOIL, f)), (SOIL, m.off(SOIL, f)))
def derive(m, vals, wp):
    """the parameters of a soil after the derived ones have been recomputed from vals"""
    I = m.interp(log=()); p = Ptr(Obj('heap', 'onesoil', None)); st = State({}, T)
    for o, n in num_fields(m): I.store(st, leaf(Ptr(p.root, num(o), (SOIL, o))), vals[n])
    v, s = I.call_function(m.fn('lgar_derived_soil_parameters'), [wp, leaf(p)], st)
    if s is None: raise AnalysisError('derived parameters')
    return {n: I.load(s, leaf(Ptr(p.root, num(o), (SOIL, o))), 'double') for o, n in num_fields(m)}
def hyd(m, name, args):
    I = m.interp(log=()); v, s = I.call_function(m.fn(name), args, State({}, T))
    if s is None: raise AnalysisError(name)
    return v
PRE = POST = None
def apply_(ctx, m, lay):
    r = Run(); r.m = m; r.lay = lay; n = len(lay); I = r.I = m.interp(log=(), cut={'listPrint'}); I.unroll = n + 3; r.L = lay[-1]
    f = r.f = m.fn(FN); st = r.st = State({}, T); r.S = S = Ptr(Obj('heap', 'state', None)); this = Ptr(Obj('heap', 'model', None))
    r.nodes = fronts(m, n); install(m, I, st, S, r.nodes, layers=lay); r.head = m.lv(S, upd.STATE, 'head')
    put = lambda p, v: I.store(st, leaf(p), v)
    put(m.lv(this, 'BmiLGAR', 'state'), leaf(S)); P = lambda x: m.lv(S, upd.STATE, 'lgar_bmi_params.' + x)
    put(P('num_layers'), leaf(num(r.L))); put(P('num_wetting_fronts'), leaf(num(n))); put(P('wilting_point_psi_cm'), leaf(sym('wp')))
    put(P('field_capacity_psi_cm'), leaf(sym('fc0'))); put(P('ponded_depth_max_cm'), leaf(sym('hp0')))
    A = {x: Ptr(Obj('heap', x, None)) for x in ('cum', 'types', 'ff', 'soils') + tuple('c_' + k for k in PAR)}
    put(P('cum_layer_thickness_cm'), leaf(A['cum'])); put(P('layer_soil_type'), leaf(A['types'])); put(P('frozen_factor'), leaf(A['ff'])); put(m.lv(S, upd.STATE, 'soil_properties'), leaf(A['soils']))
    r.depth = [leaf(ZERO)] + [leaf(sym('cum%d' % k)) for k in range(1, r.L + 1)]; r.soils = A['soils']; sz = m.m.struct(SOIL).size
    for k in range(r.L + 1):
        put(Ptr(A['cum'].root, num(8 * k)), r.depth[k]); put(Ptr(A['types'].root, num(4 * k)), leaf(num(soilof(r.L, k)))); put(Ptr(A['ff'].root, num(8 * k)), leaf(sym('ff%d' % k)))
    old = {}
    for s in range(0, r.L + 3):
        old[s] = {x: leaf(sym('%s.%d' % (x, s))) for o, x in num_fields(m)}
        for o, x in num_fields(m): put(Ptr(A['soils'].root, num(s * sz + o), (SOIL, o)), old[s][x])
    for c in PAR:
        put(m.lv(S, upd.STATE, 'lgar_calib_params.' + c), leaf(A['c_' + c]))
        for k in range(r.L): put(Ptr(A['c_' + c].root, num(8 * k)), leaf(sym('cal_%s%d' % (c, k + 1))))
    put(m.lv(S, upd.STATE, 'lgar_calib_params.field_capacity_psi'), leaf(sym('cal_fc'))); put(m.lv(S, upd.STATE, 'lgar_calib_params.ponded_depth_max'), leaf(sym('cal_hp')))
    r.before = c13.water(r, st)
    if PRE: PRE(r)
    ctx.need(len(f.params) == 1, 'signature')
    v, s = I.call_function(f, [leaf(this)], st); m.use(I); W = m.where(f); R = 'apply'; what = 'fronts in layers %s' % lay
    if s is None: ctx.judge(False, R, W, what + ': applying the calibrated values never completes (it stops the run on every path)', (), R); return
    r.s = s; miss = possible(bnot(s.pc))
    ctx.judge(miss is None, R, W, miss is not None and what + ': applying the calibrated values does not complete when %s' % util.showlits(miss), (s.pc,), R, 'completes')
    def cmp(got, exp, msg):
        if got is leaf(UNDEF): ctx.judge(False, R, W, '%s: %s is undefined' % (what, msg), (), R); return
        d = None if got is exp else util.same(got, exp, s.pc)
        ctx.judge(d is None, R, W, '%s: %s is %s instead of %s' % (what, msg, util.short(got, 100), util.short(exp, 100)), (got,), R, what)
    layer = {soilof(r.L, k): k for k in range(1, r.L + 1)}; new = {}
    for s_ in range(0, r.L + 3):
        vals = dict(old[s_])
        if s_ in layer:
            for c, x in PAR.items(): vals[x] = leaf(sym('cal_%s%d' % (c, layer[s_])))
            vals = derive(m, vals, leaf(sym('wp')))
        new[s_] = vals
        for o, x in num_fields(m): cmp(I.load(s, leaf(Ptr(A['soils'].root, num(s_ * sz + o), (SOIL, o))), 'double'), vals[x], '%s of soil %d (layer %s)' % (x, s_, layer.get(s_, 'none')))
    if POST: POST(r, s, new); return
    for k, p in enumerate(r.nodes):
        q = new[soilof(r.L, lay[k])]
        th = hyd(m, 'calc_theta_from_h', [leaf(sym('psi%d' % (k + 1))), q['vg_alpha_per_cm'], q['vg_m'], q['vg_n'], q['theta_e'], q['theta_r']])
        cmp(get(r, s, p, 'theta'), th, 'moisture of front %d' % (k + 1))
        K = hyd(m, 'calc_K_from_Se', [hyd(m, 'calc_Se_from_theta', [th, q['theta_e'], q['theta_r']]), I.ap2(pmul, q['Ksat_cm_per_h'], leaf(sym('ff%d' % lay[k]))), q['vg_m']])
        cmp(get(r, s, p, 'K_cm_per_h'), K, 'conductivity of front %d' % (k + 1))
        for fld in ('depth_cm', 'psi_cm', 'dzdt_cm_per_h', 'layer_num', 'front_num', 'to_bottom'):
            a, b = get(r, st, p, fld), get(r, s, p, fld); cmp(b, a, '%s of front %d' % (fld, k + 1))
    cmp(I.load(s, leaf(P('field_capacity_psi_cm')), 'double'), leaf(sym('cal_fc')), 'the field capacity')
    cmp(I.load(s, leaf(P('ponded_depth_max_cm')), 'double'), leaf(sym('cal_hp')), 'the maximum ponding depth')
    w = c13.water(r, s)
    if w is None: ctx.judge(False, R, W, what + ': the list is broken', (), R)
    else: cmp(v, I.ap2(psub, w, r.before), 'the reported change of water')

def once(ctx, m):
    import c16
    R = 'once'; name = m.fn(FN).name
    for calib in (0, 1):
        u = upd.run(m, adaptive=0, calib=calib, sft=0, invalid=0); W = m.where(u.f)
        ev = [(k, e) for k, e in enumerate(u.I.events) if e.kind == 'cut' and e.data[0] == name]
        flag = u.I.load(u.st, leaf(m.lv(u.S, upd.STATE, 'lgar_bmi_params.calib_params_flag')), 'int')
        vc = m.lv(u.S, upd.STATE, 'lgar_mass_balance.volchange_calib_cm')
        v0 = u.I.load(State({}, T), leaf(vc), 'double'); v1 = u.I.load(u.st, leaf(vc), 'double')
        if not calib:
            ctx.judge(all(possible(u.I.fullpc(e.pc, e.path)) is None for k, e in ev), R, m.loc(ev[0][1].inst) if ev else W, 'calibrated values are applied although calibration is not enabled', (), R, 'disabled')
            ctx.judge(v1 is v0 or util.same(v1, v0, u.st.pc) is None, R, W, 'the calibration term of the balance becomes %s although calibration is not enabled' % util.short(v1, 100), (v1,), R, 'disabled')
            continue
        if not ev: ctx.judge(False, R, W, 'calibrated values are never applied', (), R); continue
        ctx.judge(len(ev) == 1 and not ev[0][1].loops, R, m.loc(ev[0][1].inst), 'calibrated values are applied at %d places%s' % (len(ev), ', inside a loop' if ev[0][1].loops else ''), (), R, 'one application')
        k, e = ev[0]; miss = possible(bnot(u.I.fullpc(e.pc, e.path)))
        ctx.judge(miss is None, R, m.loc(e.inst), miss is not None and 'calibrated values are not applied when %s' % util.showlits(miss), (e.pc,), R, 'always')
        ctx.judge(u.I.boolof(flag) is F if flag.var is None else util.same(flag, leaf(ZERO), u.st.pc) is None, R, W, 'the calibration flag after the update is %s' % util.short(flag, 100), (flag,), R, 'flag cleared')
        res = leaf(patom(atom('res', e.data[2])))
        exp = u.I.ap2(padd, v0, res)
        ctx.judge(v1 is exp or util.same(v1, exp, u.st.pc) is None, R, W, 'the calibration term of the balance becomes %s' % util.short(v1, 100), (v1,), R, 'booked')
        first = next((j for j, x in enumerate(u.I.events) if x.kind == 'cut' and base(m.m.funcs[x.data[0]].dem) in c16.FLUX), None)
        ctx.need(first is not None, 'flux computations')
        ctx.judge(k <= first, R, m.loc(e.inst), 'calibrated values are applied after %s' % base(m.m.funcs[u.I.events[first].data[0]].dem), (), R, 'before every flux')
def initial(ctx, m, L):
    I = m.interp(cut={'InitFromConfigFile'}, log=()); I.unroll = L + 3; g = {}; nodes = fronts(m, L, 'i'); ty = Ptr(Obj('heap', 'types', None)); so = Ptr(Obj('heap', 'soils', None)); sz = m.m.struct(SOIL).size
    def hook(I, i, args, st, env):
        I.cut_call(m.fn('InitFromConfigFile'), args, i, st); S = args[1].leaf; g['S'] = S
        put = lambda p, v: I.store(st, leaf(p), v)
        upd.preset_units(m, I, st, S); P = lambda x: m.lv(S, upd.STATE, 'lgar_bmi_params.' + x)
        put(P('num_layers'), leaf(num(L))); put(P('num_giuh_ordinates'), leaf(num(2))); put(P('layer_soil_type'), leaf(ty)); put(m.lv(S, upd.STATE, 'soil_properties'), leaf(so))
        put(P('field_capacity_psi_cm'), leaf(sym('fc0'))); put(P('ponded_depth_max_cm'), leaf(sym('hp0')))
        install(m, I, st, S, nodes, layers=list(range(1, L + 1)))
        for k in range(L + 1): put(Ptr(ty.root, num(4 * k)), leaf(num(soilof(L, k))))
        for s in range(0, L + 3):
            for o, x in num_fields(m): put(Ptr(so.root, num(s * sz + o), (SOIL, o)), leaf(sym('%s.%d' % (x, s))))
        return None
    I.hooks[m.fn('InitFromConfigFile').name] = hook
    p = Ptr(atom('param', 'cfg')); st = State({}, T); libmodel.sstore(I, st, leaf(p), leaf(Sx('sym', 'CFG')))
    f = m.fn('BmiLGAR::Initialize'); v, s = I.call_function(f, [leaf(bmi.THIS), leaf(p)], st); m.use(I)
    ctx.need(s is not None and g, 'Initialize'); S = g['S']; R = 'initial values'; W = m.where(m.fn('lgar_initialize', False) or f)
    for c, x in PAR.items():
        q = I.load(s, leaf(m.lv(S, upd.STATE, 'lgar_calib_params.' + c)), 'ptr')
        for k in range(L):
            got = I.load(s, I.ap1(lambda p: Ptr(p.root, padd(p.off, num(8 * k))), q), 'double'); exp = leaf(sym('%s.%d' % (x, soilof(L, k + 1))))
            ctx.judge(got is exp or (got is not leaf(UNDEF) and util.same(got, exp, s.pc) is None), R, W, 'the initial calibration value %s of layer %d is %s instead of the one of its soil' % (c, k + 1, util.short(got, 80)), (got,) if got is not leaf(UNDEF) else (), R, '%s of layer %d' % (c, k + 1))
    for c, e in (('field_capacity_psi', 'fc0'), ('ponded_depth_max', 'hp0')):
        got = I.load(s, leaf(m.lv(S, upd.STATE, 'lgar_calib_params.' + c)), 'double')
        ctx.judge(got is leaf(sym(e)), R, W, 'the initial calibration value %s is %s' % (c, util.short(got, 80)), (got,), R, c)
    fl = I.load(s, leaf(m.lv(S, upd.STATE, 'lgar_mass_balance.volchange_calib_cm')), 'double')
    ctx.judge(fl is leaf(ZERO), R, W, 'the calibration term of the balance starts at %s' % util.short(fl, 80), (fl,), R)
