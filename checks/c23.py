from harness import *
import bmi, util, upd, libmodel
from interp import deps

EXPLAIN = ('The column is given a fixed number of fronts with unknown contents where the sub-step loop ends (and, for initialisation, where the configuration has been read); everything after that point is analysed for that shape, with the front values as unknowns. '
           'When the update returns, the reported number of fronts, the sizes of the two arrays and each of their entries must be those of the list the model still holds.')
ASSUME = ['real-number arithmetic', 'columns of up to 4 fronts (thorough: 9); the code after the loop must not distinguish larger columns by a constant', 'front numbers of the list are 1..n (C12)']
WF = 'wetting_front'
R = 'mirror'

def fronts(m, n, tag=''):
    """n list cells with unknown contents"""
    return [Ptr(Obj('heap', 'front%s%d' % (tag, k + 1), None, None, None)) for k in range(n)]
def install(m, I, st, S, nodes, layers=None):
    tr = I.track_stores; I.track_stores = False
    for k, p in enumerate(nodes):
        for fld in ('depth_cm', 'theta', 'psi_cm', 'K_cm_per_h', 'dzdt_cm_per_h'):
            I.store(st, leaf(m.lv(p, WF, fld)), leaf(sym('%s%d' % (fld.split('_')[0], k + 1))))
        I.store(st, leaf(m.lv(p, WF, 'front_num')), leaf(num(k + 1)))
        I.store(st, leaf(m.lv(p, WF, 'layer_num')), leaf(sym('layer%d' % (k + 1)) if layers is None else num(layers[k])))
        I.store(st, leaf(m.lv(p, WF, 'to_bottom')), leaf(sym('bottom%d' % (k + 1)) if layers is None else num(1 if k == len(nodes) - 1 or layers[k + 1] != layers[k] else 0)))
        I.store(st, leaf(m.lv(p, WF, 'next')), leaf(nodes[k + 1] if k + 1 < len(nodes) else NULL))
    I.store(st, leaf(m.lv(S, upd.STATE, 'head')), leaf(nodes[0] if nodes else NULL))
    I.track_stores = tr
def check(ctx):
    ctx.rule('after every update (and after initialisation): reported number of fronts = fronts in the list; moisture[i] = theta of front i+1; depth[i] = depth_cm of front i+1 / 100; both arrays have exactly that many entries')
    ctx.rule('the arrays are written by no other function')
    sizes = range(1, 10) if ctx.tier == 'thorough' else (1, 2, 4)
    for cf in ctx.configs():
        m = ctx.mod(cf)
        for n in sizes if cf == 'STANDALONE' else (2,):
            ctx.guard('%d fronts after an update' % n, after_update, ctx, m, n)
            ctx.guard('%d fronts initially' % n, initial, ctx, m, n)
        ctx.guard('writers', writers, ctx, m)

def lits(pc, cond):
    for a, b in cond: pc = band(pc, bvar(a) if b else bnot(bvar(a)))
    return pc
def mirror(ctx, m, I, st, S, n, W, when, arrays):
    L = lambda p, ty: I.loadc(I.chain(st, I.cls_of(p, None)), p, ty)
    # the list as the model holds it at the end
    h = L(m.lv(S, upd.STATE, 'head'), 'ptr'); nodes = []
    while True:
        ctx.need(h.var is None and isinstance(h.leaf, Ptr), 'list after the update')
        if h.leaf.root is None: break
        nodes.append(h.leaf); ctx.need(len(nodes) < 40, 'list length'); h = L(m.lv(h.leaf, WF, 'next'), 'ptr')
    k = L(m.lv(S, upd.STATE, 'lgar_bmi_params.num_wetting_fronts'), 'int')
    ctx.judge(k is leaf(num(len(nodes))), R, W, '%s with %d fronts in the column the reported number is %s' % (when, len(nodes), util.short(k)), (k,), R, '%s: %d fronts' % (when, n))
    for nm, fld, sc in (('soil_moisture_wetting_fronts', 'theta', 1), ('soil_depth_wetting_fronts', 'depth_cm', Fraction(1, 100))):
        q = L(m.lv(S, upd.STATE, 'lgar_bmi_params.' + nm), 'ptr')
        for cond, p in (paths(q) if q.var is not None else [((), q.leaf)]):
            ctx.need(isinstance(p, Ptr) and p.root is not None, nm)
            if not isinstance(p.root, Obj):
                # not allocated anew: the storage of the previous call, large enough only when the number of fronts is the same as then
                old = I.loadc(I.initnode(I.cls_of(m.lv(S, upd.STATE, 'lgar_bmi_params.num_wetting_fronts'), None)), m.lv(S, upd.STATE, 'lgar_bmi_params.num_wetting_fronts'), 'int').leaf
                same = util.forcedzero(cond, psub(old, num(len(nodes))))
                ctx.judge(same, R, W, '%s %s keeps the storage of an earlier number of fronts%s' % (when, nm, ' when ' + util.showlits(cond) if cond else ''), (q,), R)
                if not same: continue
            else:
                sz = p.root.size
                ctx.judge(sz is leaf(num(8 * len(nodes))), R, W, '%s %s has %s bytes for %d fronts' % (when, nm, util.short(sz), len(nodes)), (sz,) if sz is not None else (), R)
            for i, nd in enumerate(nodes):
                got = I.load(st, leaf(Ptr(p.root, padd(p.off, num(8 * i)))), 'double')
                exp = apply1(lambda x: pscale(x, sc) if isinstance(x, Poly) else x, L(m.lv(nd, WF, fld), 'double'))
                r = None
                if got is leaf(UNDEF): r = True
                elif got is not exp: r = util.same(got, exp, lits(st.pc, cond))
                ctx.judge(r is None, R, W, '%s %s[%d] is %s, front %d has %s' % (when, nm, i, 'undefined' if got is leaf(UNDEF) else util.short(got, 120), i + 1, util.short(exp, 80)), (got,) if got is not leaf(UNDEF) else (), R)
def after_update(ctx, m, n):
    S = upd.state_ptr(m); nodes = fronts(m, n); hits = []
    def after(I, st):
        install(m, I, st, S, nodes); I.unroll = n + 3; hits.append(1)
    u = upd.run(m, cuts=upd.CUTS - {'listLength', 'BmiLGAR::realloc_soil', 'listFindFront'}, adaptive=0, calib=0, sft=0, invalid=0, after=after)
    ctx.need(hits, 'the end of the sub-step loop')
    mirror(ctx, m, u.I, u.st, S, n, m.where(u.f), 'after an update', None)
def initial(ctx, m, n):
    I = m.interp(cut={'InitFromConfigFile'}, log=('alloc', 'cut')); I.unroll = n + 3; g = {}
    nodes = fronts(m, n, 'i')
    def hook(I, i, args, st, env):
        I.cut_call(m.fn('InitFromConfigFile'), args, i, st)
        S = args[1].leaf; g['S'] = S
        upd.preset_units(m, I, st, S)
        I.store(st, leaf(m.lv(S, upd.STATE, 'lgar_bmi_params.num_layers')), leaf(num(n)))
        I.store(st, leaf(m.lv(S, upd.STATE, 'lgar_bmi_params.num_giuh_ordinates')), leaf(num(2)))
        install(m, I, st, S, nodes)
        return None
    I.hooks[m.fn('InitFromConfigFile').name] = hook
    p = Ptr(atom('param', 'cfg')); st = State({}, T)
    libmodel.sstore(I, st, leaf(p), leaf(Sx('sym', 'CFG')))
    f = m.fn('BmiLGAR::Initialize')
    v, s = I.call_function(f, [leaf(bmi.THIS), leaf(p)], st); m.use(I)
    ctx.need(s is not None and g, 'Initialize')
    mirror(ctx, m, I, s, g['S'], n, m.where(m.fn('lgar_initialize', False) or f), 'after initialisation', None)

ARR = ('soil_moisture_wetting_fronts', 'soil_depth_wetting_fronts', 'num_wetting_fronts')
def writers(ctx, m):
    from effects import gep_tag
    offs = {m.off('lgar_bmi_parameters', n): n for n in ARR}
    roots = {'BmiLGAR::Update', 'BmiLGAR::Initialize', 'BmiLGAR::Finalize', 'BmiLGAR::BmiLGAR', 'BmiLGAR::~BmiLGAR'}
    def only(f, seen=()):
        if base(f.dem) in roots: return True
        if f.name in seen: return True
        cs = [g for g in m.own() for b in g.blocks for i in b.insts if i.op in ('call', 'invoke') and isinstance(i.callee, irload.FRef) and i.callee.name == f.name]
        return bool(cs) and all(only(g, seen + (f.name,)) for g in cs)
    for f in m.own():
        for b in f.blocks:
            for i in b.insts:
                if i.op != 'store' or not isinstance(i.ops[1], irload.Inst) or i.ops[1].op != 'getelementptr': continue
                t = gep_tag(i.ops[1].gty, i.ops[1].ops[1:])
                if t and t[0] == 'lgar_bmi_parameters' and t[1] in offs:
                    ctx.judge(only(f), 'writers', m.loc(i), '%s changes %s outside initialise and update' % (base(f.dem), offs[t[1]]), (), 'writers')
