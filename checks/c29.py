from harness import *
import bmi, util, upd, libmodel, conf, hyd, interp
import c11, c12, c13, c16, c17, c19, c23, c10, c03
from c13 import shapes, soilof, SOIL
from c12 import WF
from c21 import possible, alive as c10_alive

EXPLAIN = ('Every load and store of the processes of an update, the list operations, calibration, routing and initialisation is enumerated on the value graph, on every arrangement of up to the bound many fronts over the layers: '
           'the pointer must not be null on a feasible path, and its offset must lie inside the array or cell it points into, whose extent is that of its allocation. '
           'The sizes with which the configuration reader allocates the arrays are compared with the extents the other functions were analysed with.')
ASSUME = ['up to 4 fronts (thorough: 5), up to 3 layers', 'up to 8 routing ordinates (thorough: 16)', 'soil types are within the soil table (C20) and a layer has a soil type (C09)', 'accesses through C++ library containers are not judged']
RULE = 'inside its object'; NUL = 'no null pointer'
CAL = ('theta_e', 'theta_r', 'vg_n', 'vg_alpha', 'Ksat')

class Mon:
    def __init__(s): s.bad = []; s.n = 0; s.L = 0; s.extra = {}; s.where = set(); s.runs = 0; s.nonull = False
    def extent(s, m, root):
        """bytes of the object, None if unknown"""
        if not isinstance(root, Obj):
            return s.extra.get(root.args[0]) if root.kind == 'param' else None
        z = getattr(root, 'size', None)
        if z is not None: return int(z.leaf.const()) if z.var is None and isinstance(z.leaf, Poly) and z.leaf.const() is not None else None
        if root.kind != 'heap': return None
        nm = root.name
        if nm in s.extra: return s.extra[nm]
        if nm.startswith('front') and nm[5:].lstrip('oldi').isdigit(): return m.m.struct(WF).size
        return {'cum': 8 * (s.L + 1), 'types': 4 * (s.L + 1), 'ff': 8 * (s.L + 1), 'soils': (s.L + 2) * m.m.struct(SOIL).size}.get(nm)
    def __call__(s, I, st, inst, p, cond):
        if not isinstance(p, Ptr): return
        w = inst.ty.size if inst.op == 'load' else inst.ops[0].ty.size
        if p.root is None:
            if s.nonull: return
            why = NUL
        else:
            e = s.extent(s.m, p.root)
            if e is None: return
            k = p.off.const()
            s.n += 1
            if k is not None and 0 <= k and k + w <= e: s.where.add(inst); return
            if k is None:
                if I.loopstack: return
                why = None
            else: why = RULE
        c = I.fullpc(st.pc, I.callstack, 0)
        for a, b in cond: c = band(c, bvar(a) if b else bnot(bvar(a)))
        if c is not F: s.bad.append((I, inst, p, c, why, s.label))
def check(ctx):
    ctx.rule('the address of a load or store is null on no feasible path')
    ctx.rule('offset >= 0 and offset + width <= size of the array or cell pointed into')
    ctx.rule('allocation size of every array of the configuration >= the extent its users rely on')
    m = ctx.mod('STANDALONE'); thorough = ctx.tier == 'thorough'; hi = 5 if thorough else 4
    mon = Mon(); mon.m = m; q = c11.Quiet(ctx); old = interp.Interp.monitor; interp.Interp.monitor = [mon]
    def run(label, L, f, *a, **extra):
        mon.L = L; mon.extra = extra; mon.label = label; mon.bad = []; mon.runs += 1
        ctx.guard(label, f, *a); ctx.guard(label, report, label)
    def report(label):
        seen = set()
        for I, inst, p, c, why, lab in mon.bad:
            if (inst, why) in seen: continue
            x = possible(band(c, I.assume))
            if x is None: continue
            seen.add((inst, why)); when = ' (when %s)' % util.showlits(x) if x else ''
            if why is None: ctx.undecided(RULE, '%s: %s: offset %s of %s' % (m.loc(inst), lab, util.short(leaf(p.off), 80), getattr(p.root, 'name', p.root)))
            elif why is NUL: ctx.judge(False, NUL, m.loc(inst), '%s: a null pointer is followed%s' % (lab, when), () if mon.extra.get('input') else (c,), NUL)
            else: ctx.judge(False, RULE, m.loc(inst), '%s: byte %s of %s, which has %d, is accessed%s' % (lab, util.short(leaf(p.off), 80), getattr(p.root, 'name', None) or p.root.args[0], mon.extent(m, p.root), when), () if mon.extra.get('input') else (c,), RULE)
        if not seen: ctx.ok(RULE, label)
    try:
        for lay in shapes(1, hi):
            L = lay[-1]; t = ', layers %s' % lay
            for lb, f in (('velocities', hyd.dzdt), ('dry depth', hyd.drydepth), ('new front', hyd.surficial), ('evapotranspiration', hyd.aet)): run(lb + t, L, f, m, lay)
            run('free drainage' + t, L, drainage, m, lay)
            run('infiltration' + t, L, hyd.insert, m, lay, supplier(lay))
            run('storage' + t, L, c13.storage, q, m, lay)
            if len(lay) > 1:
                for lb, f in (('merging', c13.merge), ('layer crossing', c13.crosslayer), ('domain crossing', c13.crossdomain), ('drier front', c13.dry)): run(lb + t, L, f, q, m, lay)
        for lay in shapes(1, hi - 1):
            run('movement, layers %s' % lay, lay[-1], movement, m, lay)
            run('calibration, layers %s' % lay, lay[-1], c17.apply_, q, m, lay, **{'c_' + k: 8 * lay[-1] for k in CAL})
        for L in (1, 2, 3):
            for k in range(1, L + 1): run('moisture search in layer %d of %d' % (k, L), L, hyd.solve, m, list(range(1, L + 1)), k, dth=8 * (k + 1), dz=8 * (k + 1), aet=8)
            run('initial column of %d layers' % L, L, hyd.initial, m, L)
            run('initialisation with %d layers' % L, L, c17.initial, q, m, L)
        for n in (1, 2, 3): run('soil file with %d soils' % n, 0, soilfile, m, n, table=(n + 1) * m.m.struct(SOIL).size, input=1)
        for n in range(0, hi + 1): run('list operations on %d fronts' % n, 0, lists, q, m, n)
        for n in range(1, 17 if thorough else 9): run('routing with %d ordinates' % n, 0, c19.run, m, n, ord=8 * n, queue=8 * (n + 1))
        for n in (1, 2, 3): run('end-of-run report with %d ordinates' % n, 0, ending, m, n, queue=8 * (n + 1))
        for n in (1, 2, 3): run('initial routing with %d ordinates' % n, 0, c19.init, q, m, n)
        mon.nonull = True
        for n in (1, 2, 3): run('outputs of %d fronts' % n, 0, c23.after_update, q, m, n)
    finally: interp.Interp.monitor = old
    ctx.count('accesses', mon.n); ctx.count('access instructions', len(mon.where))
    ctx.sample('%d accesses of %d instructions in %d analyses' % (mon.n, len(mon.where), mon.runs))
    ctx.guard('allocation', sizes, ctx, m); ctx.guard('allocation', table, ctx, m)

def supplier(lay):
    """the front that supplies the free drainage: the first one that does not end at the bottom of its layer, or the last one"""
    return next((k + 1 for k in range(len(lay) - 1) if lay[k] == lay[k + 1]), len(lay))
def drainage(m, lay):
    r = hyd.base(m, lay); hyd.go(r, 'wetting_front_free_drainage', [leaf(r.nodes[0])])
def movement(m, lay):
    r = c11.move_run(m, lay, supplier(lay))
    for s in range(r.sites):
        for k in range(1, len(lay)): c11.move_run(m, lay, supplier(lay), s, k)
def soilfile(m, n):
    f = m.fn('lgar_read_vG_param_file')
    if [p.ty.k for p in f.params] != ['ptr', 'int', 'double', 'ptr']: raise AnalysisError('signature of lgar_read_vG_param_file')
    I = m.interp(log=(), cut=c13.HYD | {'lgar_derived_soil_parameters'}); I.unroll = n + 2
    I.call_function(f, [leaf(hyd.P('name')), leaf(num(n)), leaf(sym('wp')), leaf(hyd.P('table'))], State({}, T)); m.use(I)
    if any(not r.unrolled for r in I.loops): raise AnalysisError('lines of the soil file')
def ending(m, n): c03.ended(m, n)
def lists(q, m, n):
    for f in (c12.length, c12.find, c12.first, c12.insert, c12.delete, c12.copy, c12.wipe): f(q, m, n)

def sizes(ctx, m):
    """what the configuration reader allocates"""
    need = {'frozen_factor': ('num_layers', 1, 8), 'soil_temperature': ('num_cells_temp', 0, 8), 'giuh_ordinates': ('num_giuh_ordinates', 1, 8),
            'layer_thickness_cm': ('num_layers', 1, 8), 'cum_layer_thickness_cm': ('num_layers', 1, 8), 'layer_soil_type': (None, 1, 4), 'soil_temperature_z': ('num_cells_temp', 0, 8)}
    c = conf.run(m); W = m.where(c.f)
    for key, flds in (('layer_thickness', ('layer_thickness_cm', 'cum_layer_thickness_cm')), ('layer_soil_type', ('layer_soil_type',)), ('soil_z', ('soil_temperature_z',))):
        ctx.need(key in c.keys, key)
        for f in flds:
            cnt, more, w = need[f]; o = c10.arrayof(c, key, f); sz = o.size
            n = conf.under(c, conf.after(c, cnt), key) if cnt else leaf(fn('vsize', c10.vector(c, key, ctx, m) and vecof(c, key, m)))
            room(ctx, m, f, sz, n, more, w, m.loc(o.inst) if getattr(o, 'inst', None) is not None else W)
    got = {}
    def seen(I, st, pd, v, inst):
        if pd.var is not None or not isinstance(pd.leaf, Ptr) or pd.leaf.tag is None: return
        f = m.fname(pd.leaf.tag).split('.')[-1].split('->')[-1]
        if f not in late or not any(isinstance(l, Ptr) and l.root in I.made for l in leaves(v)): return
        cnt, more, w = need[f]; S = Ptr(pd.leaf.root)
        ctx.need(v.var is None, 'allocation of ' + f)
        n = I.load(st, leaf(m.lv(S, upd.STATE, conf.P + cnt)), 'int')
        got.setdefault(f, []).append((I, inst, v.leaf.root.size, n, more, w))
    late = ('frozen_factor', 'soil_temperature', 'giuh_ordinates')
    c11.init_run(ctx, m, seen)
    for f in late:
        ctx.need(f in got, 'allocation of ' + f); coupled = False
        for I, inst, sz, n, more, w in {(x[1], x[2], x[3]): x for x in got[f]}.values():
            if f == 'soil_temperature' and sz.var is None and isinstance(sz.leaf, Poly) and sz.leaf.const() is not None: ctx.ok('allocation', 'soil_temperature, not coupled'); continue
            room(ctx, m, f, sz, n, more, w, m.loc(inst)); coupled = True
        ctx.need(coupled, 'allocation of ' + f)
def table(ctx, m):
    """the soil table has an entry for every soil read and for the soil of every layer"""
    I = m.interp(cut=conf.CUTS, log=()); hits = []; f = m.fn('InitFromConfigFile'); S = Ptr(atom('param', 'state')); cs = Ptr(atom('param', 'cfg')); st = State({}, T); ty = Obj('heap', 'types', None, None, None)
    libmodel.sstore(I, st, leaf(cs), leaf(Str('config.txt')))
    def hook(I, g, L, es):
        n = sum(1 for b in L.blocks for i in b.insts if i.op in ('call', 'invoke') and isinstance(i.callee, irload.FRef) and 'getline' in i.callee.name)
        if n and len(L.blocks) > 60 and not I.loopstack:
            hits.append(1); I.unroll = 4; I.store(es, leaf(m.lv(S, upd.STATE, conf.P + 'num_layers')), leaf(num(2))); I.store(es, leaf(m.lv(S, upd.STATE, conf.P + 'layer_soil_type')), leaf(Ptr(ty)))
            for k in (1, 2): I.store(es, leaf(Ptr(ty, num(4 * k))), leaf(sym('type%d' % k)))
    I.exit_hook = hook
    v, s = I.call_function(f, [leaf(cs), leaf(S)], st); m.use(I); ctx.need(hits and s is not None, 'end of the reading loop')
    p = I.load(s, leaf(m.lv(S, upd.STATE, 'soil_properties')), 'ptr'); ls = [l for l in leaves(p) if isinstance(l, Ptr) and isinstance(l.root, Obj) and getattr(l.root, 'size', None) is not None]
    ctx.need(len({l.root for l in ls}) == 1, 'the soil table'); sz = ls[0].root.size; w = m.m.struct(SOIL).size
    NT = I.load(s, leaf(m.lv(S, upd.STATE, conf.P + 'num_soil_types')), 'int')
    for what, n in (('the soil types of the file', NT), ('the soil of the first layer', leaf(sym('type1'))), ('the soil of the second layer', leaf(sym('type2')))):
        short = apply2(lambda a, b: cmp_lt(psub(a, pscale(padd(b, ONE), w))) if isinstance(a, Poly) and isinstance(b, Poly) else T, sz, n)
        x = possible(band(c10_alive(I, s), short))
        ctx.judge(x is None, 'allocation', m.where(f), x is not None and 'the soil table has no room for %s when %s' % (what, util.showlits(x)), (sz,), 'allocation', what)
def vecof(c, key, m):
    v = {a.args[1] for p, x, pc, inst, cs, ls in c.I.stores for a in util.atoms_of(x) if a.kind == 'fn' and a.args[0] == 'elem' and p.root is c10.arrayof(c, key, key)}
    if len(v) != 1: raise AnalysisError('list of ' + key)
    return next(iter(v))
def room(ctx, m, f, sz, n, more, w, where):
    d = apply2(lambda a, b: psub(a, pscale(padd(b, num(more)), w)) if isinstance(a, Poly) and isinstance(b, Poly) else leaf(UNDEF), sz, n); ls = leaves(d)
    ctx.need(all(isinstance(x, Poly) for x in ls), 'size of %s' % f)
    ctx.judge(all(x.const() is not None and x.const() >= 0 for x in ls), 'allocation', where, '%s is allocated with %s bytes; one of %d bytes is needed for each of %s and %d more' % (f, util.short(sz), w, util.short(n), more), (sz, n), 'allocation', f)
