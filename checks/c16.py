from harness import *
import bmi, util, upd, libmodel, conf
from c21 import possible
import itertools

EXPLAIN = ('The factor computation is analysed for every number of layers and cells up to the bound and every assignment of cells to layers, with temperatures and depths as unknowns: each factor must be the published exponential of the mean temperature of that layer\'s own cells, limited to [0.05, 1], and no element outside the profile may be read. '
           'The call in the update, its arguments and its position before every flux, the initial values and the absence of any other writer are decided on the value graph and the call graph.')
ASSUME = ['cell depths increase downwards', 'up to 3 layers and 4 cells (thorough: 4 and 6) in every assignment, and single assignments of up to 24 cells and 6 layers', 'a layer without a cell aborts (C21)']
B = 'lgar_bmi_parameters'; FN = 'frozen_factor_hydraulic_conductivity'
ARR = ('soil_temperature', 'soil_temperature_z', 'cum_layer_thickness_cm', 'frozen_factor')

def check(ctx):
    ctx.rule('factor of layer l = min(1, max(0.05, exp(-10 (273.15 - mean temperature of the cells lying in layer l))))')
    ctx.rule('no access outside the temperature profile or the factor array')
    ctx.rule('with coupling: exactly one refresh per update, from the state\'s own profile, before every flux computation; without coupling: none')
    ctx.rule('all factors are 1 after initialisation and are written nowhere else')
    m = ctx.mod('STANDALONE'); L, N = (4, 6) if ctx.tier == 'thorough' else (3, 4)
    for l in range(1, L + 1):
        for n in range(l, N + 1):
            for a in itertools.combinations_with_replacement(range(1, l + 2), n): ctx.guard('factor', factor, ctx, m, l, n, a)
    # long profiles: many cells in a layer, more layers
    for a in ((1,) * 24, (1,) + (2,) * 15 + (3,) * 2 + (4,) * 6, (1, 2, 3, 4, 5, 6, 6), (1,) * 3 + (2,) * 12 + (3,) * 5): ctx.guard('factor', factor, ctx, m, max(a), len(a), a)
    for cf in ctx.configs(): ctx.guard('refresh', refresh, ctx, ctx.mod(cf))
    ctx.guard('initial factors', initial, ctx, m)
    ctx.guard('writers', writers, ctx, m)

def factor(ctx, m, L, N, assign):
    f = m.fn(FN); ctx.need(len(f.params) == 1, 'signature')
    I = m.interp(log=()); I.unroll = L + N + 3
    P = Ptr(Obj('heap', 'params', None)); st = State({}, T); ar = {n: Obj('heap', n, None, None, None) for n in ARR}
    I.store(st, leaf(m.lv(P, B, 'num_layers')), leaf(num(L))); I.store(st, leaf(m.lv(P, B, 'num_cells_temp')), leaf(num(N)))
    for n in ARR: I.store(st, leaf(m.lv(P, B, n)), leaf(Ptr(ar[n])))
    cum = [ZERO] + [sym('cum%d' % k) for k in range(1, L + 1)]
    for k in range(L + 1): I.store(st, leaf(Ptr(ar['cum_layer_thickness_cm'], num(8 * k))), leaf(cum[k])); I.store(st, leaf(Ptr(ar['frozen_factor'], num(8 * k))), leaf(sym('old%d' % k)))
    for c in range(N):
        I.store(st, leaf(Ptr(ar['soil_temperature'], num(8 * c))), leaf(sym('T%d' % c))); I.store(st, leaf(Ptr(ar['soil_temperature_z'], num(8 * c))), leaf(sym('z%d' % c)))
        for k in range(1, L + 1):
            inside = bnot(cmp_lt(psub(cum[k], sym('z%d' % c))))       # z <= cum
            I.assume = band(I.assume, inside if assign[c] <= k else bnot(inside))
    I.track_free(); I.bounds = {ar['soil_temperature']: 8 * N, ar['soil_temperature_z']: 8 * N, ar['frozen_factor']: 8 * (L + 1)}; I.outside = []
    v, s = I.call_function(f, [leaf(P)], st); m.use(I); W = m.where(f)
    what = '%d layers, cells in layers %s' % (L, list(assign))
    for inst, p, c in I.outside:
        if possible(c) is not None: ctx.judge(False, 'extent', m.loc(inst), '%s: element %s of %s is accessed' % (what, util.short(leaf(p.off)), p.root.name), (c,), 'extent')
    if not I.outside: ctx.ok('extent', what)
    if any(l not in assign for l in range(1, L + 1)): return
    ctx.need(s is not None, what)
    for l in range(1, L + 1):
        got = I.load(s, leaf(Ptr(ar['frozen_factor'], num(8 * l))), 'double')
        cells = [c for c in range(N) if assign[c] == l]; mean = ZERO
        for c in cells: mean = padd(mean, sym('T%d' % c))
        mean = pscale(mean, Fraction(1, len(cells)))
        e = fn('exp', pscale(psub(mean, num(Fraction(27315, 100))), 10))
        ok = None
        for ls, x in util.nonzero_paths(apply1(lambda x: x, got), band(s.pc, I.assume), zero=lambda x: False):
            if not isinstance(x, Poly): ok = (ls, x); break
            lo, hi = num(Fraction(5, 100)), ONE
            if same(x, e):
                if implies(ls, e, lo, hi): continue
            elif near(x, 1):
                if implies_ge(ls, e, hi): continue
            elif near(x, Fraction(5, 100)):
                if implies_ge(ls, lo, e): continue
            ok = (ls, x); break
        ctx.judge(ok is None, 'factor', W, ok and '%s: factor of layer %d is %s%s instead of exp(-10(273.15-mean)) within [0.05, 1] over cells %s' % (what, l, util.short(leaf(ok[1]), 120), ' when ' + util.showlits(ok[0], 3) if ok[0] else '', cells), (got,), 'factor', what)
def near(x, c):
    k = x.const(); return k is not None and abs(k - c) < Fraction(1, 10 ** 12)
def same(x, e):
    """equal up to rounding of the constants in the exponent"""
    if x is e: return True
    a, b = list(x.atoms()), list(e.atoms())
    if len(x.t) != 1 or len(a) != 1 or a[0].kind != 'fn' or a[0].args[0] != 'exp' or x is not patom(a[0]): return False
    d = psub(a[0].args[1], b[0].args[1])
    return all(abs(c) < Fraction(1, 10 ** 9) for c in d.t.values())
def canon(ls, e):
    """conditions with the exponential replaced by one symbol"""
    g = sym('E'); out = []
    for a, v in ls:
        if a.kind in ('lt0', 'le0', 'eq0'):
            p = a.args[0]
            sub = {x: g for x in p.atoms() if same(patom(x), e)}
            if sub:
                q = substp(p, sub); c = cmp_lt(q, a.kind == 'lt0') if a.kind != 'eq0' else cmp_eq(q)
                for x in util.forced(c if v else bnot(c)) or (): out.append(x)
    return tuple(out), g
def substp(p, sub):
    r = ZERO
    for mm, k in p.t.items():
        t = num(k)
        for a, e in mm: t = pmul(t, ppow(sub.get(a, patom(a)), e))
        r = padd(r, t)
    return r
def implies_ge(ls, a, b):
    """do the conditions force a >= b?"""
    e = a if a.const() is None else b
    l2, g = canon(ls, e)
    x, y = (g if a is e else a), (g if b is e else b)
    eps = num(Fraction(1, 10 ** 9))
    c = cmp_lt(padd(psub(x, y), eps), True)
    if c is F: return True
    if c is T: return False
    return util.contradict(tuple(l2) + tuple(util.forced(c)))
def implies(ls, e, lo, hi): return implies_ge(ls, e, lo) and implies_ge(ls, hi, e)

FLUX = ('lgar_move_wetting_fronts', 'lgar_dzdt_calc', 'calc_aet', 'lgar_calc_dry_depth', 'lgar_insert_water', 'lgar_create_surficial_front', 'lgar_calc_mass_bal')
def refresh(ctx, m):
    f = m.fn(FN); R = 'refresh'
    for sft in (0, 1):
        log = []
        def hook(I, inst, args, st, env):
            log.append((len(I.events), args, st.copy(), I.fullpc(st.pc, I.callstack, 1), I.loopstack, inst)); return NotImplemented
        orig = m.interp
        def mk(**kw):
            I = orig(**kw); I.hooks[f.name] = hook; return I
        m.interp = mk
        try: u = upd.run(m, adaptive=0, calib=0, sft=sft, invalid=0)
        finally: m.interp = orig
        W = m.where(u.f)
        if not sft:
            ctx.judge(all(possible(x[3]) is None for x in log), R, W, 'the freeze factors are recomputed without freeze-thaw coupling', (), R, 'no coupling'); continue
        if not log: ctx.judge(False, R, W, 'the freeze factors are not recomputed with freeze-thaw coupling', (), R); continue
        ctx.judge(len(log) == 1 and not log[0][4], R, m.loc(log[0][5]), 'the freeze factors are recomputed at %d places%s' % (len(log), ', inside a loop' if log[0][4] else ''), (), R, 'one refresh')
        k, args, st, pc, ls, inst = log[0]
        miss = possible(bnot(pc))
        ctx.judge(miss is None, R, m.loc(inst), miss is not None and 'the freeze factors are not recomputed when %s' % util.showlits(miss), (pc,), R, 'always')
        first = next((j for j, e in enumerate(u.I.events) if e.kind == 'cut' and base(m.m.funcs[e.data[0]].dem) in FLUX), None)
        ctx.need(first is not None, 'flux computations')
        ctx.judge(k <= first, R, m.loc(inst), 'the freeze factors are recomputed after a flux was computed (%s)' % base(m.m.funcs[u.I.events[first].data[0]].dem), (), R, 'before every flux')
        p = args[0].leaf; ctx.need(isinstance(p, Ptr), 'parameters')
        for n in ARR + ('num_layers', 'num_cells_temp'):
            ty = 'ptr' if n in ARR else 'int'
            a = u.I.load(st, leaf(m.lv(p, B, n)), ty); b = u.I.load(st, leaf(m.lv(u.S, upd.STATE, 'lgar_bmi_params.' + n)), ty)
            ctx.judge(a is b, R, m.loc(inst), 'the freeze factors are computed with %s = %s' % (n, util.short(a)), (a,), R, n)
        for n in ('soil_temperature', 'soil_temperature_z', 'cum_layer_thickness_cm'):
            # the profile is that of the caller: not written by the update before
            q = u.I.load(st, leaf(m.lv(u.S, upd.STATE, 'lgar_bmi_params.' + n)), 'ptr').leaf
            w = [x for x in u.I.stores if isinstance(x[0], Ptr) and x[0].root is q.root and isinstance(q, Ptr)]
            ctx.judge(not w, R, m.loc(w[0][3]) if w else W, '%s is changed by the update' % n, (), R, n)
def initial(ctx, m):
    R = 'initial factors'
    for L in (1, 3):
        I = m.interp(cut=conf.CUTS, log=()); hits = []
        f = m.fn('InitFromConfigFile'); S = Ptr(Obj('heap', 'state', None)); cs = Ptr(Obj('heap', 'cfg', None)); st = State({}, T)
        libmodel.sstore(I, st, leaf(cs), leaf(Str('config.txt')))
        def hook(I, g, lp, es):
            n = sum(1 for b in lp.blocks for i in b.insts if i.op in ('call', 'invoke') and isinstance(i.callee, irload.FRef) and 'getline' in i.callee.name)
            if n and len(lp.blocks) > 60 and not I.loopstack:
                hits.append(1); I.unroll = L + 3
                I.store(es, leaf(m.lv(S, upd.STATE, 'lgar_bmi_params.num_layers')), leaf(num(L)))
        I.exit_hook = hook
        v, s = I.call_function(f, [leaf(cs), leaf(S)], st); m.use(I)
        ctx.need(hits and s is not None, 'end of the reading loop')
        q = I.load(s, leaf(m.lv(S, upd.STATE, 'lgar_bmi_params.frozen_factor')), 'ptr')
        for k in range(1, L + 1):
            x = I.load(s, I.ap1(lambda p: Ptr(p.root, padd(p.off, num(8 * k))), q), 'double')
            ctx.judge(x is leaf(ONE) or util.same(x, leaf(ONE), s.pc) is None, R, m.where(f), 'the initial freeze factor of layer %d is %s' % (k, util.short(x, 80)), (x,), R, 'layer %d of %d' % (k, L))
def writers(ctx, m):
    """no store through a pointer that came from the factor array, except in the factor computation and initialisation"""
    from effects import gep_tag
    off = m.off(B, 'frozen_factor'); R = 'writers'
    allowed = {m.fn(FN).name, m.fn('InitFromConfigFile').name}
    helpers = lambda f: f.name in allowed or (lambda cs: bool(cs) and all(c in allowed for c in cs))({g.name for g in m.own() for b in g.blocks for i in b.insts if i.op in ('call', 'invoke') and isinstance(i.callee, irload.FRef) and i.callee.name == f.name})
    tainted = {}      # function -> set of params
    todo = list(m.own()); n = 0
    for _ in range(12):
        grew = False
        for f in m.own():
            t = set(p for k, p in enumerate(f.params) if k in tainted.get(f.name, ()))
            ch = True
            while ch:
                ch = False
                for b in f.blocks:
                    for i in b.insts:
                        if i in t: continue
                        if i.op == 'load' and isinstance(i.ops[0], irload.Inst) and i.ops[0].op == 'getelementptr':
                            g = gep_tag(i.ops[0].gty, i.ops[0].ops[1:])
                            if g and g[0] == B and g[1] == off: t.add(i); ch = True
                        elif i.op in ('getelementptr', 'bitcast') and i.ops[0] in t: t.add(i); ch = True
                        elif i.op == 'phi' and any(v in t for v, blk in i.incoming): t.add(i); ch = True
                        elif i.op == 'select' and (i.ops[1] in t or i.ops[2] in t): t.add(i); ch = True
            for b in f.blocks:
                for i in b.insts:
                    if i.op in ('call', 'invoke') and isinstance(i.callee, irload.FRef):
                        for k, a in enumerate(i.ops):
                            if a in t and k not in tainted.setdefault(i.callee.name, set()): tainted[i.callee.name].add(k); grew = True
                    if i.op == 'store' and i.ops[1] in t and _ == 11 or (i.op == 'store' and i.ops[1] in t and not helpers(f)):
                        if not helpers(f): ctx.judge(False, R, m.loc(i), '%s changes a freeze factor' % base(f.dem), (), R)
            n = max(n, len(tainted))
        if not grew: break
    ctx.ok(R, '%d functions receive the factors' % n)
