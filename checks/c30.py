from fractions import Fraction
from harness import *
import bmi, util, upd
from effects import gep_tag

EXPLAIN = ('The body of the sub-step loop of Update is summarised once for an arbitrary sub-step; the calls of the physical processes stay opaque and are recorded with the condition under which they are made, their arguments and the memory they see. '
           'Conditions and arguments are compared, as gated polynomials over the state at the start of the sub-step, with those the sub-step has to have.')
ASSUME = ['real-number arithmetic, sub-steps of positive length', 'what each process does with its arguments is C13, C15, C22, C27, C28', 'an update with valid soils', 'ponded water below 1e-12 cm counts as none',
          'the ponded head behind the velocities is judged where water has infiltrated in the sub-step']
WF = 'wetting_front'; PB = 'lgar_bmi_params.'
MUT = ('lgar_move_wetting_fronts', 'lgar_create_surficial_front', 'lgar_dzdt_calc', 'lgar_merge_wetting_fronts', 'lgar_wetting_fronts_cross_layer_boundary', 'listInsertFirst', 'BmiLGAR::update_calibratable_parameters')
CUTS = upd.CUTS | {'lgar_insert_water', 'lgar_create_surficial_front'}

def check(ctx):
    ctx.rule('a new front is created exactly when it rains, it did not rain in the sub-step before, the topmost front is below saturation and no water is ponded')
    ctx.rule('otherwise the water at the surface, if any, infiltrates; fronts move exactly once per sub-step, after infiltration and before a new front is created, with the water infiltrated (none when a front is created)')
    ctx.rule('every process gets the length of the sub-step, the rain rate, the current fronts, the soil water before the movement and the soils, depths and freeze factors of the column')
    ctx.rule('velocities are computed last, for all fronts, with the water left on the surface as head')
    for cf in ctx.configs():
        for ad in ((0, 1) if ctx.tier == 'thorough' or cf == 'STANDALONE' else (0,)): ctx.guard('sub-step', one, ctx, ctx.mod(cf), ad)

def iff(a, b): return ite(a, b, bnot(b))
def unname(sub, d):
    """decisions about named loop-invariant values spelled out"""
    if d.var is None: return d
    c = bvar(d.var)
    if d.var.kind == 'eq0':
        at = [a for a in d.var.args[0].atoms() if a in sub.r.inv]
        if len(at) == 1 and d.var.args[0] is patom(at[0]): c = apply1(lambda v: cmp_eq(v) if isinstance(v, Poly) else F, sub.r.inv[at[0]])
    return ite(c, unname(sub, d.hi), unname(sub, d.lo))
def one(ctx, m, ad):
    u = upd.run(m, cuts=CUTS, adaptive=ad, calib=0, sft=0, invalid=0); sub = upd.Sub(u); I = u.I; S = u.S
    name = lambda e: base(m.m.funcs[e.data[0]].dem)
    ev = [e for e in I.events if e.kind == 'cut' and sub.key in e.loops]; idx = {id(e): k for k, e in enumerate(ev)}
    def calls(n, must=True):
        r = [e for e in ev if name(e) == n]
        if must: ctx.need(r, 'a call of ' + n)
        return r
    NARG = {'lgar_move_wetting_fronts': 12, 'lgar_calc_dry_depth': 9, 'lgar_create_surficial_front': 10, 'lgar_insert_water': 15, 'lgar_dzdt_calc': 8, 'listCopy': 2, 'wetting_front_free_drainage': 1, 'lgar_calc_mass_bal': 2, 'calc_aet': 9}
    for e in ev: ctx.need(len(e.data[1]) == NARG.get(name(e), len(e.data[1])), 'signature of ' + name(e))
    ctx.need(all(len(e.loops) == 1 for e in ev if name(e) in NARG and name(e) != 'listCopy'), 'a process is called in a loop of its own')
    moves, dries, news, ins, vels = calls('lgar_move_wetting_fronts'), calls('lgar_calc_dry_depth'), calls('lgar_create_surficial_front'), calls('lgar_insert_water'), calls('lgar_dzdt_calc')
    wrote = [s for s in I.stores if isinstance(s[0], Ptr) and s[0].tag and s[0].tag[0] == WF]
    if wrote: ctx.undecided('sub-step', 'Update writes wetting fronts itself'); return
    care = sub.r.latch.pc
    for s in sub.exits():
        if s[0] not in sub.tests(): care = bor(care, s[2].pc)
    dt = sub.step_length()
    rate = upd.nonneg(apply1(lambda x: pscale(x, Fraction(1, 10)), sub.rate('precipitation_mm_per_h')))
    amount = apply2(lambda a, b: pmul(a, b), rate, dt)
    v = upd.final(u, sub, upd.load(u, u.st, m.lv(S, upd.STATE, 'lgar_mass_balance.volon_timestep_cm')), Fraction(1), 'volon_timestep_cm')
    vol = leaf(sub.cur(v)); vn = sub.next(v); x = sub.cur(v)
    tiny = num(Fraction(1, 10 ** 12))
    # the ponded water before the sub-step is not negative (C01); sub-step length positive: the same comparison as a rate and as an amount
    care = band(care, band(bnot(cmp_lt(x)), bor(cmp_lt(psub(tiny, x)), cmp_lt(x, False))))
    r0 = sub.rate('precipitation_mm_per_h'); ctx.need(r0.var is None and dt.var is None, 'rain rate and sub-step length')
    r0, d0 = r0.leaf, dt.leaf; wet = cmp_lt(pneg(r0)); total = padd(pscale(pmul(r0, d0), Fraction(1, 10)), x)
    care = band(care, band(iff(wet, cmp_lt(pneg(pmul(r0, d0)))), iff(cmp_lt(r0), cmp_lt(pmul(r0, d0)))))
    care = band(care, band(cmp_lt(pneg(d0)), bor(cmp_lt(r0), iff(cmp_lt(pneg(total)), bor(wet, cmp_lt(pneg(x)))))))
    def eq(rule, e, what, got, exp, c=None):
        c = band(e.pc, care) if c is None else c
        if got is exp: ctx.ok(rule, what); return
        r = sub.same(got, exp, c)
        ctx.judge(r is None, rule, m.loc(e.inst), r and '%s gets %s %s instead of %s%s' % (name(e), what, util.short(got, 120), util.short(exp, 120), ' when ' + util.showlits(r[0], 6) if r[0] else ''), (got, exp), rule, what)
    def cond(rule, where, what, got, exp, c=None):
        r = util.same(ite(got, leaf(ONE), leaf(ZERO)), ite(exp, leaf(ONE), leaf(ZERO)), care if c is None else c)
        ctx.judge(r is None, rule, where, r and '%s%s' % (what, ' when ' + util.showlits(r[0], 10)), (got,), rule, what)
    def anyof(es):
        o = F
        for e in es: o = bor(o, e.pc)
        return o
    W = m.where(u.f)
    # ---- creation
    e0 = moves[0]
    head0 = sub.at(news[0].mem, m.lv(S, upd.STATE, 'head'), 'ptr')
    def fld(mem, f, ty='ptr'): return sub.at(mem, m.lv(S, upd.STATE, f), ty)
    def top(mem, f, ty='double'): return apply1(lambda p: sub.at(mem, m.lv(p, WF, f), ty) if isinstance(p, Ptr) else leaf(sym('?')), fld(mem, 'head'))
    first = min(moves, key=lambda e: idx[id(e)])
    ths = set()
    lay = top(first.mem, 'layer_num', 'int'); ty = fld(first.mem, PB + 'layer_soil_type'); so = fld(first.mem, 'soil_properties')
    ctx.need(ty.var is None and so.var is None, 'soils'); sz = m.m.struct('soil_properties_').size
    sn = apply1(lambda l: sub.at(first.mem, Ptr(ty.leaf.root, padd(ty.leaf.off, pscale(l, 4))), 'int') if isinstance(l, Poly) else leaf(sym('?')), lay)
    te = apply1(lambda k: sub.at(first.mem, m.lv(Ptr(so.leaf.root, padd(so.leaf.off, pscale(k, sz))), 'soil_properties_', 'theta_e')) if isinstance(k, Poly) else leaf(sym('?')), sn); th = top(first.mem, 'theta')
    prev = sub.at_head(m.lv(S, upd.STATE, PB + 'precip_previous_timestep_cm')); ctx.need(prev.var is None, 'rain before')
    unsat = apply2(lambda a, b: cmp_lt(psub(padd(a, tiny), b)), th, te)
    C = band(band(cmp_eq(prev.leaf), wet), band(unsat, cmp_lt(psub(x, tiny), False)))
    cond('creation', m.loc(news[0].inst), 'a front is %screated against the rule' % '', anyof(news), C)
    for es, n in ((dries, 'the dry depth'),): cond('creation', m.loc(es[0].inst), n + ' is not computed where a front is created', anyof(es), C)
    # ---- infiltration
    pond = util.adddd(amount, vol)
    some = apply1(lambda p: cmp_lt(pneg(p)), pond)
    cond('infiltration', m.loc(ins[0].inst), 'water infiltrates against the rule', anyof(ins), band(bnot(C), some))
    # ---- movement: once
    cond('movement', m.loc(moves[0].inst), 'the fronts are not moved in every sub-step', anyof(moves), T)
    for i, a in enumerate(moves):
        for b in moves[i + 1:]:
            o = band(band(a.pc, b.pc), care); r = util.same(ite(o, leaf(ONE), leaf(ZERO)), leaf(ZERO), care)
            ctx.judge(r is None, 'movement', m.loc(b.inst), r and 'the fronts are moved twice in a sub-step when ' + util.showlits(r[0], 8), (o,), 'movement', 'once')
    def both(a, b): return util.same(ite(band(a.pc, b.pc), leaf(ONE), leaf(ZERO)), leaf(ZERO), care) is not None
    def order(a, b, what):
        for p in a:
            for q in b:
                if both(p, q): ctx.judge(idx[id(p)] < idx[id(q)], 'order', m.loc(q.inst), what, (), 'order', what)
    order(moves, dries, 'the dry depth is taken before the fronts have moved'); order(moves, news, 'the front is created before the fronts have moved'); order(ins, moves, 'the fronts move before the water infiltrates')
    order(dries, news, 'the front is created before its depth is known'); order(moves + news + ins, vels, 'velocities are computed before the fronts have moved')
    # ---- arguments
    col = [(PB + 'cum_layer_thickness_cm', 'depths of the layers'), (PB + 'layer_soil_type', 'soils of the layers'), (PB + 'frozen_factor', 'freeze factors'), ('soil_properties', 'soil table')]
    LAY = {'lgar_move_wetting_fronts': (6, 7, 8, 11), 'lgar_calc_dry_depth': (5, 4, 6, 8), 'lgar_create_surficial_front': (6, 5, 7, 9), 'lgar_insert_water': (11, 10, 12, 14), 'lgar_dzdt_calc': (4, 3, 5, 7)}
    HEAD = {'lgar_calc_dry_depth': 7, 'lgar_insert_water': 13, 'lgar_dzdt_calc': 6, 'wetting_front_free_drainage': 0}
    LEN = {'lgar_move_wetting_fronts': 0, 'lgar_calc_dry_depth': 2, 'lgar_insert_water': 2}
    NL = {'lgar_move_wetting_fronts': 4, 'lgar_create_surficial_front': 0, 'lgar_insert_water': 8}
    G = {'lgar_calc_dry_depth': (0, 1), 'lgar_insert_water': (0, 1), 'lgar_dzdt_calc': (0, 1)}
    for e in ev:
        n = name(e); a = e.data[1]
        for k, (f, w) in zip(LAY.get(n, ()), col): eq('arguments', e, 'the ' + w, a[k], fld(e.mem, f))
        if n in HEAD: eq('arguments', e, 'the fronts', a[HEAD[n]], fld(e.mem, 'head'))
        if n in ('lgar_move_wetting_fronts', 'lgar_create_surficial_front'):
            k = 9 if n[5] == 'm' else 8
            ctx.judge(a[k] is leaf(m.lv(S, upd.STATE, 'head')), 'arguments', m.loc(e.inst), '%s does not work on the fronts of the model' % n, (a[k],), 'arguments', 'fronts')
        if n in LEN: eq('arguments', e, 'the sub-step length', a[LEN[n]], dt)
        if n in NL: eq('arguments', e, 'the number of layers', a[NL[n]], fld(e.mem, PB + 'num_layers', 'int'))
        if n in G:
            eq('arguments', e, 'the number of intervals of the capillary drive', a[G[n][1]], fld(e.mem, PB + 'nint', 'int'))
            cl = apply1(lambda q: bnot(cmp_eq(q)) if isinstance(q, Poly) else F, fld(e.mem, PB + 'use_closed_form_G', 'i8')); eq('arguments', e, 'the choice of the capillary drive', unname(sub, a[G[n][0]]), cl)
    def mutated(a, b):
        return next((z for z in ev if name(z) in MUT and idx[id(a)] < idx[id(z)] < idx[id(b)] and both(z, b)), None)
    def results(d): return {a.args[0] for l in util.thawed(d) if isinstance(l, Poly) for a in l.atoms() if a.kind == 'res'}
    def fresh(rule, e, what, got, fname):
        """on every path the argument is the result of fname for the fronts as they are now"""
        cs = [c for c in calls(fname) if idx[id(c)] < idx[id(e)]]
        ok = lambda l: isinstance(l, Poly) and any(l is patom(atom('res', c.data[2])) and mutated(c, e) is None for c in cs)
        bad = next(iter(util.nonzero_paths(got, band(e.pc, care), zero=ok)), None)
        ctx.judge(bad is None, rule, m.loc(e.inst), bad and '%s gets %s %s' % (name(e), what, util.short(bad[1], 150)), (got,), rule, what)
    for e in moves + ins: fresh('arguments', e, 'as the front taking up water', e.data[1][2 if name(e)[5] == 'm' else 7], 'wetting_front_free_drainage')
    # the fronts as they were, for the balance of the movement
    copies = calls('listCopy')
    for e in moves:
        got = e.data[1][10]
        def ok(l):
            for c in copies:
                t = c.data[2]
                if isinstance(l, Ptr) and isinstance(l.root, Atom) and any(z is t or z == t for z in l.root.args) and iszero(l.off): return mutated(c, e) is None and c.data[1][0] is fld(c.mem, 'head')
            return False
        r = None
        for ls, l in util.nonzero_paths(apply1(lambda l: ZERO if ok(l) else l, got), band(e.pc, care)): r = (ls, l); break
        ctx.judge(r is None, 'arguments', m.loc(e.inst), r and 'the movement is balanced against %s instead of a copy of the fronts before it' % util.short(r[1], 150), (got,), 'arguments', 'previous state')
    # soil water before the movement
    mass = lambda: [e for e in I.events if e.kind == 'cut' and name(e) == 'lgar_calc_mass_bal']
    def ismass(d, evs, last):
        """the value is the soil water of the fronts seen by the call `last` or later"""
        for l in util.thawed(d):
            if not isinstance(l, Poly): return False
            c = [z for z in evs if l is patom(atom('res', z.data[2]))]
            if not c: return False
            if c[0].data[1][1] is not sub.at(c[0].mem, m.lv(S, upd.STATE, 'head'), 'ptr'): return False
            if last is not None and not last(c[0]): return False
        return True
    for e in moves:
        got = e.data[1][3]; good = False
        if ismass(got, [c for c in mass() if sub.key in c.loops and idx[id(c)] < idx[id(e)]], lambda c: mutated(c, e) is None): good = True
        elif got.var is None and isinstance(got.leaf, Poly) and len(got.leaf.atoms()) == 1 and sub.isvar(next(iter(got.leaf.atoms()))) and got.leaf is patom(next(iter(got.leaf.atoms()))):
            a = next(iter(got.leaf.atoms()))
            end = max(vels, key=lambda z: idx[id(z)])
            lastm = lambda c: all(idx[id(z)] < idx[id(c)] for z in ev if name(z) in ('lgar_move_wetting_fronts', 'lgar_create_surficial_front'))
            outer = [c for c in I.events if c.kind == 'cut' and not c.loops]
            pos = {id(c): k for k, c in enumerate(outer)}
            nx = [c for c in mass() if sub.key in c.loops]
            good = ismass(sub.next(a), nx, lastm) and ismass(sub.init(a), [c for c in outer if name(c) == 'lgar_calc_mass_bal'], lambda c: not any(name(z) in MUT and pos[id(z)] > pos[id(c)] for z in outer))
        ctx.judge(good, 'arguments', m.loc(e.inst), 'the movement is balanced against %s instead of the soil water before it' % util.short(got, 150), (got,), 'arguments', 'soil water before')
    # water moved
    dI = sub.inc(upd.accumulator(u, sub, 'infiltration'))
    for e in moves:
        got = apply1(lambda p: sub.at(e.mem, p) if isinstance(p, Ptr) else leaf(sym('?')), e.data[1][1])
        eq('water', e, 'as infiltrated water without rain and ponding or next to a new front', got, leaf(ZERO), band(band(e.pc, care), bnot(anyof(ins))))
        for q in ins:
            if both(q, e): eq('water', e, 'as infiltrated water', got, dI, band(band(e.pc, q.pc), care))
    for q in ins:
        a = q.data[1]
        eq('water', q, 'as water at the surface', apply1(lambda p: sub.at(q.mem, p) if isinstance(p, Ptr) else leaf(sym('?')), a[4]), pond)
        eq('water', q, 'as rain rate', a[6], rate); eq('water', q, 'as maximum ponding', a[9], fld(q.mem, PB + 'ponded_depth_max_cm', 'double'))
        for e in moves:
            if both(q, e): eq('water', q, 'as evapotranspiration', a[3], apply1(lambda p: sub.at(q.mem, p) if isinstance(p, Ptr) else leaf(sym('?')), e.data[1][5]), band(band(e.pc, q.pc), care))
    for q in news:
        a = q.data[1]
        eq('new front', q, 'as water at the surface', apply1(lambda p: sub.at(q.mem, p) if isinstance(p, Ptr) else leaf(sym('?')), a[1]), pond)
        fresh('new front', q, 'as depth', a[3], 'lgar_calc_dry_depth')
        eq('new front', q, 'as moisture below', a[4], top(q.mem, 'theta'))
    for e in vels:
        for q in ins: eq('velocity', e, 'as ponded head', e.data[1][2], vn, band(band(e.pc, q.pc), care))
        # a new front below a full surface store
        hm = fld(e.mem, PB + 'ponded_depth_max_cm', 'double'); full = apply2(lambda a, b: cmp_lt(psub(a, b), False) if isinstance(a, Poly) and isinstance(b, Poly) else F, hm, vn)
        eq('velocity', e, 'as head below a full surface store', e.data[1][2], vn, band(band(e.pc, full), band(care, bnot(anyof(ins)))))
    cond('velocity', m.loc(vels[0].inst), 'velocities are not computed in every sub-step', anyof(vels), T)
    # rain memory
    now = sub.at_latch(m.lv(S, upd.STATE, PB + 'precip_previous_timestep_cm')); r = sub.same(now, amount, band(care, sub.r.latch.pc))
    if r is not None:       # any quantity that is zero exactly without rain will do
        z = apply1(lambda q: cmp_eq(q) if isinstance(q, Poly) else F, now); r = util.same(ite(z, leaf(ONE), leaf(ZERO)), ite(bnot(wet), leaf(ONE), leaf(ZERO)), band(care, sub.r.latch.pc))
    ctx.judge(r is None, 'creation', W, r and 'the rain of the sub-step is remembered as %s' % util.short(now, 120), (now,), 'creation', 'rain memory')
