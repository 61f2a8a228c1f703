from harness import *
import bmi, util, upd
import c14
from c14 import A, M, N, R, D, E, WP, pos, nonneg, inv, SOIL

EXPLAIN = ('The evapotranspiration function is evaluated as a gated expression for one arbitrary column and soil; with the documented ranges of its arguments every gate is decided by the signs of the factors, and what remains is compared with the documented response curve; '
           'its value between zero and the demand and its monotonicity are read off the normal form. In the update, one arbitrary sub-step is analysed: which rate, length, parameters and column the function is given, and what the moving of fronts then receives.')
ASSUME = ['real-number arithmetic', 'capillary heads are not negative, van Genuchten parameters are admissible', 'field capacity and wilting point heads are positive', 'the moisture solver may reduce the demand it is given when the column cannot supply it (not part of this property)']
PET, DT, FC, PSI = sym('PET'), sym('dt'), sym('psi_fc'), sym('psi')
PB = 'lgar_bmi_params.'

def check(ctx):
    ctx.rule('demand = PET * dt / (1 + (psi / psi50)^3), psi head of the topmost front, psi50 head at the moisture halfway between field capacity and wilting point of its soil')
    ctx.rule('0 <= demand <= PET * dt, and the stress factor does not increase with psi')
    ctx.rule('the update passes the current rate, the sub-step length, the configured heads and the current column; without potential demand the sub-step has demand zero')
    m = ctx.mod('STANDALONE')
    ctx.guard('response', response, ctx, m)
    for cf in ctx.configs():
        for ad in ((0, 1) if cf == 'STANDALONE' else (0,)): ctx.guard('update', update, ctx, ctx.mod(cf), ad)

# ------------------------------------------------------------------ signs
def sign(p, P, depth=0):
    """'+', '0+', '-', '0-', '0' or None for a polynomial, given atoms known positive (P: atom -> '+' or '0+')"""
    if not p.t: return '0'
    def mono(mm, c):
        s = '+' if c > 0 else '-'
        for a, e in mm:
            if a.kind == 'poly' and not (isinstance(e, Fraction) and e.denominator == 1): k = '+'      # base of a real power
            elif a.kind == 'poly': k = sign(a.args[0], P, depth + 1)
            elif a.kind == 'cpow': k = '+'
            else: k = P.get(a)
            if isinstance(e, Fraction) and e.denominator == 1 and e % 2 == 0 and k in ('-', '+'): k = '+'
            if k is None or k in ('-', '0-', '0'): 
                if k == '-' and isinstance(e, Fraction) and e.denominator == 1: k = '-'
                else: return None
            if k == '0+': s = {'+': '0+', '-': '0-', '0+': '0+', '0-': '0-'}[s]
            elif k == '-': s = {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}[s]
        return s
    ss = {mono(mm, c) for mm, c in p.t.items()}
    if None in ss: 
        if depth > 3: return None
        # clear denominators of known sign
        den = [(a, e) for mm in p.t for a, e in mm if a.kind == 'poly' and isinstance(e, Fraction) and e < 0 and e.denominator == 1]
        return None
    if ss <= {'+', '0+'}: return '+' if '+' in ss else '0+'
    if ss <= {'-', '0-'}: return '-' if '-' in ss else '0-'
    # mixed: multiply by a denominator of known positive sign and try again
    if depth < 4:
        for a in {a for mm in p.t for a, e in mm if a.kind == 'poly' and isinstance(e, Fraction) and e < 0 and e.denominator == 1}:
            if sign(a.args[0], P, depth + 1) == '+':
                q = ZERO
                for mm, c in p.t.items():
                    d = dict(mm); e = d.pop(a, Fraction(0)) + 1
                    b = mkpoly({tuple(sorted(d.items(), key=lambda x: x[0].id)): c})
                    if e == 1: b = pmul(b, a.args[0])
                    elif e != 0: b = pmul(b, mkpoly({((a, e),): Fraction(1)}))
                    q = padd(q, b)
                r = sign(q, P, depth + 1)
                if r is not None: return r
    return None
def decide(d, P, memo=None):
    """gates decided by the signs of their polynomials"""
    memo = {} if memo is None else memo
    if d.var is None: return d
    r = memo.get(d.id)
    if r is None:
        a = d.var; v = None
        if a.kind in ('lt0', 'le0', 'eq0'):
            s = sign(a.args[0], P)
            if a.kind == 'lt0': v = True if s == '-' else False if s in ('+', '0+', '0') else None
            elif a.kind == 'le0': v = True if s in ('-', '0-', '0') else False if s == '+' else None
            else: v = True if s == '0' else False if s in ('+', '-') else None
        if v is True: r = decide(d.hi, P, memo)
        elif v is False: r = decide(d.lo, P, memo)
        else: r = ite(bvar(a), decide(d.hi, P, memo), decide(d.lo, P, memo))
        memo[d.id] = r
    return r
def only(p): return next(iter(p.atoms()))

def response(ctx, m):
    f = m.fn('calc_aet'); I = m.interp(log=('abort', 'exit', 'throw', 'assert')); RL = 'response'
    if len(f.params) != 9: raise AnalysisError('signature of calc_aet')
    st = State({}, T); types, soils, head = (Ptr(Obj('heap', x, None)) for x in ('types', 'soils', 'front'))
    lay, soil = sym('layer'), sym('soil')
    I.store(st, leaf(m.lv(head, 'wetting_front', 'psi_cm')), leaf(PSI)); I.store(st, leaf(m.lv(head, 'wetting_front', 'layer_num')), leaf(lay))
    I.store(st, leaf(Ptr(types.root, pscale(lay, 4))), leaf(soil))
    sp = Ptr(soils.root, pscale(soil, m.m.struct('soil_properties_').size))
    for k, v in (('theta_e', E), ('theta_r', R), ('vg_alpha_per_cm', A), ('vg_m', M), ('vg_n', N)): I.store(st, leaf(m.lv(sp, 'soil_properties_', k)), leaf(v))
    v, s = I.call_function(f, [leaf(PET), leaf(DT), leaf(WP), leaf(FC), leaf(types), leaf(sym('thresh')), leaf(sym('expon')), leaf(head), leaf(soils)], st); m.use(I)
    ctx.need(s is not None, 'calc_aet returns')
    P = {only(x): '+' for x in (PET, DT, WP, FC, A, M, N, R, D, PSI)}
    W = m.where(f)
    half = num(Fraction(1, 2))
    se50 = pmul(half, padd(c14.se_h(FC), c14.se_h(WP)))
    h50 = c14.h_se(se50)
    want = pdiv(pmul(PET, DT), padd(ONE, ppow(pdiv(PSI, h50), num(3))))
    dry = lambda a: ZERO if a is only(PSI) else None
    for d, w, pc, what in ((decide(v, P), want, s.pc, ''), (decide(util.substdd(v, dry), P), pmul(PET, DT), util.substdd(s.pc, dry), ' at zero head')):
        bad = next(((ls, l) for ls, l in util.nonzero_paths(util.difdd(d, leaf(w)), decide(pc, P))), None)
        ctx.judge(bad is None, RL, W, bad and 'the demand%s differs from PET*dt/(1+(psi/psi50)^3) by %s%s' % (what, util.short(bad[1], 200), ' when ' + util.showlits(bad[0]) if bad[0] else ''), (v,), RL, 'curve' + what)
        for ls, l in util.nonzero_paths(d, decide(pc, P), zero=lambda l: False):
            if not isinstance(l, Poly): ctx.judge(False, RL, W, 'the demand is %s' % util.short(l), (v,), RL); continue
            lo, hi = sign(l, P), sign(psub(pmul(PET, DT), l), P)
            if lo in ('+', '0+', '0'): ctx.ok('demand is not negative')
            elif lo in ('-', '0-'): ctx.judge(False, RL, W, 'the demand is negative: %s' % util.short(l, 200), (v,), RL)
            if hi in ('+', '0+', '0'): ctx.ok('demand does not exceed PET*dt')
            elif hi in ('-',): ctx.judge(False, RL, W, 'the demand exceeds PET*dt: %s' % util.short(l, 200), (v,), RL)
            q = pdiv(l, pmul(PET, DT))
            if any(a in (only(PET), only(DT)) for a in util.atoms_of(q)): ctx.judge(False, RL, W, 'the stress factor depends on the demand: %s' % util.short(q, 200), (v,), RL)
    # no potential demand: zero
    z = decide(util.substdd(v, lambda a: ZERO if a is only(PET) else None), P)
    ctx.judge(all(isinstance(l, Poly) and iszero(l) for l in leaves(z)), RL, W, 'without potential demand the demand is %s' % util.short(z, 100), (v,), RL, 'no PET')

def update(ctx, m, ad):
    u = upd.run(m, adaptive=ad, calib=0, sft=0, invalid=0); sub = upd.Sub(u); I = u.I; RL = 'update'
    S = u.S; name = lambda e: base(m.m.funcs[e.data[0]].dem)
    calls = [e for e in I.events if e.kind == 'cut' and name(e) == 'calc_aet']
    moves = [e for e in I.events if e.kind == 'cut' and name(e) == 'lgar_move_wetting_fronts' and sub.key in e.loops]
    ctx.need(calls and moves, 'calls of calc_aet and of the mover')
    rate = apply1(lambda x: pscale(x, Fraction(1, 10)), sub.rate('PET_mm_per_h'))
    none = apply1(lambda x: cmp_lt(x, False) if isinstance(x, Poly) else F, rate)
    for e in calls:
        W = m.loc(e.inst); a = e.data[1]
        if sub.key not in e.loops: ctx.judge(False, RL, W, 'the demand is not computed in every sub-step', (), RL); continue
        exp = [('rate', a[0], rate), ('length', a[1], sub.step_length()),
               ('wilting point', a[2], sub.at(e.mem, m.lv(S, upd.STATE, PB + 'wilting_point_psi_cm'))), ('field capacity', a[3], sub.at(e.mem, m.lv(S, upd.STATE, PB + 'field_capacity_psi_cm')))]
        for what, got, w in exp:
            r = sub.same(got, w, band(e.pc, bnot(none)))
            ctx.judge(r is None, RL, W, r and 'the demand is computed with another %s: difference %s' % (what, util.short(r[1], 120)), (got, w), RL, what)
        for what, got, fld in (('soil types', a[4], PB + 'layer_soil_type'), ('column', a[7], 'head'), ('soils', a[8], 'soil_properties')):
            w = sub.at(e.mem, m.lv(S, upd.STATE, fld), 'ptr')
            ctx.judge(got is w, RL, W, 'the demand is computed with another %s: %s' % (what, util.short(got, 100)), (got,), RL, what)
    isres = lambda x: x.kind == 'res' and any(x.args[0] is e.data[2] for e in calls)
    for k, e in enumerate(moves):
        W = m.loc(e.inst); found = None
        prior = F
        for x in moves[:k]: prior = bor(prior, x.pc)
        care = band(e.pc, bnot(prior))
        for a in e.data[1]:
            if a.var is not None or not isinstance(a.leaf, Ptr) or not isinstance(a.leaf.root, Obj) or a.leaf.root.kind != 'alloca': continue
            v = sub.at(e.mem, a.leaf)
            if any(isres(x) for l in util.thawed(v) for x in l.atoms()): found = v
        if found is None: raise AnalysisError('demand passed to the mover')
        bad = None
        for ls, l in util.nonzero_paths(found, band(care, none)):
            c = [x for x in calls if isinstance(l, Poly) and l is patom(atom('res', x.data[2]))]
            if c and all(isinstance(q, Poly) and util.forcedzero(l2, q) for l2, q in util.nonzero_paths(c[0].data[1][0], none, ls)): continue     # called with rate zero
            bad = (ls, l); break
        ctx.judge(bad is None, RL, W, bad and 'without potential demand the fronts are moved with demand %s' % util.short(bad[1], 120), (found,), RL, 'no PET')
        bad = None
        for ls, l in util.nonzero_paths(found, band(care, bnot(none)), zero=lambda l: isinstance(l, Poly) and len(l.t) == 1 and any(len(mm) == 1 and mm[0][1] == 1 and isres(mm[0][0]) and c == 1 for mm, c in l.t.items())): bad = (ls, l); break
        ctx.judge(bad is None, RL, W, bad and 'the fronts are moved with demand %s instead of the computed one when %s' % (util.short(bad[1], 120), util.showlits(bad[0])), (found,), RL, 'passed on')
