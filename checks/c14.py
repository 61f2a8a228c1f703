from harness import *
import util

EXPLAIN = ('Each relation is evaluated as a gated expression of its arguments, normalised (generalised polynomials with symbolic exponents; quotients, roots and powers have one form), and subtracted from the published relation: the difference must vanish on every combination of conditions compatible with the admissible ranges of the arguments. '
           'The inverse pair is composed and simplified to the identity. The integral form of the capillary drive is decided from the recurrences of its loop: each step adds the trapezoid between two heads with the conductivities of the relations at those heads.')
ASSUME = ['real-number arithmetic', 'arguments in their admissible ranges: alpha > 0, n > 1, 0 < m < 1, theta_r < theta <= theta_e, 0 < Se <= 1, head > 0, Ksat > 0', 'heads below 1e-6 cm may be treated as saturated', 'the accuracy of the quadrature is not part of the claim']

A, M, N, H, SE, R, D, KS, LAM, PB, WP, S, S1, S2 = (sym(x) for x in 'alpha m n h Se theta_r range Ksat lambda psib psi_wp S S1 S2'.split())
# moistures of a soil are theta_r + S * (theta_e - theta_r)
E, TH, T1, T2 = padd(R, D), padd(R, pmul(D, S)), padd(R, pmul(D, S1)), padd(R, pmul(D, S2))
def pos(*ps): return [l for p in ps for l in util.forced(cmp_lt(pneg(p), True))]
def nonneg(*ps): return [l for p in ps for l in util.forced(bnot(cmp_lt(p, True)))]
SOIL = pos(A, M, psub(ONE, M), psub(N, ONE), R, D, KS, LAM, PB)
def inv(p): return ppow(p, num(-1))
def se_h(h): return ppow(padd(ONE, ppow(pmul(A, h), N)), pneg(M))
def th_h(h): return padd(R, pmul(psub(E, R), se_h(h)))
def h_se(s): return pmul(inv(A), ppow(psub(ppow(s, pneg(inv(M))), ONE), inv(N)))
def se_th(t): return pdiv(psub(t, R), psub(E, R))
def k_se(s): return pmul(pmul(KS, ppow(s, num(Fraction(1, 2)))), ppow(psub(ONE, ppow(psub(ONE, ppow(s, inv(M))), M)), num(2)))
SMALL = psub(H, num(Fraction(1, 10**6)))

def call(m, name, args):
    f = m.fn(name); I = m.interp(log=('abort', 'exit', 'throw', 'assert'))
    if len(f.params) != len(args): raise AnalysisError('signature of ' + name)
    v, s = I.call_function(f, [leaf(a) if not isinstance(a, DD) else a for a in args], State({}, T)); m.use(I)
    if s is None: raise AnalysisError(name + ' does not return')
    return f, I, v, s

def check(ctx):
    ctx.rule('relations: extracted expression - published van Genuchten-Mualem expression = 0 on every feasible path')
    ctx.rule('Se(h(Se)) = Se and h(Se(h)) = h after composition')
    ctx.rule('derived parameters: m, wilting-point moisture, Brooks-Corey lambda and bubbling head, minimum drive')
    ctx.rule('capillary drive: closed form as published (limit value where it is undefined), or the sum of trapezoids of K over head, divided by Ksat')
    m = ctx.mod('STANDALONE')
    one(ctx, m, 'calc_theta_from_h', [H, A, M, N, E, R], th_h(H), SOIL + pos(H))
    one(ctx, m, 'calc_Se_from_h', [H, A, M, N], se_h(H), SOIL + pos(SMALL))
    one(ctx, m, 'calc_h_from_Se', [SE, A, M, N], h_se(SE), SOIL + pos(SE, psub(ONE, SE)))
    one(ctx, m, 'calc_Se_from_theta', [TH, E, R], se_th(TH), SOIL + pos(S) + nonneg(psub(ONE, S)))
    one(ctx, m, 'calc_K_from_Se', [SE, KS, M], k_se(SE), SOIL + pos(SE, psub(ONE, SE)))
    ctx.guard('small heads', small, ctx, m)
    ctx.guard('inverse', inverse, ctx, m)
    ctx.guard('derived parameters', derived, ctx, m)
    ctx.guard('closed form', closed, ctx, m)
    ctx.guard('integral', integral, ctx, m)

def one(ctx, m, name, args, want, facts):
    ctx.guard(name, one_, ctx, m, name, args, want, facts)
def zero(ctx, m, f, rule, what, d, care, facts):
    """the gated number d is zero on every feasible path"""
    bad = None
    for ls, l in util.nonzero_paths(d, care, tuple(facts)):
        if isinstance(l, Poly) and util.forcedzero(ls, l): continue
        bad = (ls, l); break
    ctx.judge(bad is None, rule, m.where(f), bad and '%s differs from the published relation by %s when %s' % (what, util.short(bad[1], 160), util.showlits(bad[0])), (d,), rule, what)
def one_(ctx, m, name, args, want, facts):
    f, I, v, s = call(m, name, args)
    zero(ctx, m, f, 'relation', name, util.difdd(v, leaf(want)), s.pc, facts)
    for e in I.events:
        bad = next((ls for ls, l in util.nonzero_paths(I.ap1(lambda b: ONE if b else ZERO, e.pc), T, tuple(facts))), None) if e.kind in ('abort', 'exit', 'throw', 'assert') else None
        ctx.judge(bad is None, 'relation', m.loc(e.inst), '%s stops on admissible arguments' % name, (e.pc,), 'relation')
def small(ctx, m):
    f, I, v, s = call(m, 'calc_Se_from_h', [H, A, M, N])
    d = I.ap1(lambda x: pmul(psub(x, ONE), psub(x, se_h(H))) if isinstance(x, Poly) else fn('bad', x), v)
    zero(ctx, m, f, 'relation', 'calc_Se_from_h near saturation', d, s.pc, SOIL + nonneg(H))
def inverse(ctx, m):
    f, I, v, s = call(m, 'calc_h_from_Se', [SE, A, M, N])
    g, J, w, t = call(m, 'calc_Se_from_h', [v, A, M, N])
    if v.var is not None: raise AnalysisError('gated head')
    big = util.forced(bnot(cmp_lt(psub(v.leaf, num(Fraction(1, 10**6))), True)))
    zero(ctx, m, g, 'inverse', 'Se(h(Se))', util.difdd(w, leaf(SE)), T, SOIL + pos(SE, psub(ONE, SE), v.leaf) + big)
    f, I, v, s = call(m, 'calc_Se_from_h', [H, A, M, N])
    bad = None
    for ls, l in util.nonzero_paths(v, s.pc, tuple(SOIL + pos(SMALL)), zero=lambda l: False):
        g, J, w, t = call(m, 'calc_h_from_Se', [l, A, M, N])
        zero(ctx, m, g, 'inverse', 'h(Se(h))', util.difdd(w, leaf(H)), T, list(ls))
def derived(ctx, m):
    f = m.fn('lgar_derived_soil_parameters'); S = 'soil_properties_'; I = m.interp(log=('abort', 'assert'))
    p = Ptr(atom('param', 'soil')); st = State({}, T)
    for fld, v in (('vg_n', N), ('vg_alpha_per_cm', A), ('theta_e', E), ('theta_r', R)): I.store(st, leaf(m.lv(p, S, fld)), leaf(v))
    args = [leaf(p) if q.ty.k == 'ptr' else leaf(WP) for q in f.params]
    r, s = I.call_function(f, args, st); m.use(I)
    mm = psub(ONE, inv(N)); P = padd(ONE, pmul(num(2), inv(mm)))
    lam = pmul(num(2), inv(psub(P, num(3))))
    c = lambda x: num(Fraction(x))
    psib = pdiv(pmul(padd(P, num(3)), padd(padd(c('147.8'), pmul(c('8.1'), P)), pmul(c('0.092'), pmul(P, P)))),
                pmul(pmul(pmul(num(2), A), pmul(P, psub(P, ONE))), padd(padd(c('55.6'), pmul(c('7.4'), P)), pmul(P, P))))
    t = pmul(num(3), inv(lam))
    want = {'vg_m': mm, 'theta_wp': padd(R, pmul(psub(E, R), ppow(padd(ONE, ppow(pmul(A, WP), N)), pneg(mm)))), 'bc_lambda': lam, 'bc_psib_cm': psib, 'h_min_cm': pdiv(pmul(psib, padd(num(2), t)), padd(ONE, t)),
            'vg_n': N, 'vg_alpha_per_cm': A, 'theta_e': E, 'theta_r': R}
    facts = SOIL + pos(WP)
    for fld, e in want.items():
        v = I.load(s, leaf(m.lv(p, S, fld)), 'double')
        zero(ctx, m, f, 'derived parameter', fld, util.difdd(v, leaf(e)), s.pc, facts)
def geff(m, closedform):
    f = m.fn('calc_Geff')
    vals = [leaf(T1), leaf(T2), leaf(E), leaf(R), leaf(A), leaf(N), leaf(M), leaf(sym('hmin')), leaf(KS), leaf(sym('nint')), leaf(LAM), leaf(PB)]
    return call(m, 'calc_Geff', [closedform] + [x.leaf for x in vals])
def closed(ctx, m):
    f, I, v, s = geff(m, T)
    ex = padd(num(3), inv(LAM)); hc = pmul(PB, pdiv(padd(num(2), pmul(num(3), LAM)), padd(ONE, pmul(num(3), LAM))))
    a, b = ppow(se_th(T1), ex), ppow(se_th(T2), ex)
    want = pdiv(pmul(hc, psub(b, a)), psub(ONE, a))
    odd = T
    for x in v.sup | s.pc.sup:
        if any(isinstance(y, Atom) and y.kind == 'fn' and y.args[0] in ('isinf', 'isnan', '__isinf', '__isnan', 'isfinite') for y in util.atoms_of(x)) or x.kind == 'unord': odd = band(odd, bnot(bvar(x)) if x.kind != 'eq0' else bvar(x))
    facts = SOIL + pos(S1, S2) + nonneg(psub(ONE, S1), psub(ONE, S2))
    zero(ctx, m, f, 'closed form', 'capillary drive (closed form)', util.difdd(v, leaf(want)), band(s.pc, odd), facts + pos(psub(ONE, S1), psub(ONE, a)))
    d = I.ap1(lambda x: pmul(psub(x, want), psub(x, hc)) if isinstance(x, Poly) else fn('bad', x), v)
    zero(ctx, m, f, 'closed form', 'capillary drive where the closed form is undefined', d, s.pc, facts)
    for both in (False, True): saturated(ctx, m, f, v, s, hc, both)
def saturated(ctx, m, f, v, s, hc, both):
    """the closed form at a saturated front (below it as well): infinite, or 0/0"""
    one = lambda p: psubst(p, lambda a: ONE if patom(a) is S1 or both and patom(a) is S2 else None)
    def singular(p): return any(a.kind == 'poly' and one(a.args[0]) is ZERO for a in util.atoms_of(leaf(p)))
    d, open_ = v, False
    for x in v.sup:
        y = next((y for y in util.atoms_of(x) if y.kind == 'fn' and y.args[0].strip('_') in ('isinf', 'isnan', 'isfinite')), None)
        if y is not None:
            bad = any(singular(p) for p in y.args[1:] if isinstance(p, Poly)); w = y.args[0].strip('_')
            val_ = (bad and not both) if w == 'isinf' else (bad and both) if w == 'isnan' else not bad
            if x.kind == 'eq0' and x.args[0] is patom(y): val_ = not val_
            elif x is not y: open_ = True; continue
        elif x.kind == 'unord': val_ = both and any(singular(p) for p in x.args if isinstance(p, Poly))
        elif x.kind in ('lt0', 'le0', 'eq0') and not singular(x.args[0]):
            c = one(x.args[0]).const()
            if c is None: open_ = True; continue
            val_ = {'lt0': c < 0, 'le0': c <= 0, 'eq0': c == 0}[x.kind]
        else: open_ = True; continue
        d = util.cofactor(d, x, val_)
    ok = all(l is hc for l in leaves(d)); what = 'capillary drive at a saturated front' + (' above saturated soil' if both else '')
    if not ok and open_: ctx.undecided('closed form', what + ': ' + util.short(d, 120)); return
    ctx.judge(ok, 'closed form', m.where(f), '%s is %s, not the limit value' % (what, util.short(d, 160)), (d,), 'closed form', what)
def integral(ctx, m):
    f, I, v, s = geff(m, F)
    R_ = 'integral'
    facts = SOIL + pos(S1, S2, psub(ONE, S1), psub(ONE, S2), sym('nint'))
    loops = [r for r in I.loops if not r.unrolled]
    ctx.need(len(loops) == 1, 'one integration loop, found %d' % len(loops))
    L = loops[0]; mu = {i: x[0].leaf if isinstance(x, tuple) else x for i, x in L.phis.items()}
    mu = {i: (x.leaf if isinstance(x, DD) else x) for i, x in mu.items()}
    hi, hf = h_se(se_th(T1)), h_se(se_th(T2))
    # the result
    G = [i for i in mu if any(mu[i].atoms() <= l.atoms() for l in leaves(v) if isinstance(l, Poly)) and len(mu[i].atoms()) == 1]
    ctx.need(len(G) == 1, 'the accumulated sum')
    G = G[0]; g = mu[G]
    for l in leaves(v): ctx.judge(isinstance(l, Poly) and (iszero(psub(l, pdiv(g, KS))) or iszero(padd(l, pdiv(g, KS)))), R_, m.where(f), 'the drive is %s instead of the absolute value of the sum divided by Ksat' % util.short(l, 100), (v,), R_, 'result')
    v1 = util.substdd(v, lambda a: ONE if patom(a) is KS else None)
    bad = next(util.nonzero_paths(I.ap1(lambda b: ONE if b else ZERO, cmpneg(I, v1)), s.pc, tuple(facts)), None)
    ctx.judge(bad is None, R_, m.where(f), 'the drive can be negative', (v,), R_, 'sign')
    # the head: compared with the dry end in the loop condition
    Hs = [i for i in mu if i is not G and any(c.kind in ('lt0', 'le0') and mu[i].atoms() <= c.args[0].atoms() for src, dst, e in L.exits for c in e.pc.sup)]
    if not Hs and not any(i is not G and L.next[i] is not leaf(mu[i]) and i in L.next and any(mu[i].atoms() & set(util.atoms_of(c)) for src, dst, e in L.exits for c in e.pc.sup) for i in mu):
        ctx.judge(False, R_, m.where(f), 'the integration never advances: nothing a step changes decides when the loop ends', tuple(e.pc for src, dst, e in L.exits), R_); return
    ctx.need(len(Hs) == 1, 'the head the loop advances')
    Hh = Hs[0]; h = mu[Hh]
    cont = T
    for src, dst, e in L.exits: cont = band(cont, bnot(e.pc))
    bad = next(util.nonzero_paths(I.ap1(lambda b: ONE if b else ZERO, band(cont, bnot(cmp_lt(psub(h, hi), False)))), T, tuple(facts)), None)
    ctx.judge(bad is None, R_, m.where(f), 'the integration continues beyond the head at the moisture ahead of the front', (cont,), R_, 'limit')
    bad = next(util.nonzero_paths(I.ap1(lambda b: ONE if b else ZERO, band(bnot(cont), cmp_lt(psub(h, hi), True))), T, tuple(facts)), None)
    ctx.judge(bad is None, R_, m.where(f), 'the integration stops before the head at the moisture ahead of the front', (cont,), R_, 'limit')
    ent = {i: L.entry[i] for i in mu}
    ctx.judge(ent[G] is leaf(ZERO), R_, m.where(f), 'the sum starts from %s' % util.short(ent[G]), (ent[G],), R_, 'start')
    d = util.difdd(ent[Hh], leaf(hf))
    ls = {l for _, l in util.nonzero_paths(d, T, tuple(facts), zero=lambda l: False)}
    st0 = ls.pop() if len(ls) == 1 else None
    ctx.need(isinstance(st0, Poly), 'first head')
    q = clear_denoms(pdiv(pmul(st0, sym('nint')), psub(hi, hf))).const() if st0.t else Fraction(0)
    if q is None:
        q = next((c for c in (Fraction(1, 100), Fraction(1)) if iszero(psub(pmul(st0, sym('nint')), pmul(num(c), psub(hi, hf))))), None)
    ctx.judge(q is not None and 0 <= q <= 1, R_, m.where(f), 'the first head is not within one step of the head at the moisture behind the front', (d,), R_, 'start')
    kf = k_se(ppow(padd(ONE, ppow(pmul(A, h), N)), pneg(M)))
    fx = facts + pos(psub(h, num(Fraction(1, 10**6)))) + util.forced(cmp_lt(psub(h, hi), True))
    # the conductivity carried over
    Kc = [i for i in mu if i not in (G, Hh) and next((1 for ls, l in util.nonzero_paths(util.difdd(L.next[i], leaf(kf)), T, tuple(fx))), None) is None]
    if Kc:
        ctx.need(len(Kc) == 1, 'the conductivity carried between steps')
        left = mu[Kc[0]]; ke = {l for _, l in util.nonzero_paths(ent[Kc[0]], T, tuple(facts), zero=lambda l: False)}; ctx.need(len(ke) == 1, 'first conductivity'); ke = leaf(ke.pop()); ki, kk = k_se(se_th(T1)), k_se(se_th(T2))
        ctx.judge(ke.var is None and isinstance(ke.leaf, Poly) and (iszero(psub(ke.leaf, ki)) or iszero(psub(ke.leaf, kk))), R_, m.where(f), 'the first conductivity is not that of an end of the interval', (ke,), R_, 'start')
    else:
        Pc = [i for i in mu if i not in (G, Hh) and L.next[i] is leaf(h)]
        if Pc: left = k_se(ppow(padd(ONE, ppow(pmul(A, mu[Pc[0]]), N)), pneg(M)))
        else:
            ctx.judge(False, R_, m.where(f), 'no step hands the conductivity at its head (%s) on to the next one' % util.short(kf, 60), tuple(L.next.values()), R_); return
    area = util.difdd(L.next[G], leaf(g)); width = util.difdd(L.next[Hh], leaf(h))
    want = I.ap1(lambda w: pmul(pmul(padd(left, kf), w), num(Fraction(1, 2))), width)
    zero(ctx, m, f, R_, 'the area added in a step', util.difdd(area, want), T, fx)
def cmpneg(I, v): return I.ap1(lambda x: cmp_lt(x, True) if isinstance(x, Poly) else T, v)
