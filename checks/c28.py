from fractions import Fraction
from hyd import *
import hyd
from c15 import demand

EXPLAIN = ('The velocity of every front, the infiltration capacity, the dry depth, the content of a new front at the surface and the choice of the front that takes up infiltration are extracted as gated expressions for every arrangement of up to the bound many fronts over the layers, all depths, moistures, soils, freeze factors and forcings being unknowns, '
           'and subtracted from the published equations: the difference must vanish on every path.')
ASSUME = ['real-number arithmetic', 'arrangements of up to 4 fronts over up to 3 layers (thorough: 5)', 'moisture decreases downwards across a front inside a layer (otherwise the model stops), conductivity not negative, dry depth and time step positive',
          'the limit of the capacity by evapotranspiration of an entirely saturated column is not judged: no storage is left there', 'the hydraulic relations and the capillary drive are C14']
def check(ctx):
    ctx.rule('velocity, layer 1: (Ksat (G + h) / z + K) / (theta - theta below); deeper: (z / sum(thickness / K) + Ksat (G + h) / z) / (theta - theta below); 0 at the bottom of a layer; exactly zero becomes 1e-9, at most 1e4 cm/h')
    ctx.rule('infiltration = min(water available, capacity * dt); capacity, layer 1: Ksat (1 + (G + h) / z), deeper: z / sum(thickness / Ksat) + (G + h) Ksat / z, at most (free storage) / dt')
    ctx.rule('dry depth = (tau + sqrt(tau^2 + 4 tau G)) / 2 with tau = dt Ksat / (theta_e - theta), at most the first layer; the new front holds min(water, dry depth * (theta_e - theta))')
    ctx.rule('the front taking up infiltration is the uppermost one above a front in its own layer, else the deepest')
    m = ctx.mod('STANDALONE'); hi = 5 if ctx.tier == 'thorough' else 4
    for lay in shapes(1, hi):
        ctx.guard('velocity', velocity, ctx, m, lay)
        ctx.guard('dry depth', dry, ctx, m, lay)
        ctx.guard('new front', new, ctx, m, lay)
        ctx.guard('demand front', dem, ctx, m, lay)
        for w in sorted({1, demand(lay)} if len(lay) == lay[-1] else {demand(lay)}): ctx.guard('capacity', capacity, ctx, m, lay, w)

def q(f, S): return sym('%s.%d' % (f, S))
def cum(k): return sym('cum%d' % k) if k else ZERO
def geff(th1, th2, S): return val('calc_Geff', None, th1, th2, q('theta_e', S), q('theta_r', S), q('vg_alpha_per_cm', S), q('vg_n', S), q('vg_m', S), None, None, None, q('bc_lambda', S), q('bc_psib_cm', S))
def ks(L, j): return pmul(q('Ksat_cm_per_h', soilof(L, j)), sym('ff%d' % j))
def kk(r, j): return leaf(sym('depth%d' % j))
def judge(ctx, r, rule, got, exp, care, what):
    exp = exp if isinstance(exp, DD) else leaf(exp)
    if got is exp: ctx.ok(rule, '%s %s' % (r.lay, what)); return
    bad = None
    for ls, l in util.nonzero_paths(util.difdd(got, exp), band(r.s.pc, care)):
        if isinstance(l, Poly) and util.forcedzero(ls, l): continue
        bad = (ls, l); break
    if bad and unresolved(got): ctx.undecided(rule, what); return
    ctx.judge(bad is None, rule, r.m.where(r.f), bad and 'fronts in layers %s: %s is %s instead of %s (when %s)' % (r.lay, what, util.short(got, 200), util.short(exp, 200), util.showlits(bad[0])), (got,), rule, '%s %s' % (r.lay, what))
def z(r, k): return r.depth[r.lay[k]].leaf if bottom(r.lay, k) else sym('depth%d' % (k + 1))
def velocity(ctx, m, lay):
    r = hyd.dzdt(m, lay); L = r.L; n = len(lay); ctx.need(r.s is not None, 'does not return'); care = T
    for k in range(n - 1):
        if not bottom(lay, k): care = band(care, band(cmp_lt(psub(sym('theta%d' % (k + 2)), sym('theta%d' % (k + 1)))), bnot(cmp_lt(sym('K%d' % (k + 1))))))
    for k in range(n):
        got = get(r, r.s, r.nodes[k], 'dzdt_cm_per_h'); l = lay[k]; S = soilof(L, l); what = 'the velocity of front %d' % (k + 1)
        if k == n - 1:
            ctx.judge(got is leaf(sym('dzdt%d' % n)) or got is leaf(ZERO), 'velocity', m.where(r.f), 'fronts in layers %s: the deepest front gets the velocity %s' % (lay, util.short(got)), (got,), 'velocity'); continue
        if bottom(lay, k): judge(ctx, r, 'velocity', got, ZERO, care, what); continue
        th, tb, d = sym('theta%d' % (k + 1)), sym('theta%d' % (k + 2)), z(r, k); suck = pdiv(pmul(ks(L, l), padd(geff(tb, th, S), sym('hp'))), d)
        if l == 1: flux = padd(suck, sym('K%d' % (k + 1)))
        else:
            den = pdiv(psub(d, cum(l - 1)), sym('K%d' % (k + 1)))
            for j in range(1, l):
                s = soilof(L, j); th_j = val('calc_theta_from_h', sym('psi%d' % (k + 1)), q('vg_alpha_per_cm', s), q('vg_m', s), q('vg_n', s), q('theta_e', s), q('theta_r', s))
                den = padd(den, pdiv(psub(cum(j), cum(j - 1)), val('calc_K_from_Se', val('calc_Se_from_theta', th_j, q('theta_e', s), q('theta_r', s)), ks(L, j), q('vg_m', s))))
            flux = padd(pdiv(d, den), suck)
        v = pdiv(flux, psub(th, tb))
        judge(ctx, r, 'velocity', got, ite(cmp_eq(v), leaf(num(Fraction(1, 10**9))), ite(cmp_lt(psub(num(10000), v)), leaf(num(10000)), leaf(v))), care, what)
def dry(ctx, m, lay):
    r = hyd.drydepth(m, lay); L = r.L; ctx.need(r.s is not None, 'does not return'); S = soilof(L, 1); th, te = sym('theta1'), q('theta_e', S)
    tau = pdiv(pmul(sym('dt'), ks(L, 1)), psub(te, th)); G = geff(th, te, S)
    d = pscale(padd(tau, ppow(padd(pmul(tau, tau), pscale(pmul(tau, G), 4)), num(Fraction(1, 2)))), Fraction(1, 2)); c = cum(1)
    judge(ctx, r, 'dry depth', r.ret, ite(cmp_lt(psub(d, c)), leaf(d), leaf(c)), cmp_lt(psub(th, te)), 'the dry depth')
    judge(ctx, r, 'dry depth', r.I.load(r.s, leaf(r.delta), 'double'), psub(te, th), T, 'the moisture deficit')
def new(ctx, m, lay):
    r = hyd.surficial(m, lay); L = r.L; ctx.need(r.s is not None, 'does not return'); S = soilof(L, 1); te, dr, pond = q('theta_e', S), sym('dry'), sym('pond'); th = sym('theta1')
    room = pmul(dr, psub(te, th)); care = band(cmp_lt(pneg(dr)), band(cmp_lt(psub(th, te)), cmp_lt(pneg(pond)))); all_ = cmp_lt(psub(pond, room))
    # dry > 0: pond < dry (te - th)  <=>  th + pond / dry < te
    care = band(care, ite(all_, cmp_lt(psub(padd(th, pdiv(pond, dr)), te)), bnot(cmp_lt(psub(padd(th, pdiv(pond, dr)), te)))))
    h = headof(r, r.s)
    def get(r, s, h, f): return apply1(lambda p: hyd.get(r, s, p, f) if isinstance(p, Ptr) else leaf(sym('nowhere')), h)
    p = h
    t = ite(all_, leaf(padd(th, pdiv(pond, dr))), leaf(te)); vin = ite(all_, leaf(pond), leaf(room))
    judge(ctx, r, 'new front', get(r, r.s, p, 'depth_cm'), dr, care, 'the depth of the new front')
    judge(ctx, r, 'new front', get(r, r.s, p, 'theta'), t, care, 'the moisture of the new front')
    judge(ctx, r, 'new front', r.I.load(r.s, leaf(r.vin), 'double'), vin, care, 'the infiltration')
    judge(ctx, r, 'new front', r.I.load(r.s, leaf(r.pond), 'double'), util.difdd(leaf(pond), vin), care, 'the water left on the surface')
    for f, v in (('layer_num', 1), ('front_num', 1), ('to_bottom', 0), ('dzdt_cm_per_h', 0)):
        g = get(r, r.s, p, f); ctx.judge(g is leaf(num(v)), 'new front', m.where(r.f), 'the new front has %s = %s instead of %d' % (f, util.short(g), v), (g,), 'new front')
    th = get(r, r.s, p, 'theta'); se = dd('calc_Se_from_theta', th, te, q('theta_r', S))
    judge(ctx, r, 'new front', get(r, r.s, p, 'psi_cm'), dd('calc_h_from_Se', se, q('vg_alpha_per_cm', S), q('vg_m', S), q('vg_n', S)), care, 'the head of the new front')
    judge(ctx, r, 'new front', get(r, r.s, p, 'K_cm_per_h'), dd('calc_K_from_Se', se, ks(L, 1), q('vg_m', S)), care, 'the conductivity of the new front')
def dem(ctx, m, lay):
    r = hyd.base(m, lay); hyd.go(r, 'wetting_front_free_drainage', [leaf(r.nodes[0])])
    ctx.judge(r.ret is leaf(num(demand(lay))), 'demand front', m.where(r.f), 'fronts in layers %s: the front taking up infiltration is %s instead of %d' % (lay, util.short(r.ret), demand(lay)), (r.ret,), 'demand front', str(lay))
def capacity(ctx, m, lay, w):
    r = hyd.insert(m, lay, w); L = r.L; n = len(lay); ctx.need(r.s is not None, 'does not return'); l = lay[w - 1]; S = soilof(L, l); d = z(r, w - 1); K = ks(L, l)
    def f(hp):
        G = ZERO if n == L else geff(sym('theta%d' % (w + 1)), q('theta_e', S), S); g = padd(G, hp)
        if l == 1: return pmul(K, padd(ONE, pdiv(g, d)))
        den = pdiv(psub(d, cum(l - 1)), K)
        for j in range(1, l): den = padd(den, pdiv(psub(cum(j), cum(j - 1)), ks(L, j)))
        return padd(pdiv(d, den), pdiv(pmul(g, K), d))
    room = ZERO
    for j in range(1, L + 1): room = padd(room, pmul(q('theta_e', soilof(L, j)), psub(cum(j), cum(j - 1))))
    room = psub(room, sym('mass')); pond, dt = sym('pond'), sym('dt'); hp = psub(pond, pmul(sym('rain'), dt))
    def lim(x):
        c = ite(cmp_lt(psub(pdiv(room, dt), x)), leaf(room), leaf(pmul(x, dt)))       # capacity * dt
        return apply1(lambda c: ite(cmp_lt(psub(pond, c)), leaf(pond), leaf(c)), c)
    exp = ite(cmp_lt(pneg(hp)), lim(f(hp)), lim(f(ZERO)))
    care = cmp_lt(pneg(dt))
    for x in (f(hp), f(ZERO)):        # the same comparisons as rates and as amounts
        a, b = cmp_lt(psub(pdiv(room, dt), x)), cmp_lt(psub(room, pmul(x, dt))); care = band(care, ite(a, b, bnot(b)))
    if n == L: care = band(care, band(bnot(cmp_eq(psub(sym('theta%d' % w), q('theta_e', S)))), bnot(cmp_eq(psub(sym('theta%d' % w), q('theta_e', soilof(L, 1)))))))
    judge(ctx, r, 'capacity', r.I.load(r.s, leaf(r.vin), 'double'), exp, care, 'the infiltration into front %d' % w)
