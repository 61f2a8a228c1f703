from hyd import *
import hyd, itertools
from c21 import possible
from c11 import Quiet

EXPLAIN = ('Every function that evaluates a hydraulic relation for a front or layer is analysed on every arrangement of up to the bound many fronts over the layers, with a soil numbering that differs from the layer numbering; each soil parameter, freeze factor and moisture carries its origin. '
           'At every evaluation all parameters must be those of one soil in their roles, the moisture or saturation evaluated must be of that soil, and the conductivity must be the saturated one of that soil times the freeze factor of a layer of that soil; what is stored in a front must come from the soil of the layer the front is in. '
           'Where movement ends, head and conductivity of a front are those of its moisture; where a front leaves the column, those of the deepest front are.')
ASSUME = ['arrangements of up to 4 fronts over up to 3 layers (thorough: 5)', 'layers numbered 1..n from the surface, soil numbers distinct per layer', 'a conductivity left over from an earlier evaluation is not judged (it is refreshed where movement ends for heads above 1 cm)',
          'the capillary drive does not depend on the saturated conductivity it is given (C14)']
R1, R2, R3 = 'one soil', 'freeze factor', 'soil of the layer'
PURE = {'theta_e', 'theta_r', 'vg_alpha_per_cm', 'vg_m', 'vg_n', 'bc_lambda', 'bc_psib_cm'}

def check(ctx):
    ctx.rule('every evaluation: all soil parameters are those of one soil, each in its role; moisture and saturation arguments are of that soil')
    ctx.rule('every conductivity: saturated conductivity of that soil times the freeze factor of its layer, once')
    ctx.rule('moisture, and newly computed conductivity, stored in a front are of the soil (and freeze factor) of its layer')
    ctx.rule('after movement: head and conductivity of every front with a head above 1 cm, except the deepest, are those of its moisture; after a front left the column, those of the deepest front are')
    m = ctx.mod('STANDALONE'); hi = 5 if ctx.tier == 'thorough' else 4
    c13.POST = lambda r: after(ctx, r)
    orig = c13.setup
    def armed(m, lay, cuts=()):
        r = orig(m, lay, cuts); g = m.fn('calc_theta_from_h'); see = watch(ctx, m, lay); arm(m, r.I, see)
        # moisture below the saturated moisture it was computed with
        def th(I, inst, args, st, env):
            see('calc_theta_from_h', inst, args, I.fullpc(st.pc, I.callstack))
            v = dd('calc_theta_from_h', *args)
            for a, b in itertools.product(leaves(v), leaves(args[4])):
                if isinstance(a, Poly) and isinstance(b, Poly) and b in [x for x in next(iter(a.atoms())).args if isinstance(x, Poly)]: I.assume = band(I.assume, cmp_lt(psub(a, b)))
            return v
        r.I.hooks[g.name] = th
        return r
    c13.setup = armed
    try:
        q = Quiet(ctx)
        for lay in shapes(2, hi): ctx.guard('merge', c13.merge, q, m, lay)
        for lay in shapes(2, hi): ctx.guard('layer crossing', c13.crosslayer, q, m, lay)
        for lay in shapes(2, hi): ctx.guard('domain crossing', c13.crossdomain, q, m, lay)
        for lay in shapes(2, hi): ctx.guard('drier front', c13.dry, q, m, lay)
    finally: c13.POST = None; c13.setup = orig
    for L in range(1, 4): ctx.guard('initial column', one, ctx, m, list(range(1, L + 1)), lambda s: hyd.initial(m, L, s))
    for lay in shapes(1, hi):
        ctx.guard('velocity', one, ctx, m, lay, lambda s: hyd.dzdt(m, lay, s))
        ctx.guard('dry depth', one, ctx, m, lay, lambda s: hyd.drydepth(m, lay, s))
        ctx.guard('evapotranspiration', one, ctx, m, lay, lambda s: hyd.aet(m, lay, s))
        ctx.guard('infiltration', one, ctx, m, lay, lambda s: hyd.insert(m, lay, demand(lay), s))
        ctx.guard('surface front', one, ctx, m, lay, lambda s: hyd.surficial(m, lay, s), [1])
        ctx.guard('movement', moved, ctx, m, lay)
        ctx.guard('coherent state', coherent, ctx, m, lay, demand(lay))
    for k in range(1, 4): ctx.guard('moisture search', search, ctx, m, list(range(1, 4)), k)

def demand(lay):
    k = 0
    while k + 1 < len(lay) and lay[k] != lay[k + 1]: k += 1
    return k + 1
def watch(ctx, m, lay):
    """told about every evaluation of a relation"""
    L = lay[-1]
    def see(name, inst, args, pc):
        sg = SIG[name]; W = m.loc(inst)
        idx = [i for i, r in enumerate(sg) if r not in ('h', 'closed', 'nint', 'h_min_cm', 'Ksat')]
        def verdict(*ls):
            v = dict(zip(idx, ls)); S = None
            for i, l in v.items():
                if sg[i] not in PURE: continue
                q = origin(l)
                if q is None:
                    if sg[i] == 'vg_m' and isinstance(l, Poly):
                        ss = soils_of(l, lay, L); s = next(iter(ss)) if len(ss) == 1 else None
                        if s is not None and l is psub(ONE, ppow(sym('vg_n.%d' % s), num(-1))): q = ('vg_m', s)
                    if q is None: return leaf(Note('%s is given %s as %s' % (name, util.short(l, 80), sg[i])))
                if q[0] != sg[i]: return leaf(Note('%s is given %s of soil %d as %s' % (name, q[0], q[1], sg[i])))
                if S is not None and q[1] != S: return leaf(Note('%s is given parameters of soil %d and of soil %d' % (name, S, q[1])))
                S = q[1]
            if sg.count('Ksat_cm_per_h'):
                k = v[sg.index('Ksat_cm_per_h')]
                if not any(k is pmul(sym('Ksat_cm_per_h.%d' % S), sym('ff%d' % j)) for j in range(1, L + 1) if soilof(L, j) == S):
                    return leaf(Note('%s is given %s as saturated conductivity of soil %d (layer %s)' % (name, util.short(k, 80), S, [j for j in range(1, L + 1) if soilof(L, j) == S])))
            for i, l in v.items():
                if sg[i] in ('theta', 'Se'):
                    o = soils_of(l, lay, L)
                    if not o <= {S}: return leaf(Note('%s is evaluated with soil %d for the %s of soil %s' % (name, S, {'theta': 'moisture', 'Se': 'saturation'}[sg[i]], sorted(o))))
            return leaf(None)
        d = applyn(verdict, [args[i] for i in idx])
        bad = False
        for cond, x in (paths(d) if d.var is not None else [((), d.leaf)]):
            if x is None: continue
            c = pc
            for a, b in cond: c = band(c, bvar(a) if b else bnot(bvar(a)))
            if possible(c) is None: continue
            bad = True
            if unresolved(*[args[i] for i in idx]): ctx.undecided(R1, '%s: %s' % (W, x.s)); continue
            ctx.judge(False, R2 if 'saturated conductivity' in x.s else R1, W, 'fronts in layers %s: %s' % (lay, x.s), tuple(args), R1)
        if not bad: ctx.ok(R1, '%s at %s' % (name, W))
    return see
class Note:
    def __init__(s, t): s.s = t
def origin(l):
    if not isinstance(l, Poly) or len(l.t) != 1: return None
    a = next(iter(l.atoms()), None)
    if a is None or a.kind != 'sym' or l is not patom(a): return None
    q = re.match(r'^(.*)\.(\d+)$', a.args[0])
    return (q.group(1), int(q.group(2))) if q else None
def after(ctx, r):
    """what the fronts in the list hold"""
    if r.s is None: return
    m, I, lay = r.m, r.I, r.lay; L = r.L; W = m.where(r.f); seen = set()
    pc0 = band(r.s.pc, I.assume)
    def visit(d, c, depth):
        for cond, p in (paths(d) if d.var is not None else [((), d.leaf)]):
            x = c
            for a, b in cond: x = band(x, bvar(a) if b else bnot(bvar(a)))
            if not isinstance(p, Ptr) or p.root is None or possible(x) is None: continue
            if depth > 12 or not isinstance(p.root, Obj): raise AnalysisError('list')
            front(p, x); visit(get(r, r.s, p, 'next', 'ptr'), x, depth + 1)
    def front(p, c):
        ln = get(r, r.s, p, 'layer_num'); th = get(r, r.s, p, 'theta'); K = get(r, r.s, p, 'K_cm_per_h'); ok = True
        def look(l, t, k):
            if not isinstance(l, Poly) or l.const() is None or not 1 <= l.const() <= L: return leaf(None)
            j = int(l.const()); S = soilof(L, j)
            o = soils_of(t, lay, L)
            if not o <= {S}: return leaf(Note('a front in layer %d (soil %d) gets the moisture %s of soil %s' % (j, S, util.short(t, 80), sorted(o))))
            if isinstance(k, Poly):
                for a in k.atoms():
                    if a.kind == 'fn' and a.args[0] == PRE + 'calc_K_from_Se' and a.args[2] is not pmul(sym('Ksat_cm_per_h.%d' % S), sym('ff%d' % j)):
                        return leaf(Note('a front in layer %d (soil %d) gets a conductivity computed from %s' % (j, S, util.short(a.args[2], 60))))
            return leaf(None)
        d = applyn(look, [ln, th, K])
        for cond, x in (paths(d) if d.var is not None else [((), d.leaf)]):
            if x is None: continue
            y = c
            for a, b in cond: y = band(y, bvar(a) if b else bnot(bvar(a)))
            if possible(y) is None: continue
            ok = False
            if unresolved(th, ln, K): ctx.undecided(R3, '%s: %s' % (W, x.s)); continue
            ctx.judge(False, R3, W, 'fronts in layers %s: %s' % (lay, x.s), (th,), R3)
        if ok: ctx.ok(R3, 'layers %s' % lay)
        if r.f.name.find('lgar_wetting_front_cross_domain_boundary') >= 0: deepest(p, c, ln, th, K)
    def deepest(p, c, ln, th, K):
        """the deepest front, when the crossing gave it another moisture"""
        if ln is not leaf(num(L)): return
        c = band(c, apply1(lambda q: T if isinstance(q, Ptr) and q.root is None else F, get(r, r.s, p, 'next', 'ptr')))
        S = soilof(L, L); q = lambda f: sym('%s.%d' % (f, S)); se = dd('calc_Se_from_theta', th, q('theta_e'), q('theta_r'))
        care = band(c, apply1(lambda t: F if t is sym('theta%d' % len(lay)) else T, th))
        for what, got, exp in (('head', get(r, r.s, p, 'psi_cm'), dd('calc_h_from_Se', se, q('vg_alpha_per_cm'), q('vg_m'), q('vg_n'))),
                               ('conductivity', K, dd('calc_K_from_Se', se, pmul(q('Ksat_cm_per_h'), sym('ff%d' % L)), q('vg_m')))):
            d = util.same(got, exp, care)
            ctx.judge(d is None, 'coherent state', W, 'fronts in layers %s, after a front left the column: the %s of the deepest front is %s, not that of its moisture' % (lay, what, util.short(got, 160)), (got, th), 'coherent state', '%s %s' % (lay, what))
    visit(headof(r, r.s), pc0, 0)
def one(ctx, m, lay, f, layers=None):
    r = f(watch(ctx, m, lay))
    ctx.need(r.s is not None, 'does not return')
    after(ctx, r)
def search(ctx, m, lay, k):
    r = hyd.solve(m, lay, k, watch(ctx, m, lay)); L = lay[-1]; W = m.where(r.f); done = set()
    ctx.need(r.s is not None, 'does not return')
    for rec in r.I.loops:
        for p, nx in rec.next.items():
            for l in leaves(nx):
                if not isinstance(l, Poly) or l in done: continue
                done.add(l)
                for j in range(1, k + 1):
                    z = sym('dz%d' % j); a = next(iter(z.atoms()))
                    if a not in l.atoms(): continue
                    c = psub(l, psubst(l, lambda x: ZERO if x is a else None)); o = soils_of(c, lay, L)
                    ctx.judge(o <= {soilof(L, j)}, R3, W, 'moisture search in layer %d: the water of layer %d (soil %d) is computed with soil %s' % (k, j, soilof(L, j), sorted(o)), (l,), R3, 'search')
    o = set().union(*[soils_of(l, lay, L) for l in leaves(r.ret)])
    ctx.judge(o <= {soilof(L, k)}, R3, W, 'moisture search in layer %d (soil %d): the moisture found is of soil %s' % (k, soilof(L, k), sorted(o)), (r.ret,), R3)
def moved(ctx, m, lay):
    n = len(lay); L = lay[-1]
    for wfd in sorted({1, demand(lay)}):
        def on(r, nm, inst, args, st, c):
            if nm != 'lgar_theta_mass_balance': return None
            if len(args) != 10: raise AnalysisError('signature of ' + nm)
            k, s = args[0], args[1]
            ctx.need(k.var is None and s.var is None and k.leaf.const() is not None, 'layer of the moisture search')
            k = int(k.leaf.const()); S = soilof(L, k)
            ctx.judge(s is leaf(num(S)), R3, m.loc(inst), 'fronts in layers %s: the moisture search in layer %d is given soil %s instead of %d' % (lay, k, util.short(s), S), (s,), R3)
            for j in range(1, k + 1):
                v = r.I.load(st, apply1(lambda p: Ptr(p.root, padd(p.off, num(8 * j)), None), args[6]), 'double')
                o = set().union(*[soils_of(l, lay, L) for l in leaves(v)])
                ctx.judge(o <= {soilof(L, j)}, R3, m.loc(inst), 'fronts in layers %s: the moisture search gets the moisture %s for layer %d' % (lay, util.short(v, 80), j), (v,), R3)
            return leaf(sym('found%d.%d' % (c, S)))
        for drop in range(0, lay.count(1)):
            r = hyd.move(m, lay, wfd, watch(ctx, m, lay), on, drop)
            ctx.need(r.s is not None or drop, 'does not return')
            after(ctx, r)
def coherent(ctx, m, lay, wfd):
    """the list as the reorganisation leaves it: same arrangement, unknown contents"""
    L = lay[-1]; n = len(lay); st0 = {}
    def on(r, nm, inst, args, st, c):
        if nm == 'lgar_check_dry_over_wet_wetting_fronts': return F
        if nm == 'lgar_wetting_front_cross_domain_boundary':
            install(m, r.I, st, r.S, r.nodes, layers=lay)
            for k, p in enumerate(r.nodes):
                for fld in ('depth_cm', 'theta', 'psi_cm', 'K_cm_per_h', 'dzdt_cm_per_h'): r.I.store(st, leaf(m.lv(p, WF, fld)), leaf(sym('new%s%d' % (fld.split('_')[0], k + 1))))
            st0['x'] = 1
    r = hyd.move(m, lay, wfd, None, on); W = m.where(r.f)
    ctx.need(r.s is not None and st0, 'movement')
    for k, p in enumerate(r.nodes[:-1]):
        S = soilof(L, lay[k]); q = lambda f: sym('%s.%d' % (f, S)); th = get(r, r.s, p, 'theta')
        se = dd('calc_Se_from_theta', th, q('theta_e'), q('theta_r')); care = band(r.s.pc, cmp_lt(psub(ONE, sym('newpsi%d' % (k + 1)))))
        for what, got, exp in (('head', get(r, r.s, p, 'psi_cm'), dd('calc_h_from_Se', se, q('vg_alpha_per_cm'), q('vg_m'), q('vg_n'))),
                               ('conductivity', get(r, r.s, p, 'K_cm_per_h'), dd('calc_K_from_Se', se, pmul(q('Ksat_cm_per_h'), sym('ff%d' % lay[k])), q('vg_m')))):
            d = util.same(got, exp, care)
            ctx.judge(d is None, 'coherent state', W, 'fronts in layers %s, after movement: the %s of front %d is %s, not that of its moisture' % (lay, what, k + 1, util.short(got, 160)), (got,), 'coherent state', '%s %s' % (lay, what))
