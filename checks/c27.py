from hyd import *
import hyd, itertools
from fractions import Fraction
from c15 import demand
from c21 import possible
from c13 import water

EXPLAIN = ('The movement of the fronts is analysed on every arrangement of up to the bound many fronts over the layers. The state in which the list is reorganised for the first time gives the moved fronts: depth, moisture and head of each are compared with '
           'the water-conserving ones; the arguments of the moisture search are compared with the water the front held before and with the profile it must fit; the body of the search and of the depth correction are analysed as loops; '
           'flux through the bottom and evapotranspiration reported at the end are compared with the corrections made.')
ASSUME = ['real-number arithmetic', 'arrangements of up to 4 fronts over up to 3 layers (thorough: 5)', 'the copy of the previous state lists the same fronts in the same order', 'whether the searches converge is not judged (C26)',
          'storage, merging, crossing and removal of drier fronts are opaque here (C13)', 'hydraulic relations are opaque (C14)']

def check(ctx):
    ctx.rule('a moved front advances by its velocity times the sub-step (in the top layer at most to the bottom of the column); the lowest front of a layer stays at the layer bottom and takes head and moisture of the front below')
    ctx.rule('top layer: moisture = (water held before relative to the front below, plus infiltration minus evapotranspiration for the demand front) / new depth + moisture of the front below, limited to the range of its soil; a front just created keeps its moisture')
    ctx.rule('deeper: the moisture search is given the water held before over all layers the front spans, the water it holds now, and thickness and moisture below for every layer')
    ctx.rule('afterwards the fronts are merged, cross layer boundaries, are merged again and cross the bottom of the column, in that order, in every movement')
    m = ctx.mod('STANDALONE'); hi = 5 if ctx.tier == 'thorough' else 4
    for lay in shapes(1, hi):
        for wfd in sorted({demand(lay)}): ctx.guard('movement', moved, ctx, m, lay, wfd)
    for k in range(1, 4): ctx.guard('moisture search', search, ctx, m, k)
    for lay in shapes(1, hi):
        for sat in (False, True):
            for drop in (0, 1):
                if drop and (lay.count(1) < 2 or sat and lay.count(1) > 2): continue
                ctx.guard('correction', correction, ctx, m, lay, sat, drop)

def clamp(x, lo, hi):
    """x limited to [lo, hi]"""
    f = lambda a, l, h: ite(cmp_lt(psub(a, l)), leaf(l), ite(cmp_lt(psub(h, a)), leaf(h), leaf(a)))
    return applyn(f, [x if isinstance(x, DD) else leaf(x) for x in (x, lo, hi)])
def thick(j): return psub(sym('cum%d' % j), sym('cum%d' % (j - 1)) if j > 1 else ZERO)
def th(L, j, psi):
    S = soilof(L, j); q = lambda f: sym('%s.%d' % (f, S))
    return dd('calc_theta_from_h', psi, q('vg_alpha_per_cm'), q('vg_m'), q('vg_n'), q('theta_e'), q('theta_r'))
def add(*xs):
    r = leaf(ZERO)
    for x in xs: r = apply2(padd, r, x if isinstance(x, DD) else leaf(x))
    return r
def mul(a, b): return apply2(pmul, a if isinstance(a, DD) else leaf(a), b if isinstance(b, DD) else leaf(b))
def sub(a, b): return apply2(psub, a if isinstance(a, DD) else leaf(a), b if isinstance(b, DD) else leaf(b))

def inline(d, a, v):
    """d with the atom a replaced by the gated number v"""
    memo = {}
    def poly(p): return apply1(lambda y: psubst(p, lambda b: y if b is a else None), v) if a in deepatoms(p) else leaf(p)
    def deepatoms(p): return util.atoms_of(leaf(p))
    def go(d):
        r = memo.get(d.id)
        if r is None:
            if d.var is None: r = poly(d.leaf) if isinstance(d.leaf, Poly) else d
            else:
                h, l, x = go(d.hi), go(d.lo), d.var; c = bvar(x)
                if x.kind in ('lt0', 'le0', 'eq0') and a in deepatoms(x.args[0]): c = apply1(lambda p: cmp_eq(p) if x.kind == 'eq0' else cmp_lt(p, x.kind == 'lt0'), poly(x.args[0]))
                r = ite(c, h, l)
            memo[d.id] = r
        return r
    return go(d)

def naming(r, owner):
    """a gated value stored in a front gets a name of its own"""
    m = r.m; syms = {}
    for S in range(2, r.L + 2): r.I.assume = band(r.I.assume, cmp_lt(psub(sym('theta_r.%d' % S), sym('theta_e.%d' % S))))
    nodes = {p.root for p in r.nodes}; tags = {m.tag(WF, 'theta'), m.tag(WF, 'psi_cm'), m.tag(WF, 'depth_cm')}
    def rewrite(I, st, p, v, inst):
        if p.var is not None or not isinstance(p.leaf, Ptr) or p.leaf.root not in nodes or p.leaf.tag not in tags or v.var is None and not (isinstance(v.leaf, Poly) and len(v.leaf.t) > 1): return v
        key = (id(inst), I.callstack, p.leaf); s = syms.get(key)
        if s is None: s = syms[key] = atom('sym', 'set%d' % len(syms))
        owner[s] = (p.leaf.root, v)
        return leaf(patom(s))
    r.I.rewrite = rewrite

def moved(ctx, m, lay, wfd):
    n = len(lay); L = lay[-1]; what = 'fronts in layers %s' % lay
    sch = {}; first = {}
    top = lambda j: sym('cum%d' % (j - 1)) if j > 1 else ZERO
    olddepth = lambda k: sym('cum%d' % lay[k]) if bottom(lay, k) else sym('olddepth%d' % (k + 1))
    def on(r, nm, inst, args, st, c):
        if nm == 'lgar_theta_mass_balance':
            if len(args) != 10: raise AnalysisError('signature of ' + nm)
            k = args[0]
            ctx.need(k.var is None and k.leaf.const() is not None, 'layer of the moisture search')
            sch.setdefault((inst.idx, I_path(r)), (int(k.leaf.const()), args, st.copy(), inst, sym('found%d' % c)))
            return leaf(sym('found%d' % c))
        if nm == 'lgar_calc_mass_bal': return water(r, st)
        if nm in PHYS and not first: first['st'] = st.copy(); first['inst'] = inst
    def I_path(r): return r.I.callstack
    owner = {}
    pre = lambda r: naming(r, owner)
    r = hyd.move(m, lay, wfd, None, on, 0, pre); W = m.where(r.f); I = r.I
    ctx.need(first, 'reorganisation of the list')
    s1 = first['st']; care = band(s1.pc, I.assume)
    raw = lambda k, f: get(r, s1, r.nodes[k], f)
    def written(d, k):
        # written out in what was stored in the front itself
        root = r.nodes[k].root
        for _ in range(8):
            own = [a for a in util.atoms_of(d) if a in owner and owner[a][0] is root]
            if not own: return d
            for a in own: d = inline(d, a, owner[a][1])
        raise AnalysisError('values of a front')
    g = lambda k, f: written(raw(k, f), k)
    def eq(got, exp, rule, msg, pc=None):
        c = care if pc is None else pc
        d = util.same(got, exp, c)
        ctx.judge(d is None, rule, W, '%s: %s is %s instead of %s' % (what, msg, util.short(got, 160), util.short(exp, 160)), (got,), rule, str(lay))
    used = set(); aet = sym('aet')
    for k in range(n):
        S = soilof(L, lay[k]); q = lambda f: sym('%s.%d' % (f, S)); nm = 'front %d' % (k + 1)
        old = lambda f, j=k: sym('old%s%d' % (f, j + 1))
        moving = padd(sym('depth%d' % (k + 1)) if not bottom(lay, k) else sym('cum%d' % lay[k]), pmul(sym('dzdt%d' % (k + 1)), sym('dt')))
        extra = psub(sym('precip'), aet) if wfd == k + 1 else ZERO
        if k < n - 1 and bottom(lay, k):
            eq(g(k, 'depth_cm'), leaf(sym('cum%d' % lay[k])), 'depth', 'depth of the lowest front of layer %d' % lay[k])
            eq(g(k, 'psi_cm'), raw(k + 1, 'psi_cm'), 'moisture', 'head of the lowest front of layer %d' % lay[k])
            eq(g(k, 'theta'), th(L, lay[k], raw(k + 1, 'psi_cm')), 'moisture', 'moisture of the lowest front of layer %d' % lay[k])
            continue
        if k == n - 1 and n != L:
            for f, v in (('depth_cm', sym('cum%d' % L)), ('theta', sym('theta%d' % n)), ('psi_cm', sym('psi%d' % n))): eq(g(k, f), leaf(v), 'depth' if f == 'depth_cm' else 'moisture', '%s of the deepest front' % f)
            continue
        if lay[k] == 1 and k < n - 1:
            col = sym('cum%d' % L); d1 = ite(cmp_lt(psub(col, moving)), leaf(col), leaf(moving))
            eq(g(k, 'depth_cm'), d1, 'depth', 'depth of ' + nm)
            prior = padd(pmul(olddepth(k), psub(old('theta'), old('theta', k + 1))), extra)
            t = apply2(lambda d, b: padd(pdiv(prior, d), b), g(k, 'depth_cm'), raw(k + 1, 'theta'))
            exp = ite(cmp_eq(sym('dzdt%d' % (k + 1))), leaf(sym('theta%d' % (k + 1))), clamp(t, q('theta_r'), q('theta_e')))      # no velocity yet: just created
            eq(g(k, 'theta'), exp, 'moisture', 'moisture of ' + nm)
            eq(g(k, 'psi_cm'), dd('calc_h_from_Se', dd('calc_Se_from_theta', g(k, 'theta'), q('theta_e'), q('theta_r')), q('vg_alpha_per_cm'), q('vg_m'), q('vg_n')), 'moisture', 'head of ' + nm)
            continue
        # a front found by the moisture search
        eq(g(k, 'depth_cm'), leaf(moving), 'depth', 'depth of ' + nm)
        z = psub(moving, top(lay[k]))
        mine = [x for x in sch.items() if x[1][0] == lay[k] and not any(x[0] == u for u in used)]
        th1 = g(k, 'theta')
        # the search whose result this front got
        mine = [x for x in sch.items() if any(isinstance(l, Poly) and next(iter(x[1][4].atoms())) in l.atoms() or False for l in leaves(th1)) or next(iter(x[1][4].atoms())) in util.atoms_of(th1)]
        if len(mine) != 1:
            ctx.judge(False, 'moisture', W, '%s: the moisture of %s is %s, not the result of a moisture search' % (what, nm, util.short(th1, 160)), (th1,), 'moisture'); continue
        key, (lk, args, st, inst, found) = mine[0]; used.add(key)
        c2 = band(st.pc, I.assume)
        eq(th1, clamp(found, q('theta_r'), q('theta_e')), 'moisture', 'moisture of ' + nm)
        eq(g(k, 'psi_cm'), dd('calc_h_from_Se', dd('calc_Se_from_theta', th1, q('theta_e'), q('theta_r')), q('vg_alpha_per_cm'), q('vg_m'), q('vg_n')), 'moisture', 'head of ' + nm)
        below = k < n - 1; bpsi = raw(k + 1, 'psi_cm') if below else None
        btheta = raw(k + 1, 'theta') if below else leaf(ZERO); obt = old('theta', k + 1) if below else ZERO
        up = range(1, lay[k])
        prior = add(pmul(psub(olddepth(k), top(lay[k])), psub(old('theta'), obt)), extra, *[mul(thick(j), sub(th(L, j, old('psi')), th(L, j, old('psi', k + 1)) if below else ZERO)) for j in up])
        now = add(mul(z, sub(sym('theta%d' % (k + 1)), btheta)), *[mul(thick(j), sub(th(L, j, sym('psi%d' % (k + 1))), th(L, j, bpsi) if below else ZERO)) for j in up])
        W2 = m.loc(inst)
        def eq2(got, exp, msg):
            got = written(got, k); d = util.same(got, exp, c2)
            ctx.judge(d is None, 'search arguments', W2, '%s, moisture search for %s: %s is %s instead of %s' % (what, nm, msg, 'never set' if got is leaf(UNDEF) else util.short(got, 200), util.short(exp, 200)), () if got is leaf(UNDEF) else (got,), 'search arguments', '%s %s' % (lay, msg))
        eq2(args[0], leaf(num(lay[k])), 'the layer')
        eq2(args[2], leaf(sym('psi%d' % (k + 1))), 'the starting head')
        eq2(args[3], now, 'the present water')
        eq2(args[4], prior, 'the water to be held')
        for j in range(1, lay[k] + 1):
            at = lambda a: I.load(st, apply1(lambda p: Ptr(p.root, padd(p.off, num(8 * j)), None), a), 'double')
            eq2(at(args[6]), (th(L, j, bpsi) if below else leaf(ZERO)) if j < lay[k] else btheta, 'the moisture below in layer %d' % j)
            eq2(at(args[7]), leaf(thick(j)) if j < lay[k] else leaf(z), 'the thickness in layer %d' % j)
        a = args[5]
        ctx.judge(a is leaf(r.aet), 'search arguments', W2, '%s: the search adjusts %s instead of the evapotranspiration' % (what, util.short(a)), (a,), 'search arguments')
    ctx.judge(len(used) == len(sch), 'search arguments', W, '%s: %d moisture searches for %d fronts' % (what, len(sch), len(used)), (), 'search arguments')

def neg(p): return ite(cmp_lt(p), leaf(pneg(p)), leaf(p))      # |p|
def absd(d): return apply1(neg, d)
def lits(*conds):
    out = ()
    for c in conds: out += tuple(util.forced(c))
    return out
def within(ls, p, eps, facts=()):
    """the conditions leave |p| <= eps"""
    e = num(eps)
    return all(util.contradict(l2 + tuple(facts) + lits(cmp_lt(psub(e, q)))) for l2 in util.openlits(ls) for q in (p, pneg(p)))
EPS = Fraction(1, 10 ** 7)

def reorganised(ctx, m, r, lay, what, W):
    """after the movement the fronts are merged, cross the layer boundaries, are merged again and cross the bottom of the column"""
    R_ = 'reorganisation'; MG, CL, CD = 'lgar_merge_wetting_fronts', 'lgar_wetting_fronts_cross_layer_boundary', 'lgar_wetting_front_cross_domain_boundary'
    if len(lay) <= lay[-1]: return          # no front of its own above a layer bottom: nothing can be due
    ctx.need(all(m.fn(x, False) is not None for x in (MG, CL, CD)), 'merging and crossing')
    i0 = next(i for i, c in enumerate(r.calls) if c[0] == 'lgar_check_dry_over_wet_wetting_fronts')
    care = band(r.s.pc, r.I.assume)
    at = lambda nm, lo, hi: [i for i, c in enumerate(r.calls) if c[0] == nm and lo < i < hi]
    def must(nm, idx, desc):
        done = F
        for i in idx: done = bor(done, r.calls[i][4])
        skip = band(care, bnot(done))
        bad = None if skip is F else next(iter(util.nonzero_paths(ite(skip, leaf(ONE), leaf(ZERO)))), None)
        if bad is not None and idx and any(a.kind == 'sym' and str(a.args[0]).startswith('new') for x, v in bad[0] for a in util.atoms_of(x)): ctx.undecided(R_, '%s: %s depends on the fronts' % (what, desc)); return False
        ctx.judge(bad is None, R_, m.loc(r.calls[idx[0]][1]) if idx else W, '%s: after the fronts moved, %s%s' % (what, desc + ' is left out', ' when ' + util.showlits(bad[0], 4) if bad and idx and bad[0] else ''), (skip,), R_, desc)
        return bad is None
    n = len(r.calls); dom = at(CD, i0, n); cl = at(CL, i0, dom[-1] if dom else n)
    if not must(CD, dom, 'the crossing of the bottom of the column'): return
    if lay[-1] > 1:
        if not must(CL, cl, 'the crossing of layer boundaries'): return
        if len(lay) > lay[-1] + 1: must(MG, at(MG, i0, cl[0]), 'merging before fronts cross layer boundaries')
    if len(lay) > lay[-1] + 1: must(MG, at(MG, cl[-1] if cl else i0, dom[-1]), 'merging before fronts cross the bottom')
def correction(ctx, m, lay, sat, drop):
    """what happens between the first crossing of layer boundaries and the reorganisation of the list, and what is reported at the end"""
    L = lay[-1]; n = len(lay); wfd = demand(lay); what = 'fronts in layers %s' % lay; fx = {}; cnt = []; rule = 'correction'
    if drop:
        lay2 = lay[1:]
        if lay[1] != 1: return
    else: lay2 = lay
    wf2 = demand(lay2)
    def pre(r):
        r.I.FREEZE = 400; naming(r, {})
        # a front can only fall below the residual moisture when more is taken from it than it holds
        if drop: r.I.assume = band(r.I.assume, band(bnot(cmp_eq(sym('dzdt1'))), cmp_lt(padd(pmul(sym('olddepth1'), psub(sym('oldtheta1'), sym('oldtheta2'))), psub(sym('precip'), sym('aet'))))))
    def on(r, nm, inst, args, st, c):
        if nm == 'lgar_theta_mass_balance':
            cnt.append(1); r.I.store(st, args[5], leaf(sym('aet%d' % len(cnt)))); return leaf(sym('found%d' % len(cnt)))
        if nm == 'lgar_calc_mass_bal': return water(r, st)
        if nm == 'wetting_front_free_drainage': return leaf(num(wf2))
        if nm in PHYS and not fx:
            fx['s1'] = st.copy(); r.I.rewrite = None; ns = r.nodes[-len(lay2):]; install(m, r.I, st, r.S, ns, layers=lay2)
            for k, p in enumerate(ns):
                for fld in ('depth_cm', 'theta', 'psi_cm', 'K_cm_per_h', 'dzdt_cm_per_h'): r.I.store(st, leaf(m.lv(p, WF, fld)), leaf(sym('new%s%d' % (fld.split('_')[0], k + 1))))
                if bottom(lay2, k): r.I.store(st, leaf(m.lv(p, WF, 'depth_cm')), r.depth[lay2[k]])
            S = soilof(L, lay2[wf2 - 1]); e = sym('theta_e.%d' % S); r.demand = ns[wf2 - 1]
            r.I.store(st, leaf(m.lv(r.demand, WF, 'theta')), leaf(e if sat else psub(e, ONE)))
            fx['aet'] = r.I.load(st, leaf(r.aet), 'double'); fx['st'] = st.copy(); return leaf(sym('x')) if inst.ty.k != 'void' else None
        if nm == 'lgar_check_dry_over_wet_wetting_fronts':
            if 's2' not in fx: fx['s2'] = st.copy()
            return T
        if nm == 'lgar_fix_dry_over_wet_wetting_fronts':
            k = fx.setdefault('fix', {}).setdefault((id(inst), r.I.callstack), len(fx['fix'])); p = args[0]
            r.I.store(st, p, add(r.I.load(st, p, 'double'), sym('change%d' % k)))
        if nm == 'lgar_wetting_front_cross_domain_boundary': return leaf(sym('bottomflux'))
    r = hyd.move(m, lay, wfd, None, on, drop, pre); I = r.I; W = m.where(r.f)
    ctx.need(r.s is not None and 's2' in fx, 'movement')
    if not sat and not drop: reorganised(ctx, m, r, lay, what, W)
    s2 = fx['s2']; W2 = water(r, s2); ctx.need(W2 is not None, 'list'); A2 = I.load(s2, leaf(r.aet), 'double'); V = I.load(r.s, leaf(r.vol), 'double')
    flux = sub(V, sym('bottomflux')); goal = sub(padd(sym('oldmass'), sym('precip')), A2)
    care = band(band(r.s.pc, s2.pc), I.assume)
    if drop:
        # the water the deleted front would have been short of
        first = fx['s1']; got = I.load(first, leaf(r.aet), 'double'); prior = padd(pmul(sym('olddepth1'), psub(sym('oldtheta1'), sym('oldtheta2'))), psub(sym('precip'), fx0(sym('aet'), cnt)))
        S = soilof(L, 1); t = apply2(lambda d, b: padd(pdiv(prior, d), b), get(r, first, r.nodes[0], 'depth_cm'), get(r, first, r.nodes[1], 'theta')); a0 = fx0(sym('aet'), cnt)
        gone = band(bnot(cmp_eq(sym('dzdt1'))), apply1(lambda x: cmp_lt(psub(x, sym('theta_r.%d' % S))), t))
        exp = ite(gone, sub(a0, neg(prior)), leaf(a0)); bad = util.same(got, exp, band(first.pc, I.assume))
        ctx.judge(bad is None, 'front too dry', W, '%s: when front 1 would fall below the residual moisture and is deleted, the evapotranspiration becomes %s instead of %s' % (what, util.short(got, 200), util.short(exp, 200)), (got,), 'front too dry', str(lay))
    if not sat:
        # nothing to correct
        bad = util.same(W2, water(r, fx['st']), care); ctx.judge(bad is None, rule, W, '%s, demand front not saturated: the water of the column changes from %s to %s' % (what, util.short(water(r, fx['st']), 120), util.short(W2, 120)), (W2,), rule, str(lay))
        bad = util.same(V, leaf(sym('bottomflux')), care); ctx.judge(bad is None, 'reported flux', W, '%s: the flux reported through the bottom is %s instead of what crossed the bottom' % (what, util.short(V, 200)), (V,), 'reported flux', str(lay))
        bad = util.same(A2, fx['aet'], care); ctx.judge(bad is None, rule, W, '%s: the evapotranspiration becomes %s' % (what, util.short(A2, 160)), (A2,), rule)
    else:
        facts = lambda w, t: sum([tracked(r, rec, w, t) for rec in I.loops if not rec.unrolled], ())
        D = sub(sub(goal, W2), flux); fine = True
        for ls, l in util.nonzero_paths(D, care):
            if util.forcedzero(ls, l): continue
            w, t = W2, goal
            for a, b in ls: w = util.cofactor(w, a, b); t = util.cofactor(t, a, b)
            if isinstance(l, Poly) and all(isinstance(x, Poly) and isinstance(y, Poly) and within(ls, l, EPS, facts(x, y)) for x in list(leaves(w))[:8] for y in list(leaves(t))[:8]): continue
            fine = False
            ctx.judge(False, rule, W, '%s, demand front saturated: water before plus infiltration minus evapotranspiration, minus water afterwards and the flux through the bottom, is %s (when %s)' % (what, util.short(l, 200), util.showlits(ls)), (l,) + tuple(a for a, b in ls), rule); break
        if fine: ctx.ok(rule, str(lay))
    # what the removal of drier fronts changed goes to the evapotranspiration
    A3 = I.load(r.s, leaf(r.aet), 'double'); nfix = len(fx.get('fix', {})); tot = ZERO
    for k in range(nfix): tot = padd(tot, sym('change%d' % k))
    fine = True
    for ls, l in util.nonzero_paths(sub(A3, sub(A2, tot)), care):
        if util.forcedzero(ls, l) or (l is tot and within(ls, tot, EPS)): continue
        fine = False
        ctx.judge(False, 'drier fronts', W, '%s: removing drier fronts changes the water by %s, the evapotranspiration becomes %s instead of %s' % (what, util.short(tot), util.short(A3, 200), util.short(sub(A2, tot), 200)), (l,), 'drier fronts'); break
    if fine: ctx.ok('drier fronts', str(lay))
def fx0(a, cnt): return a if not cnt else sym('aet%d' % len(cnt))
def tracked(r, rec, w, t):
    """what is known at the head of the loop: a loop variable that starts as, and is always updated to, the water (or its distance to the target)"""
    out = ()
    wp, wl = water(r, rec.pre), water(r, rec.latch) if rec.latch is not None else None
    if wp is None or wl is None: return ()
    tp = sub(padd(sym('oldmass'), sym('precip')), r.I.load(rec.pre, leaf(r.aet), 'double'))
    for p, (mu, init) in rec.phis.items():
        nx = rec.next.get(p)
        if nx is None or mu.var is not None or not isinstance(mu.leaf, Poly): continue
        x = mu.leaf
        if not isinstance(init, DD): continue
        def eq(a, b, c, d):
            return util.same(init, a, rec.pre.pc) is None and util.same(nx, b, rec.latch.pc) is None
        if eq(wp, wl, 0, 0): out += lits(cmp_eq(psub(x, w)))
        elif eq(absd(sub(wp, tp)), absd(sub(wl, tp)), 0, 0):
            d = psub(w, t); out += lits(cmp_lt(psub(d, x), False), cmp_lt(psub(pneg(d), x), False))
    return out

# ------------------------------------------------------------------ the moisture search
def search(ctx, m, k):
    """the moisture found holds the water to be held, or the shortfall is taken from the evapotranspiration"""
    lay = list(range(1, 4)); L = 3; rule = 'moisture search'
    r = hyd.solve(m, lay, k); I = r.I; W = m.where(r.f); S = soilof(L, k)
    ctx.need(r.s is not None, 'does not return')
    loops = [rec for rec in I.loops if not rec.unrolled and rec.latch is not None]
    prior = sym('prior'); aet = sym('aet')
    A = I.load(r.s, leaf(r.aet), 'double')
    def M(h):
        return padd(pmul(sym('dz%d' % k), psub(th(L, k, h).leaf, sym('dth%d' % k))), sum_([pmul(sym('dz%d' % j), psub(th(L, j, h).leaf, sym('dth%d' % j))) for j in range(1, k)]))
    def head(x):
        q = rel(x, 'calc_theta_from_h')
        return q[0] if q and x is th(L, k, q[0]).leaf else None
    mus = {}      # moisture at the head of the loop -> its distance from the water to be held
    flags = {}
    for rec in loops:
        ths = []; ds = []; ms = []
        for p, (mu, init) in rec.phis.items():
            nx = rec.next.get(p)
            if nx is None or mu.var is not None or not isinstance(mu.leaf, Poly) or not isinstance(init, DD): continue
            hs = {head(l) for l in leaves(nx)}
            if None not in hs and hs: ths.append((mu.leaf, hs))
            elif init is leaf(ZERO) and all(l is ONE or l is mu.leaf for l in leaves(nx)): flags[mu.leaf] = nx
            else: ds.append((mu.leaf, nx))
        for x, hs in ths:
            if len(hs) != 1: continue
            h = next(iter(hs)); want = absd(leaf(psub(M(h), prior)))
            mus[x] = [d for d, nx in ds if util.same(nx, want, rec.latch.pc) is None]
            held = [d for d, nx in ds if util.same(nx, leaf(M(h)), rec.latch.pc) is None]
            # a front is given up as saturating only when it holds too little water
            for f, nx in list(flags.items()):
                for ls, l in util.nonzero_paths(apply1(lambda l: ONE if l is ONE else ZERO, nx), rec.latch.pc):
                    if not any(util.contradict(ls + lits(cmp_lt(psub(prior, d)))) for d in held) and not util.contradict(ls + lits(cmp_eq(f))): flags.pop(f, None)
    n = 0; fine = True; care = band(r.s.pc, I.assume)
    both = apply2(lambda a, b: leaf(Sx('pair', a, b)), r.ret, A)
    seen = set()
    for ls, x in util.nonzero_paths(both, care, zero=lambda l: False):
        t, a = x.args; n += 1
        h = head(t)
        # distance from the water to be held
        if t in mus: dist = [(d,) for d in mus[t]]
        elif h is sym('psi'): d = psub(sym('newmass'), prior); dist = [(d, pneg(d))]
        elif h is not None: d = psub(M(h), prior); dist = [(d, pneg(d))]
        else:
            ctx.judge(False, rule, W, 'layer %d: the moisture found is %s' % (k, util.short(t, 200)), (t,), rule); fine = False; break
        ok = False
        for d in dist:
            # close enough, and the evapotranspiration unchanged
            close = all(util.contradict(ls + lits(cmp_lt(psub(num(EPS), y)))) for y in d)
            sat = any(v is False and z.kind == 'eq0' and z.args[0] in flags for z, v in ls) or any(wanted(ls, nx) for nx in flags.values())
            same = a is aet
            taken = any(isinstance(c, Poly) and c.const() is not None and abs(c.const()) <= EPS for y in d for c in (psub(psub(aet, y), a),) if len(d) == 1 or util.contradict(ls + lits(cmp_lt(y))))
            zero = a is ZERO and not util.contradict(ls + lits(cmp_lt(psub(sym('theta_e.%d' % S), t), False))) and util.contradict(ls + lits(cmp_lt(psub(t, sym('theta_e.%d' % S)))))
            if same and (close or sat) or taken or zero: ok = True
        if not ok:
            fine = False
            key = (t, a)
            ctx.judge(False, rule, W, 'layer %d: the moisture %s is returned although it does not hold the water to be held, and the evapotranspiration becomes %s (when %s)' % (k, util.short(t, 120), util.short(a, 160), util.showlits(ls)), (t, a) + tuple(z for z, v in ls), rule); break
    if fine: ctx.ok(rule, 'layer %d: %d outcomes' % (k, n))
def sum_(xs):
    r = ZERO
    for x in xs: r = padd(r, x)
    return r
def wanted(ls, nx):
    for a, b in ls: nx = util.cofactor(nx, a, b)
    return nx is leaf(ONE)
