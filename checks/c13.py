from harness import *
import bmi, util, upd, libmodel
from c23 import fronts, install
from c12 import walk, get, headof, Run, WF, FL
import itertools

EXPLAIN = ('Merging, crossing of a layer boundary, crossing of the domain bottom and removal of a front drier than the one below are analysed on every arrangement of up to the bound many fronts over the layers and every choice of which fronts have overtaken; depths, moistures and all soil parameters are unknowns. '
           'The water of the column, summed over the list the operation leaves behind, must equal the water before it minus the flux it reports (plus the change it reports), as an identity of rational functions.')
ASSUME = ['real-number arithmetic', 'arrangements of up to 4 fronts (thorough: 5)', 'a front at the bottom of its layer lies exactly at the layer boundary, as the list operations leave it',
          'moistures of the fronts lie below the saturated moisture of their soil', 'the special case in which a crossing front has exactly the moisture of the front below it (an infinite depth) is not judged',
          'the hydraulic relations (C14) are opaque']
HYD = {'calc_theta_from_h', 'calc_Se_from_theta', 'calc_K_from_Se', 'calc_Se_from_h', 'calc_h_from_Se', 'listPrint'}
SOIL = 'soil_properties_'

def shapes(lo, hi, maxlayers=3):
    """layer number of every front, surface to bottom"""
    for n in range(lo, hi + 1):
        for L in range(1, min(n, maxlayers) + 1):
            for cuts in itertools.combinations(range(1, n), L - 1):
                yield [1 + sum(1 for c in cuts if c <= k) for k in range(n)]
def bottom(lay, k): return k == len(lay) - 1 or lay[k + 1] != lay[k]

def setup(m, lay, cuts=()):
    r = Run(); r.m = m; r.lay = lay; n = len(lay); I = r.I = m.interp(log=('alloc', 'free'), cut=HYD | set(cuts)); I.unroll = n + 3; I.track_free()
    def hook(I, inst, args, st, env):
        # the moisture lies below the saturated moisture it was computed with
        g = sym('gap%d' % len(gaps)); gaps.append(g); I.assume = band(I.assume, cmp_lt(pneg(g)))
        return I.ap2(psub, args[4], leaf(g))
    gaps = []; f = m.fn('calc_theta_from_h')
    if len(f.params) != 6: raise AnalysisError('signature of calc_theta_from_h')
    I.hooks[f.name] = hook
    r.nodes = fronts(m, n); r.S = Ptr(Obj('heap', 'state', None)); r.st = State({}, T)
    install(m, I, r.st, r.S, r.nodes, layers=lay); r.head = m.lv(r.S, upd.STATE, 'head')
    r.cum = Ptr(Obj('heap', 'cum', None)); r.types = Ptr(Obj('heap', 'types', None)); r.soils = Ptr(Obj('heap', 'soils', None)); r.ff = Ptr(Obj('heap', 'ff', None)); r.L = lay[-1]
    at = lambda p, k, sz: Ptr(p.root, num(k * sz))
    tr = I.track_stores; I.track_stores = False
    r.depth = [leaf(ZERO)] + [leaf(sym('cum%d' % k)) for k in range(1, r.L + 1)]
    sz = m.m.struct(SOIL).size
    for k in range(r.L + 1):
        I.store(r.st, leaf(at(r.cum, k, 8)), r.depth[k])
        I.store(r.st, leaf(at(r.types, k, 4)), leaf(num(soilof(r.L, k))))
        I.store(r.st, leaf(at(r.ff, k, 8)), leaf(sym('ff%d' % k)))
    for s in range(1, r.L + 2):
        for o, nm in m.fields(SOIL).items():
            t = m.m.struct(SOIL); ft = t.fields[t.offs.index(o)] if o in t.offs else None
            if ft is not None and ft.k in ('double', 'float'): I.store(r.st, leaf(Ptr(r.soils.root, num(s * sz + o), (SOIL, o))), leaf(sym('%s.%d' % (nm, s))))
    for k, p in enumerate(r.nodes):
        if bottom(lay, k): I.store(r.st, leaf(m.lv(p, WF, 'depth_cm')), r.depth[lay[k]])
    I.track_stores = tr
    return r
def soilof(L, k): return (k % L) + 2 if k else 1      # a soil number different from the layer number
def water(r, st):
    """the water of the column at st, whatever fronts it holds; None if the list is not one of this column's"""
    memo = {}; bad = []
    def fld(p, f, ty=None): return get(r, st, p, f, ty)
    def base(v, k):
        return r.I.ap1(lambda x: r.depth[int(x.const()) + k] if isinstance(x, Poly) and x.const() is not None and 1 <= x.const() <= r.L else bad.append(x) or leaf(UNDEF), v)
    def W(p, seen):
        if p.root is None: return leaf(ZERO)
        if not isinstance(p.root, Obj) or p.root in seen: bad.append(p); return leaf(UNDEF)
        if p.root in memo: return memo[p.root]
        d = r.I.ap2(psub, fld(p, 'depth_cm'), base(fld(p, 'layer_num'), -1)); nx = fld(p, 'next', 'ptr')
        def below(q):
            if not isinstance(q, Ptr): bad.append(q); return leaf(UNDEF)
            if q.root is None: return leaf(ZERO)
            same = r.I.cmpv('eq', fld(p, 'layer_num'), fld(q, 'layer_num'))
            return ite(same, fld(q, 'theta'), leaf(ZERO))
        t = r.I.ap2(psub, fld(p, 'theta'), r.I.ap1(below, nx))
        v = r.I.ap2(padd, r.I.ap2(pmul, d, t), r.I.ap1(lambda q: W(q, seen | {p.root}) if isinstance(q, Ptr) else leaf(UNDEF), nx))
        memo[p.root] = v
        return v
    v = r.I.ap1(lambda q: W(q, frozenset()) if isinstance(q, Ptr) else bad.append(q) or leaf(UNDEF), headof(r, st))
    return None if bad else v
def lt(a, b): return cmp_lt(psub(a, b))      # a < b
def infinite(ls, l):
    """the excluded case: an infinite quotient (tested as such, or as a vanishing denominator)"""
    for a, v in ls:
        if a.kind == 'eq0': a, v = (next(iter(a.args[0].atoms()), a) if len(a.args[0].t) == 1 else a), not v
        if a.kind == 'fn' and (v and a.args[0] in ('isinf', 'isnan') or not v and a.args[0] == 'isfinite'): return True
    for a in (l.atoms() if isinstance(l, Poly) else ()):
        if a.kind == 'poly' and util.forcedzero(ls, a.args[0]): return True
    return False
def differ(r, a, b):
    if a is b: return None
    for ls, l in util.nonzero_paths(util.difdd(a, b), band(r.s.pc, r.I.assume)):
        if isinstance(l, Poly) and util.forcedzero(ls, l) or infinite(ls, l): continue
        return ls, l
def assume(r, *conds):
    for c in conds: r.I.assume = band(r.I.assume, c)
def call(r, name, args):
    r.f = r.m.fn(name)
    if len(args) != len(r.f.params): raise AnalysisError('signature of ' + name)
    r.before = water(r, r.st)
    r.ret, r.s = r.I.call_function(r.f, args, r.st); r.m.use(r.I)
    if POST: POST(r)
POST = None
def check(ctx):
    ctx.rule('water(column) = sum over fronts of (depth - top of layer) * (moisture - moisture of the next front in the same layer)')
    ctx.rule('merge, layer crossing: water after = water before; domain crossing: water after + returned flux = water before; removal of a drier front: reported change = |water after - water before|')
    ctx.rule('a single front beyond the next one, its layer or the column is merged, enters the next layer, leaves the column')
    ctx.rule('the storage function computes that sum')
    m = ctx.mod('STANDALONE'); hi = 5 if ctx.tier == 'thorough' else 4
    for lay in shapes(1, hi): ctx.guard('storage', storage, ctx, m, lay)
    for lay in shapes(2, hi): ctx.guard('merge', merge, ctx, m, lay)
    for lay in shapes(2, hi): ctx.guard('layer crossing', crosslayer, ctx, m, lay)
    for lay in shapes(2, hi): ctx.guard('domain crossing', crossdomain, ctx, m, lay)
    for lay in shapes(2, hi): ctx.guard('drier front', dry, ctx, m, lay)

def storage(ctx, m, lay):
    r = setup(m, lay)
    call(r, 'lgar_calc_mass_bal', [leaf(r.cum), leaf(r.nodes[0])])
    ctx.need(r.s is not None, 'storage')
    w = r.before
    ctx.judge(r.ret is w or util.same(r.ret, w, r.s.pc) is None, 'storage', m.where(r.f), 'fronts in layers %s: the storage is %s instead of %s' % (lay, util.short(r.ret, 200), util.short(w, 200)), (r.ret,), 'storage', str(lay))
def balance(ctx, r, rule, what, extra=None):
    if r.s is None: ctx.judge(False, rule, r.m.where(r.f), '%s: the operation does not return' % what, (), rule); return
    w = water(r, r.s)
    if w is None: ctx.judge(False, rule, r.m.where(r.f), '%s: the list is broken' % what, (), rule); return
    got = w if extra is None else r.I.ap2(padd, w, extra)
    d = differ(r, got, r.before)
    ctx.judge(d is None, rule, r.m.where(r.f), '%s: water afterwards%s is %s, before it was %s' % (what, '' if extra is None else ' with the reported flux', util.short(got, 200), util.short(r.before, 200) + (' (when %s the difference is %s)' % (util.showlits(d[0]), util.short(d[1], 120)) if d else '')), (got,), rule, what)
    for kind, inst, root, c in r.I.uses:
        ctx.judge(False, rule, r.m.loc(inst), '%s: %s' % (what, 'a front is released twice' if kind == 'double' else 'a released front is accessed'), (c,), rule)
def count(r, st):
    """number of fronts in the list at st"""
    if st is None: return None
    def C(q, n):
        if not isinstance(q, Ptr) or n > len(r.nodes) + 1: return leaf(UNDEF)
        if q.root is None: return leaf(num(n))
        if not isinstance(q.root, Obj): return leaf(UNDEF)
        return r.I.ap1(lambda x: C(x, n + 1), get(r, st, q, 'next', 'ptr'))
    return r.I.ap1(lambda x: C(x, 0), headof(r, st))
def event(ctx, r, rule, what, got, exp):
    """the event takes place: it changes the list as it should"""
    if r.s is None or got is None: return
    d = differ(r, got, exp)
    ctx.judge(d is None, rule, r.m.where(r.f), what + (' (when %s)' % util.showlits(d[0]) if d else ''), (got,), rule + ' takes place', what)
D = lambda k: sym('depth%d' % (k + 1))
def free(lay): return [k for k in range(len(lay)) if not bottom(lay, k)]
def merge(ctx, m, lay):
    # pairs of neighbours in one layer
    prs = [k for k in range(len(lay) - 1) if lay[k] == lay[k + 1]]; low = lambda k: sym('cum%d' % lay[k]) if bottom(lay, k) else D(k)
    for pat in itertools.product((0, 1), repeat=len(prs)):
        r = setup(m, lay)
        for k, b in zip(prs, pat):
            c = lt(low(k + 1), D(k)); assume(r, c if b else bnot(c))
        call(r, 'lgar_merge_wetting_fronts', [leaf(r.types), leaf(r.ff), leaf(r.head), leaf(r.soils)])
        balance(ctx, r, 'merge', 'layers %s, overtaking fronts %s' % (lay, [k + 1 for k, b in zip(prs, pat) if b]))
        hit = [k for k, b in zip(prs, pat) if b and not bottom(lay, k + 1)]
        if sum(pat) == 1 and hit: event(ctx, r, 'merge', 'layers %s, front %d has overtaken the next: they are not merged' % (lay, hit[0] + 1), count(r, r.s), leaf(num(len(lay) - 1)))
def crosslayer(ctx, m, lay):
    fr = free(lay)
    for pat in itertools.product((0, 1), repeat=len(fr)):
        r = setup(m, lay)
        for k, b in zip(fr, pat):
            c = r.depth[lay[k]].leaf; x = lt(c, D(k))
            assume(r, x if b else lt(D(k), c), lt(sym('theta%d' % (k + 1)), sym('theta_e.%d' % soilof(r.L, lay[k]))))
        for k in range(1, r.L + 1): assume(r, lt(r.depth[k - 1].leaf, r.depth[k].leaf))
        call(r, 'lgar_wetting_fronts_cross_layer_boundary', [leaf(num(r.L)), leaf(r.cum), leaf(r.types), leaf(r.ff), leaf(r.head), leaf(r.soils)])
        balance(ctx, r, 'layer crossing', 'layers %s, fronts beyond their layer %s' % (lay, [k + 1 for k, b in zip(fr, pat) if b]))
        hit = [k for k, b in zip(fr, pat) if b and bottom(lay, k + 1) and lay[k] < r.L]
        if sum(pat) == 1 and hit and r.s is not None:
            k = hit[0]; what = 'layers %s, front %d is beyond its layer: ' % (lay, k + 1)
            event(ctx, r, 'layer crossing', what + 'no front enters the next layer', get(r, r.s, r.nodes[k + 1], 'layer_num'), leaf(num(lay[k] + 1)))
            event(ctx, r, 'layer crossing', what + 'it is not left at the bottom of its layer', get(r, r.s, r.nodes[k], 'depth_cm'), r.depth[lay[k]])
def crossdomain(ctx, m, lay):
    fr = [k for k in free(lay) if lay[k] == lay[-1]]
    for pat in itertools.product((0, 1), repeat=len(fr)):
        r = setup(m, lay); dom = r.depth[r.L].leaf
        for k, b in zip(fr, pat): c = lt(D(k), dom); assume(r, bnot(c) if b else c)
        for k in range(1, r.L + 1): assume(r, lt(r.depth[k - 1].leaf, r.depth[k].leaf), *( [lt(r.depth[k].leaf, dom)] if k < r.L else []))
        for k in free(lay):
            if k not in fr: assume(r, lt(D(k), dom))
        call(r, 'lgar_wetting_front_cross_domain_boundary', [leaf(dom), leaf(r.types), leaf(r.ff), leaf(r.head), leaf(r.soils)])
        balance(ctx, r, 'domain crossing', 'layers %s, fronts beyond the domain %s' % (lay, [k + 1 for k, b in zip(fr, pat) if b]), r.ret if r.s is not None else None)
        hit = [k for k, b in zip(fr, pat) if b and k == len(lay) - 2]
        if sum(pat) == 1 and hit: event(ctx, r, 'domain crossing', 'layers %s, front %d is beyond the bottom: it is not taken out of the column' % (lay, hit[0] + 1), count(r, r.s), leaf(num(len(lay) - 1)))
def dry(ctx, m, lay):
    prs = [k for k in range(len(lay) - 1) if lay[k] == lay[k + 1]]
    for one in prs:
        r = setup(m, lay); th = lambda k: sym('theta%d' % (k + 1))
        for k in prs:
            c = lt(th(k + 1), th(k)); assume(r, bnot(c) if k == one else c)
        mc = Ptr(Obj('heap', 'change', None)); r.I.store(r.st, leaf(mc), leaf(sym('change0')))
        call(r, 'lgar_fix_dry_over_wet_wetting_fronts', [leaf(mc), leaf(r.cum), leaf(r.types), leaf(r.head), leaf(r.soils)])
        what = 'layers %s, front %d drier than the next' % (lay, one + 1)
        if r.s is None: ctx.judge(False, 'drier front', m.where(r.f), what + ': does not return', (), 'drier front'); continue
        w = water(r, r.s)
        if w is None: ctx.judge(False, 'drier front', m.where(r.f), what + ': the list is broken', (), 'drier front'); continue
        rep = r.I.ap2(psub, r.I.load(r.s, leaf(mc), 'double'), leaf(sym('change0')))
        exp = r.I.ap1(lambda x: ite(cmp_lt(x), leaf(pneg(x)), leaf(x)), r.I.ap2(psub, w, r.before))
        d = differ(r, rep, exp)
        ctx.judge(d is None, 'drier front', m.where(r.f), '%s: the reported change is %s instead of %s' % (what, util.short(rep, 160), util.short(exp, 160)), (rep,), 'drier front', what)
        for kind, inst, root, c in r.I.uses:
            ctx.judge(False, 'drier front', r.m.loc(inst), '%s: %s' % (what, 'a front is released twice' if kind == 'double' else 'a released front is accessed'), (c,), 'drier front')
