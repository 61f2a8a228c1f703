from harness import *
import bmi, util, upd, c01

EXPLAIN = ('On the gated transfer function of one arbitrary sub-step the stored balance residual is compared, as a polynomial on every feasible path, with soil water before + rain + ponded before - runoff - AET - ponded after - percolation - soil water after, '
           'where each term is the very quantity the outputs accumulate and the two soil-water terms are column integrals taken before the first and after the last change of the fronts. '
           'The column integral itself is verified from the transfer function of its loop, and the abnormal stop from the facts established before the residual is stored.')
ASSUME = ['real-number arithmetic', 'list copy and list deletion leave the live list alone (property C12)']

def check(ctx):
    ctx.rule('stored residual = soil water before + rain + ponded before - runoff - AET - ponded after - percolation - soil water after, on every path of the sub-step')
    ctx.rule('soil water before/after = column integral of the live front list before the first and after the last change of the fronts')
    ctx.rule('when |residual| > 1e-4 cm the run stops, on every path and whatever the verbosity')
    ctx.rule('mass_balance = residual of the last sub-step in metres')
    ctx.rule('column integral = sum over fronts of (depth - top of layer) * (moisture - moisture of the next front in the same layer)')
    for cf in ctx.configs():
        m = ctx.mod(cf)
        for sc in c01.scenarios(ctx): ctx.guard('residual', one, ctx, m, sc)
        ctx.guard('column integral', integral, ctx, m)

FRONT = 'wetting_front'
def front_writes(m, name):
    W, R, E = m.eff.summary(name)
    return any(t is not None and t[0] == FRONT for t, o in W)

def one(ctx, m, sc):
    u = upd.run(m, **sc); sub = upd.Sub(u); I = u.I
    W = m.where(u.f)
    mb = m.lv(u.S, upd.STATE, 'lgar_mass_balance.local_mass_balance')
    stores = [s for s in I.stores if s[5] and s[5][0] == sub.key and s[0].tag == mb.tag]
    ctx.need(stores, 'no residual is stored in the sub-step')
    q = c01.quantities(ctx, u, sub)
    for k, n in (('A', 'actual_evapotranspiration'), ('G', 'percolation')):
        a = upd.accumulator(u, sub, n); q[k] = a; q['d' + k] = sub.inc(a)
    care = sub.r.latch.pc
    res, pair, r = residual(m, u, sub, q)
    if pair is None:
        msg = 'the stored residual is not the water balance of the sub-step'
        if r is not None: msg += ': on the path %s it differs by %s' % (util.showlits(r[0], 8), util.short(r[1], 300))
        ctx.judge(False, 'residual', W, msg, (r[1],) if r else (res,)); return
    ctx.ok('sub-step residuals', 'residual over %d decision nodes' % val.ddsize(res))
    e1, e2 = pair
    # both integrals are over the live list with the layer boundaries of the model
    cum = upd.load(u, sub.r.pre, m.lv(u.S, upd.STATE, 'lgar_bmi_params.cum_layer_thickness_cm'), 'ptr')
    head = m.lv(u.S, upd.STATE, 'head')
    for e, when in ((e1, 'before'), (e2, 'after')):
        h = I.loadc(e.mem.get(I.cls_of(head, None)) or I.initnode(I.cls_of(head, None)), head, 'ptr')
        ok = any(a is cum for a in e.data[1]) and any(a is h for a in e.data[1])
        ctx.judge(ok, 'soil water ' + when, m.loc(e.inst), 'the soil water %s the sub-step is not the integral over the live front list' % when, e.data[1], 'column integrals')
    evs = [e for e in I.events if e.kind == 'cut' and e.loops and e.loops[0] == sub.key and front_writes(m, e.data[0])]
    order = {id(e): k for k, e in enumerate(I.events)}
    for e in evs:
        n = base(m.m.funcs[e.data[0]].dem)
        if n in ('listCopy', 'listDelete'): continue
        ok1 = order[id(e)] > order[id(e1)]
        ok2 = order[id(e)] < order[id(e2)] or n == 'lgar_dzdt_calc'
        ctx.judge(ok1, 'soil water before', m.loc(e.inst), '%s changes the fronts before the initial soil water of the sub-step is taken' % n, (), 'order of integrals')
        ctx.judge(ok2, 'soil water after', m.loc(e.inst), '%s changes the fronts after the final soil water of the sub-step was taken' % n, (), 'order of integrals')
    for s in I.stores:
        if s[5] and s[5][0] == sub.key and s[0].tag is not None and s[0].tag[0] == FRONT and s[3] is not None and m.fname(s[0].tag).split('.')[-1] in ('theta', 'depth_cm', 'layer_num', 'next'):
            k = pos(I, s, order)
    # the reported balance
    try: upd.final(u, sub, upd.load(u, u.st, upd.outptr(m, 'mass_balance')), Fraction(1, 100), 'mass_balance'); ctx.ok('reported residual')
    except upd.Mismatch as e: ctx.judge(False, 'reported residual', W, str(e), (upd.load(u, u.st, upd.outptr(m, 'mass_balance')),))
    # abnormal stop
    lim = Fraction(1, 10000)
    facts = T
    for pc, c, cs, ls, inst in I.facts:
        if ls == (sub.key,) and len(cs) == len(sub.key[0]): facts = band(facts, bor(bnot(pc), c))
    p = None
    for form in (res, I.freeze(res, 8)):
        big = I.ap1(lambda x: bor(cmp_lt(psub(num(lim), x), True), cmp_lt(padd(num(lim), x), True)), form)     # residual > 1e-4 or < -1e-4
        left = band(band(big, facts), care); p = None
        if left is not F:
            for ls, x in util.nonzero_paths(ite(left, leaf(ONE), leaf(ZERO))): p = ls; break
        if p is None: break
    ctx.judge(p is None, 'abnormal stop', W, 'the run goes on with a residual above 1e-4 cm on the path %s' % (util.showlits(p or (), 8)), (), 'abnormal stop')

def residual(m, u, sub, q):
    """(stored residual, (integral before, integral after) or None, counterexample)"""
    I = u.I
    mb = m.lv(u.S, upd.STATE, 'lgar_mass_balance.local_mass_balance')
    care = sub.r.latch.pc
    res = I.loadc(I.chain(sub.r.latch, I.cls_of(mb, None)), mb, 'double')
    # soil water terms: results of the column integral inside the sub-step
    atoms = {a for l in util.thawed(res) for a in l.atoms()}
    ints = [e for e in I.events if e.kind == 'cut' and base(m.m.funcs[e.data[0]].dem) == 'lgar_calc_mass_bal' and e.loops and e.loops[0] == sub.key]
    cand = [(e, atom('res', e.data[2])) for e in ints if atom('res', e.data[2]) in atoms]
    # soil water carried over from the end of the previous sub-step: starts as an integral before the loop, becomes one in every iteration
    outer = [e for e in I.events if e.kind == 'cut' and base(m.m.funcs[e.data[0]].dem) == 'lgar_calc_mass_bal' and not e.loops]
    ends = {patom(atom('res', e.data[2])) for e in ints}
    for a in sorted(atoms, key=lambda a: a.id):
        if not sub.isvar(a): continue
        i, nx = sub.init(a), sub.next(a)
        e0 = next((e for e in outer if i is leaf(patom(atom('res', e.data[2])))), None)
        if e0 is not None and all(l in ends for l in leaves(nx)):
            k = I.events.index(e0)
            last = max((j for j, e in enumerate(I.events) if e.kind == 'cut' and e.loops and e.loops[0] == sub.key and front_writes(m, e.data[0]) and base(m.m.funcs[e.data[0]].dem) not in ('listCopy', 'listDelete', 'lgar_dzdt_calc')), default=0)
            if any(e.kind == 'cut' and not e.loops and front_writes(m, e.data[0]) and j > k and j < last for j, e in enumerate(I.events)): continue
            if all(j > last for j, e in enumerate(I.events) if e in ints and patom(atom('res', e.data[2])) in set(leaves(nx))): cand.append((e0, a))
    v = leaf(sub.cur(q['v'])); vn = sub.next(q['v'])
    known = util.adddd(util.adddd(q['dP'], v), apply1(pneg, util.adddd(util.adddd(q['dR'], q['dA']), util.adddd(q['dG'], vn))))
    rest = util.difdd(res, known)       # must be start - end (+ rounding guard of v)
    r = None
    pair = None
    for e1, a1 in cand:
        for e2, a2 in cand:
            if a1 is a2: continue
            exp = leaf(psub(patom(a1), patom(a2)))
            d = util.difdd(rest, exp)
            # the guard may drop ponded water of at most 1e-12 cm (or negative): then the difference is -v
            bad = None
            bad = c01.first(util.nonzero_paths(d, care, skip=lambda ls, x: x is pneg(sub.cur(q['v'])) and small(ls, sub.cur(q['v']))))
            if bad is None: pair = (e1, e2); break
            r = r or bad
        if pair: break
    return res, pair, r

def pos(I, s, order): return None
def small(ls, v):
    """the path says v <= 1e-12 or v < 0"""
    for p, s in util._ineqs(ls):
        d = psub(v, p).const()
        if d is not None and d >= 0 and d <= Fraction(1, 10 ** 12): return True
    return False

def integral(ctx, m):
    f = m.fn('lgar_calc_mass_bal')
    I = m.interp(log=('abort', 'cut')); I.track_stores = True
    cum, head = Ptr(atom('param', 'cum')), Ptr(atom('param', 'head'))
    v, st = I.call_function(f, [leaf(cum), leaf(head)], State({}, T)); m.use(I)
    W = m.where(f)
    out = [s for s in I.stores if not (isinstance(s[0].root, Obj) and s[0].root.kind == 'alloca')]
    ctx.judge(not out, 'column integral', W, 'the column integral changes the model', (), 'integral is pure')
    ls = [r for r in I.loops if not r.loopstack]
    ctx.need(len(ls) == 1, 'column integral: expected one loop over the fronts')
    r = ls[0]
    # loop variables: cursor and sum
    cur = None; tot = None
    for i, (mu, init) in r.phis.items():
        if isinstance(mu.leaf, Ptr) if mu.var is None else False:
            nx = r.next[i]
            fld = lambda n, p=mu.leaf: I.mkload('init', ('S',) + m.tag(FRONT, n), m.lv(p, FRONT, n), 'ptr' if n == 'next' else 'double')
            if nx is fld('next'): cur = (mu.leaf, init)
            # cursor pair (current, next): the current front is the one whose next pointer is the other
    ctx.need(cur is not None, 'column integral: no cursor advancing to the next front')
    C = cur[0]
    nxt = Ptr(I.mkload('init', ('S',) + m.tag(FRONT, 'next'), m.lv(C, FRONT, 'next'), 'ptr').leaf.root)
    g = lambda p, n: leaf(patom(atom('ld', 'init', ('S',) + m.tag(FRONT, n), m.lv(p, FRONT, n))))
    lay = g(C, 'layer_num')
    top = leaf(patom(atom('ld', 'init', ('E', cum.root), Ptr(cum.root, pscale(psub(lay.leaf, ONE), 8)))))
    depth = util.difdd(g(C, 'depth_cm'), top)
    same = I.cmpv('eq', lay, g(nxt, 'layer_num'))
    last = I.cmpv('eq', leaf(Ptr(nxt.root)), leaf(NULL))
    w = util.difdd(g(C, 'theta'), ite(band(bnot(last), same), g(nxt, 'theta'), leaf(ZERO)))
    exp = I.arith('fmul', depth, w)
    vs = []
    for i, (mu, init) in r.phis.items():
        if mu.var is None and isinstance(mu.leaf, Poly):
            inc = util.difdd(r.next[i], mu)
            bad = util.same(inc, exp, r.latch.pc)
            vs.append((i, mu, init, bad, inc))
    good = [x for x in vs if x[3] is None]
    if not good:
        b = vs[0] if vs else None
        ctx.judge(False, 'column integral', W, 'a front does not contribute (depth - layer top) * (moisture - moisture below in the layer)%s' % ('' if b is None else ': %s' % util.short(b[4], 400)), (b[4],) if b else ()); return
    i, mu, init, bad, inc = good[0]
    ctx.judge(init.var is None and isinstance(init.leaf, Poly) and iszero(init.leaf), 'column integral', W, 'the integral does not start from zero', (), 'integral starts at zero')
    ctx.judge(cur[1].var is None and isinstance(cur[1].leaf, Ptr) and cur[1].leaf.root is head.root, 'column integral', W, 'the integral does not start at the first front', (), 'integral starts at the head')
    # leaves only at the end of the list, with the sum over all fronts so far
    nr = I.noret(f)
    endc = I.cmpv('eq', leaf(C), leaf(NULL))
    done = F; inside = F
    for src, dst, s in r.exits:
        if dst in nr: continue
        if band(s.pc, bnot(endc)) is F: done = bor(done, s.pc)
        elif band(s.pc, bnot(last)) is F: inside = bor(inside, s.pc)
        else: ctx.judge(False, 'column integral', m.loc(src.insts[-1]), 'the integral ends before the last front', (s.pc,)); return
    ctx.ok('integral covers all fronts')
    empty = I.cmpv('eq', leaf(head), leaf(NULL))
    e = ite(inside, util.adddd(mu, exp), mu)
    bad = util.same(v, e, band(bnot(empty), bor(done, inside)))
    ctx.judge(bad is None, 'column integral', W, 'the result is not the accumulated sum: %s' % util.short(v, 300), (v,), 'integral result')
    ctx.ok('column integral', 'per front %s' % util.short(inc, 200))
