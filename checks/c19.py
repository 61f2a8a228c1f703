from harness import *
import bmi, util, upd, libmodel, c03
from interp import deps

EXPLAIN = ('The routing function is analysed for fixed numbers of ordinates (every number up to the bound, and around every number it compares with), with the runoff, the ordinates and the queue as unknowns: its result and every queue entry afterwards are polynomials that must be those of the convolution. '
           'The update must call it once, on every path, with the runoff it reports, its own ordinates and queue, and report its result; initialisation must copy the configured ordinates in order and empty the queue; nothing else may write them.')
ASSUME = ['real-number arithmetic', 'number of ordinates up to 8 (thorough: 40), plus the neighbours of every constant it is compared with']

def check(ctx):
    ctx.rule('routed = q[0] + o[0] r; q\'[i] = q[i+1] + o[i+1] r for i < N-1; q\'[N-1] = 0 - so routed + change of the queue = r x sum of ordinates')
    ctx.rule('one routing call per update, outside the sub-step loop, on every path, with the surface runoff of the update, the model\'s own ordinates and queue; its result is the routed runoff reported')
    ctx.rule('initialisation: ordinate i is the configured ordinate i+1, every queue entry is zero, the arrays are large enough')
    ctx.rule('no other function writes ordinates or queue')
    for cf in ctx.configs():
        m = ctx.mod(cf)
        if cf == 'STANDALONE': ctx.guard('convolution', convolution, ctx, m)
        ctx.guard('routing call', call, ctx, m)
        for n in (1, 2, 3, 5, 8, 13, 24): ctx.guard('initial queue', init, ctx, m, n)
        ctx.guard('writers', writers, ctx, m)
        ctx.guard('queue at the end', c03_end, ctx, m)

def run(m, n):
    f = m.fn('giuh_convolution_integral')
    I = m.interp(log=('*',)); I.track_stores = True
    I.unroll = 70 if n is not None else 0
    o, q = Ptr(atom('param', 'ord')), Ptr(atom('param', 'queue'))
    if len(f.params) != 4: raise AnalysisError('signature of the routing function')
    st = State({}, T)
    if n is not None: I.store(st, leaf(Ptr(q.root, num(8 * n))), leaf(ZERO)); I.stores.clear()  # invariant: the spare entry is zero before
    v, s = I.call_function(f, [leaf(sym('runoff')), leaf(num(n)) if n is not None else leaf(sym('N')), leaf(o), leaf(q)], st); m.use(I)
    at = lambda st, p, k: I.load(st, leaf(Ptr(p.root, num(8 * k))), 'double')
    return I, v, s, (lambda k: at(State({}, T), o, k)), (lambda k: at(State({}, T), q, k)), (lambda k: at(s, q, k)), f
def convolution(ctx, m):
    I, v, s, *_, f = run(m, None)
    N = sym('N'); sizes = set(range(1, 41 if ctx.tier == 'thorough' else 9)); seen = [s.pc if s else T] + ([v] if v is not None else []) + [x[2] for x in I.stores] + [x[1] for x in I.stores] + [r.outer_pc for r in I.loops]
    for d in seen:
        for a in util.atoms_of(d):
            if a.kind in ('lt0', 'le0', 'eq0') and isinstance(a.args[0], Poly) and not deps(a):
                k = util.coef(a.args[0], next(iter(N.atoms())))
                if k and k[0] and k[1].const() is not None:
                    z = int(-k[1].const() / k[0]); sizes |= {x for x in (z - 1, z, z + 1) if 1 <= x <= 64}
    for n in sorted(sizes): size(ctx, m, n)
def size(ctx, m, n):
    I, v, s, o, q0, q1, f = run(m, n); W = m.where(f)
    ctx.need(s is not None and not any(not r.unrolled for r in I.loops), 'routing with %d ordinates' % n)
    r = sym('runoff'); care = bnot(cmp_lt(r, True))
    def eq(got, exp, what):
        d = util.difdd(got, exp)
        bad = None
        for ls, l in util.nonzero_paths(d, care):
            if util.forcedzero(ls, r): l = psubst(l, lambda a: ZERO if patom(a) is r else None)
            if iszero(l) or util.forcedzero(ls, l): continue
            bad = (ls, l); break
        ctx.judge(bad is None, 'convolution', W, bad and 'with %d ordinates %s is %s instead of %s' % (n, what, util.short(got, 160), util.short(exp, 160)), (got,), 'convolution', 'N=%d %s' % (n, what) if n < 3 else None)
    add = lambda k: util.adddd(q0(k), leaf(pmul(o(k).leaf, r)))
    eq(v, add(0), 'the routed runoff')
    for k in range(n - 1): eq(q1(k), add(k + 1), 'queue entry %d' % k)
    eq(q1(n - 1), leaf(ZERO), 'the last queue entry')
    eq(util.adddd(q1(n), leaf(ZERO)), leaf(ZERO), 'the spare queue entry')
    for p, vv, pc, inst, cs, ls in I.stores:
        if isinstance(p.root, Atom) and p.root.kind == 'param' and p.root.args[0] == 'ord': ctx.judge(False, 'convolution', m.loc(inst), 'the ordinates are overwritten', ())
        elif isinstance(p.root, Atom) and p.root.kind == 'param':
            k = p.off.const()
            ctx.judge(k is not None and 0 <= k <= 8 * n, 'convolution', m.loc(inst), 'with %d ordinates queue byte %s is written' % (n, util.short(p.off)), (p.off,), 'queue bounds')
    ctx.count('queue sizes')

MEM = ('giuh_ordinates', 'giuh_runoff_queue', 'num_giuh_ordinates')
def call(ctx, m):
    u = upd.run(m, adaptive=0, calib=0, sft=0, invalid=0); W = m.where(u.f); R = 'routing call'
    ev = [e for e in u.I.events if e.kind == 'cut' and base(m.m.funcs[e.data[0]].dem) == 'giuh_convolution_integral']
    ctx.judge(len(ev) >= 1, R, W, 'the update never routes the runoff', (), R)
    if not ev: return
    ctx.judge(len(ev) == 1 and not ev[0].loops, R, m.loc(ev[-1].inst), 'the runoff is routed %s per update' % ('in a loop' if ev[0].loops else '%d times' % len(ev)), (), R)
    if len(ev) != 1 or ev[0].loops: return
    e = ev[0]; w = m.loc(e.inst); a = e.data[1]
    pc = u.I.fullpc(e.pc, e.path); bad = None
    if pc is not T:
        for ls, l in util.nonzero_paths(ite(pc, leaf(ZERO), leaf(ONE)), u.st.pc): bad = ls; break
    ctx.judge(bad is None, R, w, bad and 'the runoff is not routed when %s' % util.showlits(bad), (pc,), R)
    L = lambda n, ty: upd.load(u, State({}, T), m.lv(bmi.THIS, 'BmiLGAR', n), ty)
    ctx.judge(a[1] is L('num_giuh_ordinates', 'int'), R, w, 'the number of ordinates used is %s' % util.short(a[1]), (a[1],), R)
    ctx.judge(a[2] is L('giuh_ordinates', 'ptr'), R, w, 'the ordinates used are %s' % util.short(a[2]), (a[2],), R)
    ctx.judge(a[3] is L('giuh_runoff_queue', 'ptr'), R, w, 'the queue used is %s' % util.short(a[3]), (a[3],), R)
    sr = upd.load(u, u.st, upd.outptr(m, 'surface_runoff'))
    r = util.same(sr, apply1(lambda x: pscale(x, Fraction(1, 100)), a[0]), u.st.pc)
    ctx.judge(r is None, R, w, r and 'the runoff routed, %s, is not the surface runoff of the update, %s' % (util.short(a[0], 120), util.short(sr, 120)), (sr, a[0]), R)
    gr = upd.load(u, u.st, upd.outptr(m, 'giuh_runoff'))
    res = leaf(pscale(patom(atom('res', e.data[2])), Fraction(1, 100)))
    ctx.judge(util.same(gr, res, u.st.pc) is None, R, w, 'the routed runoff reported is %s' % util.short(gr, 160), (gr,), R)
    # nothing else in the update writes them
    for p, v, pc, inst, cs, ls in u.I.stores:
        t = p.tag
        hit = t and t[0] == 'BmiLGAR' and m.fields('BmiLGAR').get(t[1]) in MEM
        if not hit and isinstance(p.root, Atom) and p.root.kind == 'ld':
            t2 = p.root.args[2].tag
            hit = t2 and t2[0] == 'BmiLGAR' and m.fields('BmiLGAR').get(t2[1]) in MEM
        ctx.judge(not hit, R, m.loc(inst), 'the update changes the routing data besides routing', (), 'stores of the update')

def init(ctx, m, n=3):
    """Initialize with a configuration of n ordinates"""
    R = 'initial queue'
    I = m.interp(cut={'InitFromConfigFile'}, log=('alloc', 'cut', 'memset')); I.unroll = 40
    g = {}
    def hook(I, i, args, st, env):
        I.cut_call(m.fn('InitFromConfigFile'), args, i, st)
        S = args[1].leaf; g['S'] = S
        I.store(st, leaf(m.lv(S, upd.STATE, 'lgar_bmi_params.num_giuh_ordinates')), leaf(num(n)))
        I.store(st, leaf(m.lv(S, upd.STATE, 'lgar_bmi_params.num_layers')), leaf(num(2)))
        g['ord'] = I.loadc(I.chain(st, I.cls_of(m.lv(S, upd.STATE, 'lgar_bmi_params.giuh_ordinates'), None)), m.lv(S, upd.STATE, 'lgar_bmi_params.giuh_ordinates'), 'ptr')
        g['st'] = st.copy()
        return None
    I.hooks[m.fn('InitFromConfigFile').name] = hook
    p = Ptr(atom('param', 'cfg')); st = State({}, T)
    libmodel.sstore(I, st, leaf(p), leaf(Sx('sym', 'CFG')))
    f = m.fn('BmiLGAR::Initialize'); W = m.where(f)
    v, s = I.call_function(f, [leaf(bmi.THIS), leaf(p)], st); m.use(I)
    ctx.need(s is not None and g, 'Initialize')
    L = lambda nm, ty: I.loadc(I.chain(s, I.cls_of(m.lv(bmi.THIS, 'BmiLGAR', nm), None)), m.lv(bmi.THIS, 'BmiLGAR', nm), ty)
    ctx.judge(L('num_giuh_ordinates', 'int') is leaf(num(n)), R, W, 'the number of ordinates is %s when the configuration has %d' % (util.short(L('num_giuh_ordinates', 'int')), n), (L('num_giuh_ordinates', 'int'),), R)
    for nm, room in (('giuh_ordinates', n), ('giuh_runoff_queue', n + 1)):
        q = L(nm, 'ptr')
        old = I.loadc(I.chain(State({}, T), I.cls_of(m.lv(bmi.THIS, 'BmiLGAR', nm), None)), m.lv(bmi.THIS, 'BmiLGAR', nm), 'ptr')
        if q is old: ctx.judge(False, R, W, '%s is not allocated' % nm, (), R); continue
        ctx.need(q.var is None and isinstance(q.leaf.root, Obj) and q.leaf.root.kind == 'heap', nm)
        sz = q.leaf.root.size
        ctx.judge(sz.var is None and isinstance(sz.leaf, Poly) and sz.leaf.const() is not None and sz.leaf.const() >= 8 * room, R, W, '%s has %s bytes for %d ordinates' % (nm, util.short(sz), n), (sz,), R)
        zero = any(e.kind == 'memset' and e.data[0] is q and e.data[1] is leaf(ZERO) for e in I.events)
        for k in range(room):
            d = I.load(s, leaf(Ptr(q.leaf.root, num(8 * k))), 'double')
            if nm == 'giuh_ordinates':
                exp = I.load(g['st'], leaf(Ptr(g['ord'].leaf.root, num(8 * k + 8))), 'double')
                ctx.judge(d is exp, R, W, 'ordinate %d is %s instead of configured ordinate %d' % (k, util.short(d), k + 1), (d,), R)
            else:
                if zero and d.var is None and not (isinstance(d.leaf, Poly) and d.leaf.const() is not None): d = leaf(ZERO)
                ctx.judge(d is leaf(ZERO), R, W, 'queue entry %d starts as %s' % (k, 'an undefined value' if d is leaf(UNDEF) else util.short(d)), (d,) if d is not leaf(UNDEF) else (), R)

OKW = {'giuh_convolution_integral', 'BmiLGAR::Initialize', 'BmiLGAR::BmiLGAR', 'BmiLGAR::~BmiLGAR', 'BmiLGAR::Finalize'}
def writers(ctx, m):
    """functions that write the members themselves"""
    from effects import gep_tag
    offs = {m.off('BmiLGAR', n): n for n in MEM}
    for f in m.own():
        for b in f.blocks:
            for i in b.insts:
                if i.op != 'store' or not isinstance(i.ops[1], irload.Inst) or i.ops[1].op != 'getelementptr': continue
                t = gep_tag(i.ops[1].gty, i.ops[1].ops[1:])
                if t and t[0].split('::')[-1] == 'BmiLGAR' and t[1] in offs:
                    reach = base(f.dem) in OKW or helper(m, f)
                    ctx.judge(reach, 'writers', m.loc(i), '%s replaces %s' % (base(f.dem), offs[t[1]]), (), 'writers')
def helper(m, f):
    """only called from the initialisation or destruction"""
    callers = [g for g in m.own() for b in g.blocks for i in b.insts if i.op in ('call', 'invoke') and isinstance(i.callee, irload.FRef) and i.callee.name == f.name]
    return bool(callers) and all(base(g.dem) in OKW - {'giuh_convolution_integral'} or helper(m, g) for g in callers)
def c03_end(ctx, m):
    """the end-of-run report reads the queue but does not change it"""
    f = m.fn('lgar_global_mass_balance')
    Ws, R, E = m.eff.summary(f.name)
    bad = [(t, o) for t, o in Ws if o[0] == 'param']
    ctx.judge(not bad, 'queue at the end', m.where(f), 'the end-of-run balance changes the routing queue or the model', (), 'queue at the end')
