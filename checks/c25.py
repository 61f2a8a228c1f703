from hyd import *
import hyd, random, harness
from c15 import demand
from c11 import Quiet
from c21 import possible
from c27 import naming, inline
import c17
from fractions import Fraction

EXPLAIN = ('By induction over the processes: initial column, new front, infiltration, movement, merging, crossing, removal of drier fronts, calibration. Each is analysed on every arrangement of up to the bound many fronts over the layers, starting from fronts '
           'whose moisture is within the range of their soil and whose head is not negative; the moisture and head of every front in the list it leaves are then bounded on every path by linear reasoning over the path conditions. '
           'A bound that cannot be proved is reported only with values of the quantities that break it. Functions that store the moisture of a front and were not analysed are listed as undecided.')
ASSUME = ['real-number arithmetic', 'arrangements of up to 4 fronts over up to 3 layers (thorough: 5)', 'residual below saturated moisture for every soil, also the calibrated values', 'the retention curve keeps moisture between residual and saturated (C14)',
          'ponded water is not negative, a new front has a positive depth (C02, C28)', 'heads that a non-converged moisture search would leave are not judged (C26)']
R1, R2, R3 = 'moisture in range', 'head not negative', 'every store analysed'

def check(ctx):
    ctx.rule('every front in the list after a process: residual <= moisture <= saturated moisture of the soil of its layer')
    ctx.rule('every front in the list after a process: head >= 0')
    ctx.rule('every function reachable from the model interface that stores the moisture of a front is analysed')
    m = ctx.mod('STANDALONE'); hi = 5 if ctx.tier == 'thorough' else 4
    done = set()
    def note(I): done.update(I.analysed)
    orig = c13.setup
    def armed(m, lay, cuts=()):
        r = orig(m, lay, cuts); arm(m, r.I); return r
    def post(r): note(r.I); fronts_ok(ctx, r)
    c13.POST = post; c13.setup = armed
    try:
        q = Quiet(ctx)
        for lay in shapes(2, hi): ctx.guard('merge', c13.merge, q, m, lay)
        for lay in shapes(2, hi): ctx.guard('layer crossing', c13.crosslayer, q, m, lay)
        for lay in shapes(2, hi): ctx.guard('domain crossing', c13.crossdomain, q, m, lay)
        for lay in shapes(2, hi): ctx.guard('drier front', c13.dry, q, m, lay)
    finally: c13.POST = None; c13.setup = orig
    def one(r): ctx.need(r.s is not None, 'does not return'); note(r.I); fronts_ok(ctx, r)
    ctx.guard('retention curve', curve, ctx, m)
    for L in range(1, 4): ctx.guard('initial column', lambda: one(hyd.initial(m, L)))
    found = {}
    for k in range(1, 4): ctx.guard('moisture search', search, ctx, m, k, found)
    for lay in shapes(1, hi):
        ctx.guard('infiltration', lambda: one(hyd.insert(m, lay, demand(lay))))
        ctx.guard('velocity', lambda: one(hyd.dzdt(m, lay)))
        ctx.guard('dry depth', lambda: one(hyd.drydepth(m, lay)))
        ctx.guard('surface front', lambda: one(hyd.surficial(m, lay)))
        ctx.guard('copy', copied, ctx, m, lay, note)
        ctx.guard('movement', moved, ctx, m, lay, note, found)
        ctx.guard('calibration', calibrated, ctx, m, lay, note)
    ctx.guard(R3, coverage, ctx, m, done)

# ------------------------------------------------------------------ bounds
def nums(lay, L, *ps):
    """every atom in the polynomials"""
    out = set()
    def go(p):
        for a in p.atoms():
            if a in out: continue
            out.add(a)
            for x in a.args:
                if isinstance(x, Poly) and a.kind == 'poly': go(x)
    for p in ps: go(p)
    return out
def neg_(p): return cmp_lt(p)          # p < 0
def lit(c): return tuple(util.forced(c))
POS = re.compile(r'^(pond|dry|dt|precip|psi\d+|oldpsi\d+|psi0|depth\d+|olddepth\d+|cum\d+|rain|vin|hp|pondmax)$')
def facts(lay, L, atoms):
    out = ()
    done = set()
    def rng(t, S):
        nonlocal out
        lo, hi = sym('theta_r.%d' % S), sym('theta_e.%d' % S)
        out += lit(bnot(neg_(psub(t, lo)))) + lit(bnot(neg_(psub(hi, t))))
        if S not in done: done.add(S); out += lit(neg_(psub(lo, hi)))
    for a in atoms:
        if a.kind == 'sym':
            q = re.match(r'^(?:old)?theta(\d+)$', a.args[0])
            if q: rng(patom(a), soilof(L, lay[int(q.group(1)) - 1]))
            if a.args[0] in FOUND: rng(patom(a), FOUND[a.args[0]])
            q = re.match(r'^theta_[er]\.(\d+)$', a.args[0])
            if q and int(q.group(1)) not in done: S = int(q.group(1)); done.add(S); out += lit(neg_(psub(sym('theta_r.%d' % S), sym('theta_e.%d' % S))))
            q = re.match(r'^cal_theta_[er](\d+)$', a.args[0])
            if q and a.args[0] not in done: done.update(('cal_theta_e' + q.group(1), 'cal_theta_r' + q.group(1))); out += lit(neg_(psub(sym('cal_theta_r' + q.group(1)), sym('cal_theta_e' + q.group(1)))))
            if POS.match(a.args[0]): out += lit(bnot(neg_(patom(a))))
        q = a.args if a.kind == 'fn' else ()
        if q and q[0] == PRE + 'calc_theta_from_h':
            hi, lo = q[5], q[6]
            out += lit(bnot(neg_(psub(patom(a), lo)))) + lit(bnot(neg_(psub(hi, patom(a)))))
        if q and q[0] == PRE + 'calc_h_from_Se': out += lit(bnot(neg_(patom(a))))
    return out
FOUND = {}
def positive(a): return a.kind == 'sym' and POS.match(a.args[0])
def products(ps):
    """monomials of non-negative quantities"""
    out = ()
    for p in ps:
        for mo in p.t:
            if len(mo) and (len(mo) > 1 or mo[0][1] != 1) and all(positive(a) for a, e in mo): out += lit(bnot(neg_(mkpoly({mo: Fraction(1)}))))
    return out
def times(fs, x):
    """the inequalities multiplied by a positive quantity"""
    out = ()
    for a, v in fs:
        if a.kind in ('lt0', 'le0'): c = cmp_lt(pmul(a.args[0], x), a.kind == 'lt0'); out += lit(c if v else bnot(c))
    return out
def value(p, env):
    s = 0.0
    for mo, c in p.t.items():
        x = float(c)
        for a, e in mo:
            v = atomval(a, env); e = float(e) if isinstance(e, Fraction) else value(e, env)
            x *= v ** e
        s += x
    return s
def atomval(a, env):
    v = env.get(a)
    if v is not None: return v
    if a.kind == 'poly': v = value(a.args[0], env)
    else: v = env['draw'](a)
    env[a] = v
    return v
def holds(a, v, env):
    if a.kind not in ('lt0', 'le0', 'eq0'): return True
    x = value(a.args[0], env)
    return ((x < 0) if a.kind == 'lt0' else (x <= 0) if a.kind == 'le0' else x == 0) == v
def witness(lay, L, ls, p):
    """values of the quantities under which the conditions hold and p < 0"""
    rnd = random.Random(7)
    for _ in range(3000):
        env = {}
        def get_(n): return atomval(atom('sym', n), env)
        def between(lo, hi):
            u = rnd.random()
            return lo if u < .1 else hi if u > .9 else lo + (hi - lo) * rnd.random()
        def draw(a):
            if a.kind == 'sym':
                n = a.args[0]; q = re.match(r'^(old)?theta(\d+)$', n)
                if q:
                    if q.group(1): return get_('theta' + q.group(2))
                    S = soilof(L, lay[int(q.group(2)) - 1]); return between(get_('theta_r.%d' % S), get_('theta_e.%d' % S))
                if n in FOUND: return between(get_('theta_r.%d' % FOUND[n]), get_('theta_e.%d' % FOUND[n]))
                if n.startswith(('theta_r', 'cal_theta_r')): return rnd.uniform(.01, .1)
                if n.startswith(('theta_e', 'cal_theta_e')): return rnd.uniform(.3, .6)
                q = re.match(r'^cum(\d+)$', n)
                if q: return (get_('cum%d' % (int(q.group(1)) - 1)) if int(q.group(1)) > 1 else 0) + rnd.uniform(5, 60)
                q = re.match(r'^(?:old)?depth(\d+)$', n)
                if q: return between(.01, 80)
                if re.match(r'^(old)?psi', n): return rnd.choice((0, rnd.uniform(0, 100), rnd.uniform(0, 3000)))
                if n in ('precip', 'pond', 'aet', 'vin'): return rnd.choice((0, rnd.uniform(0, .1), rnd.uniform(0, 3)))
                if n == 'dry': return rnd.uniform(.1, 20)
                return rnd.uniform(0, 1)
            q = a.args if a.kind == 'fn' else ('',)
            if q[0] == PRE + 'calc_theta_from_h': return between(value(q[6], env), value(q[5], env))
            if q[0] == PRE + 'calc_h_from_Se': return rnd.uniform(0, 2000)
            return rnd.uniform(-1, 2)
        env['draw'] = draw
        try:
            if value(p, env) >= -1e-9: continue
            if all(holds(a, v, env) for a, v in ls): return {k: v for k, v in env.items() if isinstance(k, Atom) and k.kind != 'poly'}
        except (ZeroDivisionError, OverflowError, TypeError): continue
    return None
def bounded(ctx, r, rule, d, care, W, msg, lay, L, extra=()):
    """the gated number d is never negative"""
    seen = set(); n = 0
    for ls, l in util.nonzero_paths(d, care, zero=lambda l: not isinstance(l, Poly) or l.const() is not None and l.const() >= 0):
        n += 1
        for l2 in util.openlits(tuple(ls) + (lit(cmp_lt(l)) if l.const() is None else ())):
            ps = [x.args[0] for x, _ in l2 if x.kind in ('lt0', 'le0', 'eq0')]
            fs = facts(lay, L, nums(lay, L, *ps)) + tuple(extra) + products(ps)
            if util.contradict(l2 + fs, 3): continue
            if any(atom('sym', 'dry') in p.atoms() for p in ps) and util.contradict(l2 + fs + times(fs, sym('dry')) + lit(neg_(pneg(sym('dry')))), 3): continue
            key = (l, rule)
            if key in seen: continue
            w = witness(lay, L, l2, l)
            if w is None: ctx.undecided(rule, '%s: %s: neither proved nor refuted (%s)' % (W, msg, util.short(l, 100))); continue
            seen.add(key)
            ctx.judge(False, rule, W, '%s, e.g. %s' % (msg, ', '.join('%s = %.3g' % (util.short(a, 40), v) for a, v in sorted(w.items(), key=lambda x: x[0].id)[:6])), (leaf(l),), rule)
    if not seen: ctx.ok(rule, '%s, layers %s' % (harness.base(r.f.dem), lay))
def fronts_ok(ctx, r, st=None, soil=None, extra=()):
    """moisture and head of the fronts in the list"""
    s = st or r.s
    if s is None: return
    m, I, lay, L = r.m, r.I, r.lay, r.L; W = m.where(r.f); pc0 = band(s.pc, I.assume); what = 'fronts in layers %s' % lay
    lim = soil or (lambda S: (leaf(sym('theta_r.%d' % S)), leaf(sym('theta_e.%d' % S))))
    def visit(d, c, depth):
        for cond, p in (paths(d) if d.var is not None else [((), d.leaf)]):
            x = c
            for a, b in cond: x = band(x, bvar(a) if b else bnot(bvar(a)))
            if not isinstance(p, Ptr) or p.root is None or possible(x) is None: continue
            if depth > 12 or not isinstance(p.root, Obj): raise AnalysisError('list')
            front(p, x); visit(get(r, s, p, 'next', 'ptr'), x, depth + 1)
    def front(p, c):
        ln = get(r, s, p, 'layer_num'); th = get(r, s, p, 'theta'); psi = get(r, s, p, 'psi_cm')
        th, psi, ln = restrict(th, c), restrict(psi, c), restrict(ln, c)
        for x in (th, psi, ln):
            if unresolved(x): ctx.undecided(R1, '%s: a front holds %s' % (W, util.short(x, 80))); return
        for j in range(1, L + 1):
            cj = band(c, apply1(lambda l: cmp_eq(psub(l, num(j))) if isinstance(l, Poly) else F, ln))
            if cj is F: continue
            lo, hi = lim(soilof(L, j)); nm = 'a front of layer %d' % j
            bounded(ctx, r, R1, apply2(psub, th, lo), cj, W, '%s: the moisture %s of %s can be below the residual moisture of its soil' % (what, util.short(th, 100), nm), lay, L, extra)
            bounded(ctx, r, R1, apply2(psub, hi, th), cj, W, '%s: the moisture %s of %s can exceed the saturated moisture of its soil' % (what, util.short(th, 100), nm), lay, L, extra)
        bounded(ctx, r, R2, psi, c, W, '%s: the head %s of a front can be negative' % (what, util.short(psi, 100)), lay, L, extra)
    visit(headof(r, s), pc0, 0)

def curve(ctx, m):
    """the retention curve itself: the published form is within the range, any other is sampled for a value outside"""
    import c14
    f, I, v, s = c14.call(m, 'calc_theta_from_h', [c14.H, c14.A, c14.M, c14.N, c14.E, c14.R]); rnd = random.Random(5); W = m.where(f)
    if all(l is c14.th_h(c14.H) or l is c14.E for l in leaves(v)): ctx.ok('retention curve', 'published form'); return
    bad = None
    for _ in range(4000):
        n = rnd.uniform(1.01, 5)
        env = {atom('sym', k): x for k, x in dict(alpha=10 ** rnd.uniform(-3, 0), n=n, m=1 - 1 / n, h=rnd.choice((0, 10 ** rnd.uniform(-6, 6))), theta_r=rnd.uniform(.01, .1), range=rnd.uniform(.1, .5)).items()}
        def draw(a): raise AnalysisError('retention curve depends on %s' % util.short(a, 60))
        env['draw'] = draw
        d = v
        try:
            while d.var is not None:
                if d.var.kind not in ('lt0', 'le0', 'eq0'): raise AnalysisError('retention curve tests %s' % util.short(d.var, 60))
                d = d.hi if holds(d.var, True, env) else d.lo
            x = value(d.leaf, env)
        except (ZeroDivisionError, OverflowError, TypeError): continue
        lo = env[atom('sym', 'theta_r')]; hi = lo + env[atom('sym', 'range')]
        if not isinstance(x, float) or not lo - 1e-9 <= x <= hi + 1e-9: bad = (env, x); break
    if bad is None: ctx.undecided('retention curve', '%s: not the published form, no value outside the range found' % W)
    else: ctx.judge(False, 'retention curve', W, 'the retention curve gives %.4g for %s' % (bad[1], ', '.join('%s = %.4g' % (a, x) for a, x in bad[0].items() if isinstance(a, Atom) and a.kind == 'sym')), (v,), 'retention curve')
# ------------------------------------------------------------------ processes
def search(ctx, m, k, found):
    """does the moisture search return a moisture of the soil it is given?"""
    found[k] = False
    r = hyd.solve(m, [1, 2, 3], k); S = soilof(3, k)
    ctx.need(r.s is not None, 'does not return')
    nxt = {}
    for rec in r.I.loops:
        for p, nx in rec.next.items():
            mu = rec.phis[p][0]
            for a in util.atoms_of(mu if isinstance(mu, DD) else leaf(mu)): nxt[a] = nx
    def ok(d, seen):
        for l in util.thawed(d):
            q = rel(l, 'calc_theta_from_h')
            if q: 
                if q[4] is not sym('theta_e.%d' % S) or q[5] is not sym('theta_r.%d' % S): return False
                continue
            a = next(iter(l.atoms()), None)
            if a is None or l is not patom(a) or a.kind not in ('mu', 'ite'): return False
            if a.kind == 'ite' or a in seen: continue
            if a not in nxt or not ok(nxt[a], seen | {a}): return False
        return True
    found[k] = ok(r.ret, frozenset())
def moved(ctx, m, lay, note, found):
    FOUND.clear(); first = {}; owner = {}; n = len(lay); L = lay[-1]
    def on(r, nm, inst, args, st, c):
        if nm == 'lgar_theta_mass_balance':
            k, S = args[0], args[1]
            if k.var is None and S.var is None and k.leaf.const() is not None and S.leaf.const() is not None and found.get(int(k.leaf.const())): FOUND['found%d' % c] = int(S.leaf.const())
            return leaf(sym('found%d' % c))
        if nm in PHYS and not first: first['st'] = st.copy()
    r = hyd.move(m, lay, demand(lay), None, on, 0, lambda r: naming(r, owner)); I = r.I; note(I)
    ctx.need(first, 'reorganisation of the list'); ctx.need(r.s is not None, 'does not return')
    what = 'fronts in layers %s' % lay; W = m.where(r.f)
    for s in (first['st'], r.s):
        care = band(s.pc, I.assume)
        for k, p in enumerate(r.nodes):
            S = soilof(L, lay[k])
            def written(d):
                for _ in range(8):
                    own = [a for a in util.atoms_of(d) if a in owner and owner[a][0] is p.root]
                    if not own: return d
                    for a in own: d = inline(d, a, owner[a][1])
                raise AnalysisError('values of a front')
            th = written(get(r, s, p, 'theta')); psi = get(r, s, p, 'psi_cm')
            if s is r.s and th is written(get(r, first['st'], p, 'theta')): continue
            bounded(ctx, r, R1, apply2(psub, th, leaf(sym('theta_r.%d' % S))), care, W, '%s: after movement the moisture %s of front %d can be below the residual moisture of its soil' % (what, util.short(th, 100), k + 1), lay, L)
            bounded(ctx, r, R1, apply2(psub, leaf(sym('theta_e.%d' % S)), th), care, W, '%s: after movement the moisture %s of front %d can exceed the saturated moisture of its soil' % (what, util.short(th, 100), k + 1), lay, L)
def copied(ctx, m, lay, note):
    f = m.fn('listCopy', False)
    if f is None or len(f.params) not in (1, 2): return
    r = hyd.base(m, lay); args = [leaf(r.nodes[0])] + ([leaf(NULL)] if len(f.params) == 2 else [])
    r = hyd.go(r, 'listCopy', args); note(r.I); ctx.need(r.s is not None, 'does not return')
    r.I.store(r.s, leaf(r.head), r.ret); fronts_ok(ctx, r)
def calibrated(ctx, m, lay, note):
    def pre(r): arm(m, r.I)
    def post(r, s, new):
        note(r.I)
        fronts_ok(ctx, r, s, lambda S: (new[S]['theta_r'], new[S]['theta_e']))
    c17.PRE, c17.POST = pre, post
    try: c17.apply_(Quiet(ctx), m, lay)
    finally: c17.PRE = c17.POST = None
def coverage(ctx, m, done):
    tag = m.tag(WF, 'theta'); roots = [f.name for f in m.own() if harness.base(f.dem).startswith('BmiLGAR::')]
    reach = set(); todo = list(roots)
    while todo:
        n = todo.pop()
        if n in reach or n not in m.eff.local: continue
        reach.add(n); todo += [c[0] for c in m.eff.local[n][2] if c[0]]
    for n in sorted(reach):
        st = [i for t, og, i in m.eff.local[n][0] if t == tag]
        if not st: continue
        nm = harness.base(m.m.funcs[n].dem)
        if n in done: ctx.ok(R3, nm)
        else: ctx.undecided(R3, '%s stores the moisture of a front and was not analysed' % nm)
