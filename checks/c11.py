from harness import *
import bmi, util, upd, libmodel, conf, itertools
import c13, c12, c24
from c13 import setup, shapes, bottom, soilof, HYD
from c12 import walk, get, headof, Run, WF
from c23 import fronts, install
from c21 import possible, alive
from irload import FRef
from fractions import Fraction

EXPLAIN = ('Ownership analysis on the value graph. (1) Every function that inserts, deletes or walks fronts is analysed on every arrangement of up to the bound many fronts: at its return every front and every array is either released exactly once or still reachable, never both, and nothing released is accessed. '
           '(2) Wherever an allocation is stored in a member, the member\'s previous value must be null or released on that path. (3) Finalize followed by the destructor releases every owned member exactly once with the operation matching its allocation. '
           '(4) The driver releases what it allocates. (5) A pointer to a front obtained before a call that may delete fronts is not dereferenced after it in the update.')
ASSUME = ['arrangements of up to 3 fronts (thorough: 4)', 'one Initialize per Finalize', 'exceptional exits are not considered (they end the model)']
R_USE, R_LEAK = 'no access after release, no double release', 'no leak'
NEWOP = {'_Znwm': '_ZdlPv', '_Znam': '_ZdaPv', 'malloc': 'free', 'calloc': 'free', '_ZnwmRKSt9nothrow_t': '_ZdlPv', '_ZnamRKSt9nothrow_t': '_ZdaPv'}
def rel(op): return '_ZdlPv' if op.startswith('_ZdlPv') else '_ZdaPv' if op.startswith('_ZdaPv') else op
STRUCTS = ('model_state', 'BmiLGAR')

def check(ctx):
    ctx.rule('list operations: every front is released exactly once or reachable from the head, never both; nothing released is accessed')
    ctx.rule('a member holding an allocation is overwritten only after it was released (or when it is null)')
    ctx.rule('Finalize and the destructor release every owned member exactly once, with the matching operation')
    ctx.rule('no front pointer obtained before a call that may delete fronts is used after it')
    m = ctx.mod('STANDALONE'); hi = 4 if ctx.tier == 'thorough' else 3
    c13.POST = lambda r: heap(ctx, r)
    try:
        q = Quiet(ctx)
        for lay in shapes(2, hi): ctx.guard('merge', c13.merge, q, m, lay)
        for lay in shapes(2, hi): ctx.guard('layer crossing', c13.crosslayer, q, m, lay)
        for lay in shapes(2, hi): ctx.guard('domain crossing', c13.crossdomain, q, m, lay)
        for lay in shapes(2, hi): ctx.guard('drier front', c13.dry, q, m, lay)
        for lay in shapes(1, hi): ctx.guard('storage', c13.storage, q, m, lay)
    finally: c13.POST = None
    ctx.guard('list operations', lists, ctx, m, hi)
    for lay in shapes(1, hi): ctx.guard('movement', move, ctx, m, lay)
    for lay in shapes(1, hi): ctx.guard('surficial front', surficial, ctx, m, lay)
    own = {}
    for cf in ctx.configs(): ctx.guard('members', members, ctx, ctx.mod(cf), own)
    ctx.guard('finalise', finalise, ctx, m, own)
    ctx.guard('destructor', destructor, ctx, m, own)
    ctx.guard('driver', driver, ctx, m)
    for cf in ctx.configs(): ctx.guard('stale pointers', stale, ctx, ctx.mod(cf))

class Quiet:
    """context whose obligations are not ours"""
    def __init__(s, ctx): s.ctx = ctx
    def judge(s, ok, *a, **k): return ok
    def ok(s, *a): pass
    def need(s, c, msg): return s.ctx.need(c, msg)
    def count(s, *a): pass
    def sample(s, *a): pass
    def undecided(s, *a): pass

def reach(r, st, start):
    """root -> condition under which it is reachable through next"""
    out = {}
    def go(d, c, depth):
        for cond, p in (paths(d) if d.var is not None else [((), d.leaf)]):
            x = c
            for a, b in cond: x = band(x, bvar(a) if b else bnot(bvar(a)))
            if x is F: continue
            if not isinstance(p, Ptr): raise AnalysisError('list pointer')
            if p.root is None: continue
            if not isinstance(p.root, Obj): raise AnalysisError('list pointer of unknown origin')
            if depth > 12: raise AnalysisError('list does not end')
            old = out.get(p.root, F)
            if band(x, bnot(old)) is F: continue
            out[p.root] = bor(old, x)
            go(get(r, st, p, 'next', 'ptr'), x, depth + 1)
    for s in start: go(s, T, 0)
    return out
def allocs(I):
    """(op, object, pc) of every allocation still in the events"""
    return [(e.data[0], e.data[1], I.fullpc(e.pc, e.path), e.inst) for e in I.events if e.kind == 'alloc']
def heap(ctx, r, what=None, keep=(), nodes=None, arrays=()):
    I = r.I; m = r.m; W = m.where(r.f)
    what = what or '%s, layers %s' % (base(r.f.dem), getattr(r, 'lay', ''))
    uses(ctx, m, I, what)
    if r.s is None: return
    care = band(alive(I, r.s), I.assume)
    R = reach(r, r.s, [headof(r, r.s)] + list(keep))
    for p in (r.nodes if nodes is None else nodes):
        fr = I.freed.get(p.root, F); re_ = R.get(p.root, F)
        x = possible(band(care, band(bnot(fr), bnot(re_))))
        ctx.judge(x is None, R_LEAK, W, '%s: a front is neither in the list nor released%s' % (what, ' (when %s)' % util.showlits(x) if x else ''), (fr, re_), R_LEAK)
        x = possible(band(care, band(fr, re_)))
        ctx.judge(x is None, R_USE, W, '%s: a released front stays in the list%s' % (what, ' (when %s)' % util.showlits(x) if x else ''), (fr, re_), R_USE)
    for op, o, pc, inst in allocs(I):
        fr = I.freed.get(o, F); re_ = R.get(o, F)
        x = possible(band(care, band(pc, band(bnot(fr), bnot(re_)))))
        ctx.judge(x is None, R_LEAK, m.loc(inst), '%s: an allocation is neither kept nor released%s' % (what, ' (when %s)' % util.showlits(x) if x else ''), (fr, re_), R_LEAK, what)
    ops(ctx, m, I, what)
def uses(ctx, m, I, what):
    bad = False
    for kind, inst, root, c in I.uses:
        x = possible(band(c, I.assume))
        if x is None: continue
        bad = True
        ctx.judge(False, R_USE, m.loc(inst), '%s: %s is %s%s' % (what, getattr(root, 'name', 'an object'), 'released twice' if kind == 'double' else 'accessed after its release', ' (when %s)' % util.showlits(x) if x else ''), (c,), R_USE)
    if not bad: ctx.ok(R_USE, what)
def ops(ctx, m, I, what):
    made = {e.data[1]: e.data[0] for e in I.events if e.kind == 'alloc'}
    for e in I.events:
        if e.kind != 'free': continue
        for l in leaves(e.data[1]):
            if isinstance(l, Ptr) and l.root in made:
                ctx.judge(NEWOP[made[l.root]] == rel(e.data[0]) and l.off is ZERO, 'matching release', m.loc(e.inst), '%s: allocated with %s and released with %s' % (what, made[l.root], e.data[0]), (), 'matching release')

# ------------------------------------------------------------------ list operations
def lists(ctx, m, hi):
    made, gone = {}, {}
    for n in range(0, hi + 1):
        jobs = [('listDelete', lambda r: [leaf(r.nodes[0] if n else NULL)], 'all')]
        for k in range(1, n + 1): jobs.append(('listDeleteFront', lambda r, k=k: [leaf(num(k)), leaf(r.head)], None))
        jobs.append(('listInsertFirst', lambda r: [leaf(sym('d')), leaf(sym('t')), leaf(num(1)), leaf(num(1)), F, leaf(r.head)], None))
        for k in range(1, n + 1): jobs.append(('listInsertFront', lambda r, k=k: [leaf(sym('d')), leaf(sym('t')), leaf(num(k + 1)), leaf(num(1)), F, leaf(r.head)], None))
        jobs.append(('listCopy', lambda r: [leaf(r.nodes[0] if n else NULL), leaf(NULL)], 'copy'))
        for nm, args, mode in jobs:
            f = m.fn(nm, False)
            if f is None: continue
            r = c12.run(m, nm, n, args)
            if r.s is None: continue
            r.m = m; r.f = f
            for e in r.I.events:
                if e.kind == 'alloc': made[NEWOP[e.data[0]]] = e.inst
                elif e.kind == 'free' and any(isinstance(l, Ptr) and l.root in {p.root for p in r.nodes} for l in leaves(e.data[1])): gone[rel(e.data[0])] = e.inst
            if mode == 'all':
                uses(ctx, m, r.I, '%s of %d' % (nm, n)); ops(ctx, m, r.I, nm)
                for p in r.nodes:
                    fr = r.I.freed.get(p.root, F)
                    ctx.judge(possible(band(r.s.pc, bnot(fr))) is None, R_LEAK, m.where(f), 'listDelete of %d fronts leaves one unreleased' % n, (fr,), R_LEAK)
            else: heap(ctx, r, '%s of %d' % (nm, n), [r.ret] if mode == 'copy' else ())

    for o, i in gone.items(): ctx.judge(set(made) == {o}, 'matching release', m.loc(i), 'fronts are released with %s, which does not match their allocation (%s)' % (o, sorted(made)), (), 'matching release', 'fronts')
# ------------------------------------------------------------------ movement with every effect its callees can have on the list
PHYS = ('lgar_merge_wetting_fronts', 'lgar_wetting_fronts_cross_layer_boundary', 'lgar_wetting_front_cross_domain_boundary', 'lgar_fix_dry_over_wet_wetting_fronts')
def move_run(m, lay, wfd, site=None, drop=None):
    r = setup(m, lay, {'lgar_theta_mass_balance', 'lgar_calc_mass_bal', 'listPrint'}); n = len(lay); I = r.I
    S2 = Ptr(Obj('heap', 'state2', None)); old = fronts(m, n, 'old'); install(m, I, r.st, S2, old, layers=lay); r.old = old
    vol = Ptr(Obj('heap', 'vol', None)); aet = Ptr(Obj('heap', 'aet', None)); I.store(r.st, leaf(vol), leaf(sym('precip'))); I.store(r.st, leaf(aet), leaf(sym('aet')))
    f = r.f = m.fn('lgar_move_wetting_fronts')
    if len(f.params) != 12: raise AnalysisError('signature of lgar_move_wetting_fronts')
    dl = m.fn('listDeleteFront'); seen = []; r.done = 0
    for nm in PHYS + ('lgar_check_dry_over_wet_wetting_fronts',):
        g = m.fn(nm, False)
        if g is None: continue
        def h(I, inst, args, st, env, nm=nm):
            if nm == 'lgar_check_dry_over_wet_wetting_fronts': return bvar(atom('sym', 'dry%d' % inst.idx))
            site_ = (I.callstack, inst.idx, nm)
            if site_ not in seen: seen.append(site_)
            if site is not None and seen.index(site_) == site:
                v, s = I.call_function(dl, [leaf(num(drop)), leaf(r.head)], st, inst)
                if s is not None: st.mem = s.mem; r.done = 1
            return leaf(sym('flux')) if inst.ty.k != 'void' else None
        I.hooks[g.name] = h
    if site is not None: I.hooks[dl.name] = lambda I, inst, args, st, env: False      # one deletion per scenario
    r.ret, r.s = I.call_function(f, [leaf(sym('dt')), leaf(vol), leaf(num(wfd)), leaf(sym('oldmass')), leaf(num(r.L)), leaf(aet), leaf(r.cum), leaf(r.types), leaf(r.ff), leaf(r.head), leaf(old[0]), leaf(r.soils)], r.st)
    m.use(I); r.sites = len(seen)
    return r
def move(ctx, m, lay):
    n = len(lay)
    for wfd in sorted({1, lay.count(1)}):
        r = move_run(m, lay, wfd); heap(ctx, r, 'movement of fronts in layers %s' % lay, [leaf(r.old[0])], r.nodes + r.old)
        for s in range(r.sites):
            for k in range(1, n):
                q = move_run(m, lay, wfd, s, k)
                if q.done: heap(ctx, q, 'movement of fronts in layers %s, front %d merged away meanwhile' % (lay, k), [leaf(q.old[0])], q.nodes + q.old)
def surficial(ctx, m, lay):
    f = m.fn('lgar_create_surficial_front')
    dl = m.fn('listDeleteFront'); sig = [str(p.ty.k) for p in f.params]
    ctx.need(sig == SIG, 'signature of lgar_create_surficial_front: %s' % sig)
    def one(site=None, drop=None):
        r = setup(m, lay); I = r.I; r.f = f; seen = []; r.done = 0
        P = lambda n: Ptr(Obj('heap', n, None))
        for nm in PHYS:
            g = m.fn(nm, False)
            if g is None: continue
            def h(I, inst, args, st, env, nm=nm):
                site_ = (I.callstack, inst.idx, nm)
                if site_ not in seen: seen.append(site_)
                if site is not None and seen.index(site_) == site:
                    v, s = I.call_function(dl, [leaf(num(drop)), leaf(r.head)], st, inst)
                    if s is not None: st.mem = s.mem; r.done = 1
                return leaf(sym('flux')) if inst.ty.k != 'void' else None
            I.hooks[g.name] = h
        r.ret, r.s = I.call_function(f, [leaf(num(r.L)), leaf(P('pd')), leaf(P('vin')), leaf(sym('dry')), leaf(sym('th')), leaf(r.types), leaf(r.cum), leaf(r.ff), leaf(r.head), leaf(r.soils)], r.st); m.use(I)
        r.sites = len(seen)
        return r
    r = one(); heap(ctx, r, 'new surficial front over layers %s' % lay)
    for s in range(r.sites):
        for k in range(1, len(lay) + 1):
            q = one(s, k)
            if q.done: heap(ctx, q, 'new surficial front over layers %s, front %d merged away meanwhile' % (lay, k))
SIG = ['int', 'ptr', 'ptr', 'double', 'double', 'ptr', 'ptr', 'ptr', 'ptr', 'ptr']

# ------------------------------------------------------------------ members
def members(ctx, m, own):
    """(2): stores of allocations into members, in Initialize (one arbitrary configuration line, and after it) and Update"""
    # configuration reader and initialisation
    for name, runf in (('initialisation', init_run), ('update', update_run), ('reallocation', realloc_run), ('setting up the BMI object', bmi_run)):
        rec = []; runf(ctx, m, lambda *a: watch(ctx, m, name, rec, own, *a))
        ctx.need(rec or name == 'update', 'no allocation found in the ' + name)
def watch(ctx, m, name, rec, own, I, st, pd, v, inst):
    fresh = [l for l in leaves(v) if isinstance(l, Ptr) and isinstance(l.root, Obj) and l.root.kind == 'heap' and (l.root.inst is not None if hasattr(l.root, 'inst') else True) and l.root in I.made]
    for cond, p in (paths(pd) if pd.var is not None else [((), pd.leaf)]):
        if not isinstance(p, Ptr) or p.tag is None or p.tag[0] in (WF,) : continue
        fld = m.fname(p.tag)
        if fld == 'model_state.head': continue
        if fresh: own.setdefault(p.tag, set()).update(I.made[l.root] for l in fresh); rec.append(fld)
        elif p.tag not in own: continue
        c = I.fullpc(st.pc, I.callstack)
        for a, b in cond: c = band(c, bvar(a) if b else bnot(bvar(a)))
        old = I.load(st, leaf(p), 'ptr')
        for cc, q in (paths(old) if old.var is not None else [((), old.leaf)]):
            x = c
            for a, b in cc: x = band(x, bvar(a) if b else bnot(bvar(a)))
            if not isinstance(q, Ptr) or q.root is None or x is F: continue
            if isinstance(q.root, Obj) and q.root.kind != 'heap': continue
            if q.root in {l.root for l in leaves(v) if isinstance(l, Ptr)} : continue
            fr = I.freed.get(q.root, F)
            isnull = I.cmpv('eq', leaf(q), leaf(NULL))
            y = possible(band(x, band(bnot(fr), bnot(isnull))))
            if I.final: ctx.judge(y is None, 'overwritten while live', m.loc(inst), '%s: %s is overwritten while it still holds an allocation%s' % (name, fld, ' (when %s)' % util.showlits(y) if y else ''), (), 'overwritten while live', fld)
def prepare(I, cb):
    I.track_free(); I.made = {}; I.final = True
    ev = I.event
    def event(kind, st, data, inst):
        if kind == 'alloc': I.made[data[1]] = data[0]
        return ev(kind, st, data, inst)
    I.event = event; I.on_store = cb
def init_run(ctx, m, cb):
    I = m.interp(cut=set(conf.CUTS) - {'ReadVectorData'} | {'ReadVectorData', 'frozen_factor_hydraulic_conductivity'}, log=('alloc', 'free')); prepare(I, cb)
    f = m.fn('lgar_initialize'); st = State({}, T); S = Ptr(Obj('heap', 'state', None)); cs = Ptr(Obj('heap', 'cfg', None))
    libmodel.sstore(I, st, leaf(cs), leaf(Str('config.txt')))
    # value-initialised state: every member null
    t = m.m.struct('model_state')
    def walk(t, off, nm):
        for ft, o in zip(t.fields, t.offs):
            if ft.k == 'struct': walk(ft, off + o, irload.sname(ft))
            elif ft.k == 'ptr': I.store(st, leaf(Ptr(S.root, num(off + o), (nm, o))), leaf(NULL))
    walk(t, 0, 'model_state')
    v, s = I.call_function(f, [leaf(cs), leaf(S)], st); m.use(I)
    ctx.need(s is not None, 'initialisation returns')
    for e in I.events:
        if e.kind == 'free': pass
    ops(ctx, m, I, 'initialisation')
def update_run(ctx, m, cb):
    I = m.interp(cut=set(upd.CUTS), log=()); prepare(I, cb)
    n = [0]
    def copy(I, inst, args, st, env):
        o = I.objs.get((I.callstack, inst.idx))
        if o is None: o = I.objs[(I.callstack, inst.idx)] = Obj('heap', 'listCopy', None, None, inst)
        I.made[o] = 'list'
        return leaf(Ptr(o))
    def dele(I, inst, args, st, env): I.release(st, args[0], inst); return None
    I.hooks[m.fn('listCopy').name] = copy; I.hooks[m.fn('listDelete').name] = dele
    f = m.fn('BmiLGAR::Update'); st = State({}, T); upd.preset_units(m, I, st, upd.state_ptr(m)); I.FREEZE = 60
    for k, v in (('adaptive', 0), ('calib', 0), ('sft', 0), ('invalid', 0)): I.store(st, leaf(m.lv(upd.state_ptr(m), upd.STATE, 'lgar_bmi_params.' + upd.FLAGS[k])), leaf(num(v)))
    v, s = I.call_function(f, [leaf(bmi.THIS)], st); m.use(I)
def realloc_run(ctx, m, cb):
    I = m.interp(log=('alloc', 'free')); prepare(I, cb)
    f = m.fn('BmiLGAR::realloc_soil')
    v, s = I.call_function(f, [leaf(bmi.THIS)], State({}, T)); m.use(I)
def bmi_run(ctx, m, cb):
    I = m.interp(cut={'lgar_initialize'}, log=('alloc', 'free')); prepare(I, cb)
    f = m.fn('BmiLGAR::Initialize'); p = Ptr(Obj('heap', 'cfg', None)); st = State({}, T); libmodel.sstore(I, st, leaf(p), leaf(Str('config.txt')))
    o = m.lv(bmi.THIS, 'BmiLGAR', 'state'); I.store(st, leaf(o), leaf(NULL))
    v, s = I.call_function(f, [leaf(bmi.THIS), leaf(p)], st); m.use(I)

# ------------------------------------------------------------------ release
def owned_state(ctx, m, own, I, st):
    """a state in which every owned member holds an object of its own"""
    S = Ptr(Obj('heap', 'the model state', None)); objs = {}
    def put(t, off, nm, root):
        for ft, o in zip(t.fields, t.offs):
            if ft.k == 'struct': put(ft, off + o, irload.sname(ft), root)
            elif ft.k == 'ptr' and (nm, o) in own and own[(nm, o)] != {'list'} and not (nm, o) == m.tag('BmiLGAR', 'state'):
                x = Obj('heap', m.fname((nm, o)), None); objs[x] = (nm, o); I.store(st, leaf(Ptr(root, padd(off if isinstance(off, Poly) else num(off), num(o)), (nm, o))), leaf(Ptr(x)))
    put(m.m.struct('model_state'), 0, 'model_state', S.root); put(m.m.struct('BmiLGAR'), 0, 'BmiLGAR', bmi.THIS.root)
    I.store(st, leaf(m.lv(bmi.THIS, 'BmiLGAR', 'state')), leaf(S)); objs[S.root] = m.tag('BmiLGAR', 'state')
    return S, objs
def finalise(ctx, m, own):
    ctx.need(own, 'owned members')
    ctx.sample('owned members: ' + ', '.join(sorted(m.fname(t) for t in own)))
    for prev in (0, 2):
        I = m.interp(cut={'BmiLGAR::global_mass_balance', 'lgar_global_mass_balance', 'listPrint'}, log=('free',)); I.unroll = 6; I.track_free(); st = State({}, T)
        S, objs = owned_state(ctx, m, own, I, st)
        nodes = fronts(m, 2); install(m, I, st, S, nodes, (1, 1))
        old = fronts(m, prev, 'previous'); S2 = Ptr(Obj('heap', 'x', None)); install(m, I, st, S2, old, (1,) * prev)
        I.store(st, leaf(m.lv(S, upd.STATE, 'state_previous')), leaf(old[0] if old else NULL))
        f = m.fn('BmiLGAR::Finalize'); d = dtor(m)
        v, s = I.call_function(f, [leaf(bmi.THIS)], st); m.use(I)
        ctx.need(s is not None, 'Finalize returns')
        uses(ctx, m, I, 'Finalize')
        only = dict(I.freed)
        if d is not None:
            v, s2 = I.call_function(d, [leaf(bmi.THIS)], s); m.use(I); uses(ctx, m, I, 'Finalize, then the destructor')
        W = m.where(f)
        for x, tag in objs.items():
            fr = I.freed.get(x, F)
            ctx.judge(possible(bnot(fr)) is None, R_LEAK, W, '%s is not released by Finalize and the destructor' % m.fname(tag), (fr,), R_LEAK, m.fname(tag))
            want = {NEWOP[o] for o in own.get(tag, ()) if o in NEWOP}
            for e in I.events:
                if e.kind == 'free' and any(isinstance(l, Ptr) and l.root is x for l in leaves(e.data[1])):
                    ctx.judge(want == {rel(e.data[0])} and all(l.off is ZERO for l in leaves(e.data[1]) if isinstance(l, Ptr)), 'matching release', m.loc(e.inst), '%s is allocated with %s and released with %s' % (m.fname(tag), sorted(own[tag]), e.data[0]), (), 'matching release')
        for p in nodes + old:
            fr = only.get(p.root, F)
            ctx.judge(possible(bnot(fr)) is None, R_LEAK, W, 'a front of the %s is not released by Finalize' % ('column' if p in nodes else 'saved state'), (fr,), R_LEAK)
def dtor(m):
    c = [f for f in m.own() if base(f.dem) == 'BmiLGAR::~BmiLGAR' and f.blocks and not f.name.endswith('D0Ev')]
    return c[0] if c else None
def destructor(ctx, m, own):
    """an object that was never initialised"""
    d = dtor(m)
    if d is None: ctx.ok(R_USE, 'implicit destructor'); return
    I, st = bmi.ctor_state(m); I.track_free(); I.events.clear(); I.log = ('free',)
    v, s = I.call_function(d, [leaf(bmi.THIS)], st); m.use(I)
    for e in I.events:
        if e.kind != 'free': continue
        for c, l in (paths(e.data[1]) if e.data[1].var is not None else [((), e.data[1].leaf)]):
            ctx.judge(isinstance(l, Ptr) and l.root is None, R_USE, m.loc(e.inst), 'the destructor of an object that was never initialised releases %s' % util.short(l), (), R_USE, 'destructor after construction')

# ------------------------------------------------------------------ driver
def driver(ctx, m):
    d = c24.drive(ctx, m, ['forcing_file=' + c24.FORC], 3, Fraction(3), 1, track=True); I = d.I
    ctx.need(d.st is not None, 'driver'); uses(ctx, m, I, 'driver'); ops(ctx, m, I, 'driver')
    for op, o, pc, inst in allocs(I):
        if not irload.is_own(inst.block.fn): continue
        fr = I.freed.get(o, F); x = possible(band(pc, bnot(fr)))
        ctx.judge(x is None, R_LEAK, m.loc(inst), 'the driver does not release an array', (fr,), R_LEAK, 'driver: ' + o.name)

# ------------------------------------------------------------------ stale pointers
def stale(ctx, m):
    """functions which hold the address of the head: front pointers across calls that may delete fronts"""
    dele = {f.name for f in m.own() if base(f.dem) == 'listDeleteFront'}
    ctx.need(dele, 'listDeleteFront')
    may = set(dele); ch = True
    calls = {f.name: {i.callee.name for b in f.blocks for i in b.insts if i.op in ('call', 'invoke') and isinstance(i.callee, FRef)} for f in m.own()}
    while ch:
        ch = False
        for n, cs in calls.items():
            if n not in may and cs & may: may.add(n); ch = True
    off = m.off('model_state', 'head')
    for f in m.own():
        if not (f.file or '').endswith('bmi_lgar.cxx') and not (f.file or '').endswith('bmi_main_lgar.cxx'): continue
        fronts_ = []
        for b in f.blocks:
            for i in b.insts:
                if i.op == 'load' and i.ty.k == 'ptr' and headfield(m, i.ops[0], off): fronts_.append(i)
                elif i.op in ('call', 'invoke') and isinstance(i.callee, FRef) and (lambda g: g is not None and base(g.dem) in ('listFindFront', 'listDeleteFront', 'listInsertFirst', 'listInsertFront'))(m.m.funcs.get(i.callee.name)): fronts_.append(i)
        kills = [(b, k, i) for b in f.blocks for k, i in enumerate(b.insts) if i.op in ('call', 'invoke') and isinstance(i.callee, FRef) and i.callee.name in may]
        if not kills: continue
        for d in fronts_:
            der = derefs(f, d)
            bad = None
            for kb, kk, ki in kills:
                if ki is d: continue
                if not pathto(d.block, d.block.insts.index(d) + 1, ki, d): continue
                for u in der:
                    if pathto(kb, kk + 1, u, d): bad = (ki, u); break
                if bad: break
            ctx.judge(bad is None, 'stale front pointer', m.loc(d), bad is not None and 'a front obtained here is used at line %s after %s at line %s may have deleted it' % (bad[1].line, base(m.m.funcs[bad[0].callee.name].dem), bad[0].line), (), 'stale front pointer', '%s:%s' % (d.file, d.line))
def headfield(m, p, off):
    return isinstance(p, irload.Inst) and p.op == 'getelementptr' and getattr(p, 'gty', None) is not None and irload.sname(p.gty) == 'model_state' and gepoff(p) == off
def gepoff(p):
    try:
        idx = [o.v for o in p.ops[1:]]
        return p.gty.offs[idx[1]] if len(idx) == 2 and idx[0] == 0 else None
    except Exception: return None
def derefs(f, d):
    """instructions that access memory through d"""
    out = []; ptrs = {d}; ch = True
    while ch:
        ch = False
        for b in f.blocks:
            for i in b.insts:
                if i.op in ('getelementptr', 'bitcast') and i.ops and i.ops[0] in ptrs and i not in ptrs: ptrs.add(i); ch = True
                elif i.op == 'phi' and i not in ptrs and any(v in ptrs for v, _ in i.incoming): ptrs.add(i); ch = True
    for b in f.blocks:
        for i in b.insts:
            if i.op == 'load' and i.ops[0] in ptrs or i.op == 'store' and i.ops[1] in ptrs or i.op in ('call', 'invoke') and i is not d and isinstance(i.callee, FRef) and any(o in ptrs for o in i.ops if o is not None): out.append(i)
    return out
def pathto(b, k, target, avoid):
    """is target reachable from position k of b without executing avoid again?"""
    seen = set(); st = [(b, k)]
    while st:
        x, s = st.pop(); stop = False
        for i in x.insts[s:]:
            if i is target: return True
            if i is avoid: stop = True; break
        if stop: continue
        for y in x.succs:
            if y not in seen: seen.add(y); st.append((y, 0))
    return False
