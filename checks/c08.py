from harness import *
from c21 import possible
import bmi, util, libmodel, c06, c07
from taint import Taint

EXPLAIN = ('All writable globals and statics of the project and every write to them are enumerated with interprocedural mod/ref summaries; results of non-deterministic library functions are tracked '
           'through the gated value graph; uses of undefined locals, of undefined heap cells, and arrays whose elements are not all written after allocation are searched on the gated value graph of every function.')
ASSUME = ['entry 0 of a 1-based array is never read', 'console output is not a result']

def check(ctx):
    for cf in (ctx.configs() if ctx.tier == 'thorough' else ('STANDALONE',)):
        m = ctx.mod(cf)
        ctx.guard('global state', globals_, ctx, m)
        ctx.guard('non-determinism', nondet, ctx, m)
        ctx.guard('addresses', addresses, ctx, m)
        ctx.rule('no value that was never initialised reaches memory, a decision, a call or a result')
        own = {f.name for f in m.own()}
        for f in m.own():
            if f.blocks and '_GLOBAL__' not in f.dem and '__cxx_global' not in f.dem: ctx.guard('undefined value', undef, ctx, m, f, own)
        ctx.rule('every array is completely written (or value-initialised) after its allocation')
        ctx.guard('array initialisation', arrays, ctx, m)
        ctx.rule('every record is completely written (or value-initialised) after its allocation')
        ctx.guard('record initialisation', records, ctx, m)

INIT = re.compile(r'^(__cxx_global_var_init|_GLOBAL__)')
def globals_(ctx, m):
    ctx.rule('the only writable global or static of the project is the verbosity setting')
    ok = c07.gname(m)
    mut = {}
    for n, g in m.m.globals.items():
        if g.const or n in ok or n.startswith(('_ZSt', 'llvm.', '__dso', '_ZTV', '_ZTI', '_ZTS', '_ZGVNSt', '_ZNSt', '.str')) or n in ('stdout', 'stderr', 'stdin') or getattr(g, 'init', None) is None: continue
        mut[n] = g
    for n in sorted(mut):
        hits = writes(m, n)
        for f, i, how in hits: ctx.violation('global state', '%s' % (m.loc(i) if i is not None else m.where(f)), 'static or global %s is %s: state is shared between instances and updates' % (n, how))
        if not hits: ctx.ok('writable globals never written', n)
    # the verbosity setting itself: assigned by initialisation only
    for n in ok:
        for f, i, how in writes(m, n):
            if base(f.dem) == 'main' or reach(m, f.name, {x.name for x in m.own() if base(x.dem) == 'BmiLGAR::Update'}): ctx.violation('global state', m.loc(i), 'the verbosity setting is changed outside initialisation')
            else: ctx.ok('verbosity assigned at initialisation', m.loc(i))
    ctx.ok('globals scanned', '%d globals, %d writable' % (len(m.m.globals), len(mut)))

def reach(m, target, roots):
    seen = set(); todo = list(roots)
    while todo:
        n = todo.pop()
        if n == target: return True
        if n in seen or n not in m.eff.local: continue
        seen.add(n); todo += [c[0] for c in m.eff.local[n][2] if c[0]]
    return False

def writes(m, g):
    out = []
    for f in m.own():
        if not f.blocks or INIT.match(f.dem) or f.name.startswith(('__cxx_global', '_GLOBAL__')): continue
        w, r, calls = m.eff.local[f.name]
        for t, og, i in w:
            if ('global', g) in og: out.append((f, i, 'written'))
        for cn, ao, i, tg in calls:
            for k, a in enumerate(ao):
                if a and ('global', g) in a:
                    dem = m.m.funcs[cn].dem if cn in m.m.funcs else cn or ''
                    if cn and (cn.startswith(('llvm.memcpy', 'llvm.memmove')) and k == 1 or c07.PURE_EXT.match(cn) or c07.IO_EXT.match(cn)): continue
                    if cn in m.eff.local:
                        W = m.eff.summary(cn)[0]
                        if any(o == ('param', k) for t, o in W) and not dem.endswith('const'): out.append((f, i, 'changed by ' + base(dem)))
                        elif not m.m.funcs[cn].dem.startswith('std::') : pass
                        continue
                    if dem.endswith(' const') or re.search(r'operator(==|!=|<<|\+)', dem) and k > 0: continue
                    if re.search(r'basic_string|vector|map|set|list|deque', dem): 
                        if k == 0: out.append((f, i, 'changed by ' + base(dem)[-60:]))
                        continue
                    if cn and not cn.startswith(('llvm.', '__cxa', '_ZNSt8ios')): out.append((f, i, 'handed to ' + base(dem)[-60:]))
    return out

def nondet(ctx, m):
    ctx.rule('results of clocks, random generators, environment and process queries reach nothing but console output')
    n = 0
    free = c07.mkfree(m)
    own = {f.name for f in m.own()}
    for f in m.own():
        if not f.blocks: continue
        calls = [(cn, i) for cn, ao, i, tg in m.eff.local[f.name][2] if cn and (c06.NONDET.match(cn) or (cn in m.m.funcs and re.search(r'std::chrono::.*::now|std::random_device|mersenne_twister|linear_congruential', m.m.funcs[cn].dem)))]
        if not calls: continue
        n += 1
        src = lambda a: a.kind == 'ret' and (c06.NONDET.match(str(a.args[0])) is not None or 'random' in str(a.args[0]) or 'chrono' in str(a.args[0]))
        c07.func(ctx, m, f, set(), own - {f.name}, lambda nm: free(nm), src=src, what='the clock, randomness or the environment', rule='non-determinism')
    ctx.ok('functions calling non-deterministic library functions', '%d' % n)

def addresses(ctx, m):
    ctx.rule('no address is turned into a number other than for a pointer difference')
    bad = 0
    for f in m.own():
        for b in f.blocks:
            for i in b.insts:
                if i.op == 'ptrtoint':
                    users = [j for bb in f.blocks for j in bb.insts if i in j.ops]
                    if all(j.op == 'sub' and all(isinstance(o, irload.Inst) and o.op == 'ptrtoint' for o in j.ops) for j in users): continue
                    bad += 1; ctx.violation('addresses', m.loc(i), 'an address is used as a number')
    if not bad: ctx.ok('functions without address-dependent values', '%d functions' % len(m.own()))

def und(d, pc):
    d = restrict(d, pc) if pc is not F else d
    if any(l is UNDEF for l in leaves(d)): return True
    return any(a.kind == 'undefcond' for a in util.atoms_of(d))

def undef(ctx, m, f, own):
    I = m.interp(cut=own - {f.name}, log='*'); I.track_stores = True; wild = []
    def mon(I, st, inst, p, cond):
        if p is UNDEF or isinstance(p, Ptr) and isinstance(p.root, Atom) and p.root.kind == 'weird' and p.root.args[0] is UNDEF:
            c = I.fullpc(st.pc, I.callstack, 0)
            for a, b in cond: c = band(c, bvar(a) if b else bnot(bvar(a)))
            if c is not F and not I.loopstack and inst not in wild and possible(c) is not None: wild.append(inst)
    I.monitor = [mon]
    args = [leaf(Ptr(atom('param', base(f.dem), k))) if p.ty.k == 'ptr' else leaf(sym('arg%d' % k)) for k, p in enumerate(f.params)]
    v, st = I.call_function(f, args, State({}, T)); m.use(I)
    n = 0; bad = bool(wild)
    for i in wild: ctx.violation('undefined value', m.loc(i), 'memory is accessed through a pointer that was never initialised')
    badmu = set()
    for r in I.loops:
        for i, (mu, init) in r.phis.items():
            if i.ty.k == 'ptr' and all(l is UNDEF for l in leaves(restrict(init, r.outer_pc))) and possible(r.outer_pc) is not None:
                via = {i}
                for j in i.block.insts:     # the header runs right after the loop is entered
                    if j.op in ('getelementptr', 'bitcast') and j.ops and j.ops[0] in via: via.add(j)
                    elif j.op in ('load', 'store') and j.ops[-1 if j.op == 'store' else 0] in via:
                        bad = True; ctx.violation('undefined value', m.loc(j), 'memory is accessed through a pointer that was never initialised'); break
            if i.ty.k != 'ptr' and und(init, r.outer_pc):
                badmu |= {a for a in util.atoms_of(mu) if a.kind == 'mu' and a.args[1] != 'iter'}
    def hit(d, pc):
        for a in badmu:     # a truth value chosen by a variable that is not set yet matters only if it changes the value
            if any(a is x for x in d.sup) and ite(pc, restrict(d, bvar(a)), leaf(ZERO)) is ite(pc, restrict(d, bnot(bvar(a))), leaf(ZERO)): d = restrict(d, bvar(a))
        return und(d, pc) or (badmu and any(a in badmu for a in util.atoms_of(d)))
    for p, val, pc, inst, path, loops in I.stores:
        if isinstance(p.root, Obj) and p.root.kind == 'alloca': continue
        n += 1
        if hit(val, pc): bad = True; ctx.violation('undefined value', m.loc(inst), 'a value that may never have been initialised is stored in %s' % (m.fname(p.tag) if p.tag else 'memory'))
    for e in I.events:
        n += 1
        if e.kind == 'io' or e.kind == 'ioin': continue
        if any(a.kind == 'undefcond' or a in badmu for a in util.atoms_of(e.pc)): bad = True; ctx.violation('undefined value', m.loc(e.inst), '%s depends on a value that was never initialised' % e.kind)
        if e.kind == 'cut':
            for k, a in enumerate(e.data[1]):
                if a is not None and hit(a, e.pc): bad = True; ctx.violation('undefined value', m.loc(e.inst), 'argument %d of %s may never have been initialised' % (k + 1, base(m.m.funcs[e.data[0]].dem)))
    if v is not None and f.ret.k != 'void' and hit(v, st.pc): bad = True; ctx.violation('undefined value', m.where(f), 'the result may never have been initialised')
    if not bad: ctx.ok('functions free of undefined values', '%s: %d uses' % (base(f.dem), n))

# ------------------------------------------------------------------ arrays
def roots(m):
    """(function, functions to look into)"""
    out = []
    for f in m.own():
        if not f.blocks: continue
        if any(c[0] in ('_Znam', 'malloc', 'calloc', '_Znwm') for c in m.eff.local[f.name][2]): out.append(f)
    return out

def arrays(ctx, m):
    own = {f.name for f in m.own()}
    done = set()
    # functions that allocate are looked into from their callers (so that a helper may allocate and the caller may fill)
    alloc = {f.name for f in roots(m)}
    callers = {}
    for f in m.own():
        if f.blocks:
            for c in m.eff.local[f.name][2]:
                if c[0] in alloc: callers.setdefault(c[0], set()).add(f.name)
    LL = {n for n in alloc if any('wetting_front' in str(i.aty if i.op == 'alloca' else '') for i in ())}
    skip = set()
    for f in roots(m):
        look = {f.name}
        todo = [f]
        if not stored_here(m, f) and callers.get(f.name): continue      # allocation helper: analysed from its callers
        run(ctx, m, f, own, alloc, done)
    for n in sorted({c for a in alloc for c in callers.get(a, ())}):
        run(ctx, m, m.m.funcs[n], own, alloc, done)

def stored_here(m, f):
    return base(f.dem) not in ('BmiLGAR::realloc_soil',)

def elemsize(m, f, obj, I):
    s = {p_[0] for p_ in ()}
    return None

def run(ctx, m, f, own, alloc, done):
    if f.name in done: return
    done.add(f.name)
    helpers = {n for n in alloc if n != f.name and base(m.m.funcs[n].dem) not in ('InitFromConfigFile', 'lgar_initialize', 'BmiLGAR::Initialize') and len(m.m.funcs[n].blocks) <= 12}
    I = m.interp(cut=own - {f.name} - helpers, log=('alloc', 'memset', 'cut', 'free', 'memcpy')); I.track_stores = True
    args = [leaf(Ptr(atom('param', base(f.dem), k))) if p.ty.k == 'ptr' else leaf(sym('arg%d' % k)) for k, p in enumerate(f.params)]
    v, st = I.call_function(f, args, State({}, T)); m.use(I)
    rec = util.recs(I)
    for e in I.events:
        if e.kind != 'alloc': continue
        name, obj, size = e.data
        if name == 'calloc': ctx.ok('zeroed arrays', m.loc(e.inst)); continue
        st_ = [s for s in I.stores if s[0].root is obj]
        if any(s[0].tag is not None for s in st_): continue       # a record
        esz = {s[3].ops[0].ty.size for s in st_ if s[3] is not None and s[3].op == 'store'}
        whole = False
        for x in I.events:
            if x.kind == 'memset' and any(isinstance(l, Ptr) and l.root is obj for l in leaves(x.data[0])):
                n = x.data[2]
                if n is size or n.var is None and size.var is None and iszero(psub(n.leaf, size.leaf)): whole = True
            if x.kind in ('cut',) and any(a is not None and any(isinstance(l, Ptr) and l.root is obj for l in leaves(a)) for a in x.data[1]):
                W = m.eff.summary(x.data[0])[0]
                ks = [k for k, a in enumerate(x.data[1]) if a is not None and any(isinstance(l, Ptr) and l.root is obj for l in leaves(a))]
                if any(o[0] == 'param' and o[1] in ks for t, o in W): whole = True        # filled by the callee (array handed out)
            if x.kind == 'memcpy' and any(isinstance(l, Ptr) and l.root is obj for l in leaves(x.data[0])):
                n = x.data[2]
                if n is size or n.var is None and size.var is None and iszero(psub(n.leaf, size.leaf)): whole = True
        if whole: ctx.ok('value-initialised or filled arrays', m.loc(e.inst)); continue
        if size.var is not None: ctx.undecided('array initialisation', 'gated array size at ' + m.loc(e.inst)); continue
        if len(esz) == 0:
            if size.leaf.const() is not None: continue           # a record or buffer, see records
            if v is not None and any(isinstance(l, Ptr) and l.root is obj for l in leaves(v)): continue   # handed to the caller
            if any(l is not None and isinstance(l, Ptr) and l.root is obj for s in I.stores for l in leaves(s[1])): ctx.violation('array initialisation', m.loc(e.inst), 'the array allocated here is never initialised')
            continue
        if len(esz) != 1: raise AnalysisError('mixed element sizes at ' + m.loc(e.inst))
        sz = esz.pop()
        n = pscale(size.leaf, Fraction(1, sz))
        ranges = []; dark = False
        for p, val, pc, inst, path, loops in st_:
            got = cover(rec, e, p.off, pc, loops, sz, lambda r, pc: listwalk(m, I, r, pc)); dark = dark or got is None; ranges += got or []
        cur = None; ok = False
        for start in (ZERO, ONE):
            cur = start; used = set(); prog = True
            while prog and not iszero(psub(cur, n)):
                prog = False
                for k, (a, c) in enumerate(ranges):
                    if k not in used and iszero(psub(a, cur)): cur = padd(cur, c); used.add(k); prog = True; break
            if iszero(psub(cur, n)): ok = True; break
            # the remaining element count may be written by a loop whose count is the loaded length itself
        if dark and not ok: ctx.undecided('array initialisation', 'a loop filling the array allocated at ' + m.loc(e.inst)); continue
        ctx.judge(ok, 'array initialisation', m.loc(e.inst), 'elements [%s, %s) of the array allocated here are not initialised (initialised: %s)' % (util.short(cur, 60), util.short(n, 60), '; '.join('%s+%s' % (util.short(a, 40), util.short(c, 40)) for a, c in ranges)[:300]), (), 'arrays completely written', '%s: %s elements' % (m.loc(e.inst), util.short(n, 80)))

def cover(rec, e, off, pc, loops, sz, walk=None):
    """index ranges (start, count) written by one store site, relative to the allocation event e; None if not understood"""
    ls = [k for k in loops if k not in e.loops]
    if len(e.loops) and loops[:len(e.loops)] != e.loops: 
        # the store lies outside the loop of the allocation: treat loops from the outermost one not shared
        pass
    off = pscale(off, Fraction(1, sz))
    if not ls:
        return [(off, ONE)] if band(e.pc, bnot(pc)) is F or pc is T else []
    rs = [rec.get(k) for k in ls]
    if any(r is None for r in rs): return None
    # outer condition of the outermost loop must hold whenever the allocation happened
    r0 = rs[0]
    inner = rs[-1]
    N = util.trip(inner, pc) if walk is None else (util.trip(inner, pc) or walk(inner, pc))
    if N is None: return None
    ki = util.coef(off, util.itatom(inner.key))
    if ki is None: return None
    if abs(ki[0]) != 1: return []
    start = ki[1] if ki[0] > 0 else padd(ki[1], psub(ONE, N))
    if len(rs) == 1: return [(start, N)]
    if len(rs) == 2:
        o = rs[0]
        M = util.trip(o, inner.outer_pc)
        if M is None: return None
        # start = b + F*it_o with F == N
        ito = patom(util.itatom(o.key))
        b = psub(start, pmul(N, ito))
        if any(a is util.itatom(o.key) for a in b.atoms()): return None
        return [(b, pmul(N, M))]
    return None

def listwalk(m, I, r, pc):
    """number of iterations of a loop that visits every element of a list whose length was taken before"""
    nx = m.tag('wetting_front', 'next')
    for i, (mu, init) in r.phis.items():
        if i.ty.k != 'ptr' or mu.var is not None or not isinstance(mu.leaf, Ptr): continue
        if band(pc, bvar(atom('eqp', Ptr(mu.leaf.root, mu.leaf.off), NULL))) is not F or pc.var is not None and len(pc.sup) > 1: continue
        ws = [w for w, b in i.incoming if b in r.loop.blocks]
        if len(ws) != 1 or not isinstance(ws[0], irload.Inst) or ws[0].op != 'load': continue
        g = ws[0].ops[0]
        if not isinstance(g, irload.Inst) or g.op != 'getelementptr' or g.ops[0] is not i or getattr(g.gty, 'k', '') != 'struct' or g.gty.offs[int(g.ops[-1].v)] != nx[1]: continue
        for e in I.events:
            if e.kind == 'cut' and base(m.m.funcs[e.data[0]].dem) == 'listLength' and e.data[1][0] is init: return patom(atom('res', e.data[2])) if not isinstance(e.data[2], Poly) else e.data[2]
    return None

def records(ctx, m):
    """single objects: every member is written, in the allocating function or in each of its callers"""
    own = {f.name for f in m.own()}
    def stores(f, look):
        I = m.interp(cut=own - look, log=('alloc', 'memset')); I.track_stores = True
        args = [leaf(Ptr(atom('param', base(f.dem), k))) if p.ty.k == 'ptr' else leaf(sym('arg%d' % k)) for k, p in enumerate(f.params)]
        I.call_function(f, args, State({}, T)); m.use(I)
        return I
    def missing(I, e):
        obj = e.data[1]
        tags = {s[0].tag[0] for s in I.stores if s[0].root is obj and s[0].tag is not None}
        tags = {t for t in tags if m.m.struct(t) is not None and m.m.struct(t).size == e.data[2].leaf.const()}
        if len(tags) != 1: return None, None
        t = tags.pop(); miss = []
        for o, n in m.fields(t).items():
            d = F
            for p, val, pc, inst, path, loops in I.stores:
                if p.root is obj and p.tag == (t, o): d = bor(d, pc if path == e.path else T)
            if band(e.pc, bnot(d)) is not F: miss.append(n)
        return t, miss
    for f in roots(m):
        I = stores(f, {f.name})
        for e in I.events:
            if e.kind != 'alloc' or e.data[2].var is not None or e.data[2].leaf.const() is None: continue
            obj = e.data[1]
            if any(x.kind == 'memset' and any(isinstance(l, Ptr) and l.root is obj for l in leaves(x.data[0])) for x in I.events) or e.data[0] == 'calloc': ctx.ok('value-initialised records', m.loc(e.inst)); continue
            t, miss = missing(I, e)
            if t is None: continue
            if not miss: ctx.ok('records completely written', m.loc(e.inst)); continue
            def up(chain, depth):
                """callers that leave members unwritten and are not completed by all of their own callers"""
                out = []
                for g in [g for g in m.own() if g.blocks and g.name not in chain and any(c[0] == chain[-1] for c in m.eff.local[g.name][2])]:
                    J = stores(g, set(chain) | {g.name}); bad = set()
                    for x in J.events:
                        if x.kind == 'alloc' and x.inst is e.inst:
                            t2, ms = missing(J, x); bad |= set(ms or ())
                    if not bad: ctx.ok('records completely written', m.where(g)); continue
                    over = up(chain + (g.name,), depth + 1) if depth < 4 else None
                    if over is None or over or not any(c[0] == g.name for h in m.own() if h.blocks for c in m.eff.local[h.name][2]): out += over or [(g, bad)]
                return out
            for g, bad in up((f.name,), 1):
                ctx.judge(False, 'record initialisation', m.where(g), 'members %s of the %s allocated at %s are initialised neither there nor here' % (', '.join(sorted(bad)), t, m.loc(e.inst)), (), 'records')
