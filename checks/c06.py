from harness import *
import bmi, util, libmodel, c05
from effects import PURE_EXT, IO_EXT, NORETURN

EXPLAIN = ('Every BMI query method is evaluated on the gated value graph for symbolic names, grids and buffers; every memory cell it may write outside its own locals, result and the destination '
           'buffer must hold its old value again, every project function it reaches is checked with interprocedural mod/ref summaries, and it must not call any non-deterministic library function.')
ASSUME = ['destination buffers handed in by the caller do not overlap model storage']
NONDET = re.compile(r'^(rand|random|srand|drand48|time|clock|gettimeofday|clock_gettime|getpid|getenv|_ZNSt6chrono.*now.*|_ZNSt13random_device.*|_ZNSt.*mersenne.*|localtime|gmtime|tmpnam|mktemp)')
NAME = Sx('strof', atom('param', 'name'))

def queries(m):
    out = []
    for f in m.own():
        b = base(f.dem)
        if b.startswith(('BmiLGAR::Get', 'BmiLGAR::get_')) and f.blocks: out.append(f)
    return sorted(out, key=lambda f: f.dem)

def params_of(dem):
    s = re.sub(r'\[abi:cxx11\]', '', dem); s = s[s.index('(') + 1:s.rindex(')')]
    s = s.replace(libmodel.BS, 'string'); s = re.sub(r'std::__cxx11::basic_string<[^()]*?>>', 'string', s)
    return [x.strip() for x in s.split(',') if x.strip() and x.strip() != 'void']

def check(ctx):
    for cf in (ctx.configs() if ctx.tier == 'thorough' else ('STANDALONE',)):
        m = ctx.mod(cf)
        qs = queries(m)
        ctx.need(len(qs) >= 20, 'BMI query methods not found')
        ctx.rule('after a query every cell outside its result and the destination buffer has the value it had before')
        ctx.rule('no function reachable from a query writes a global, and none is a non-deterministic library function')
        for f in qs:
            if 'AtIndices' in f.dem:      # the stride depends on the name: one evaluation per name
                for n in bmi.INPUTS + bmi.OUTPUTS + bmi.CALIB + ['no such variable']: ctx.guard('pure query', pure, ctx, m, f, Str(n))
            else: ctx.guard('pure query', pure, ctx, m, f, NAME)
            ctx.guard('reachable effects', summary, ctx, m, f)
        ctx.rule('a value write changes only the variable written')
        I, st = bmi.ctor_state(m)
        for n in bmi.INPUTS + bmi.CALIB: ctx.guard('write', setter, ctx, m, n)

def pure(ctx, m, f, name):
    I = m.interp(log=('throw', 'abort', 'exit', 'assert', 'memcpy')); I.track_stores = True
    ps = params_of(f.dem); st = State({}, T)
    nsret = len(f.params) - 1 - len(ps)
    av = []; free = set()
    if nsret == 1: p = Ptr(atom('param', 'sret')); free.add(p.root); av.append(leaf(p))
    elif nsret != 0: raise AnalysisError('signature of ' + f.dem)
    av.append(leaf(bmi.THIS))
    for k, t in enumerate(ps):
        if t == 'string' or t.startswith('string'):
            p = Ptr(atom('param', 'str%d' % k)); libmodel.sstore(I, st, leaf(p), leaf(name)); av.append(leaf(p)); free.add(p.root)
        elif t.endswith('*'):
            p = Ptr(atom('param', 'buf%d' % k)); av.append(leaf(p))
            if not (t.startswith('int') and 'AtIndices' in f.dem): free.add(p.root)
        else: av.append(leaf(sym('arg%d' % k)))
    I.stores.clear()
    v, s = I.call_function(f, av, st); m.use(I)
    cells = {}
    for p, val, pc, inst, path, loops in I.stores:
        if isinstance(p.root, Obj) and p.root.kind in ('alloca', 'heap'): continue
        if p.root in free: continue
        if isinstance(p.root, Atom) and p.root.kind == 'ret': continue
        cells.setdefault(p, (inst, pc))
    for e in I.events:
        if e.kind == 'memcpy':
            for p in leaves(e.data[0]):
                if isinstance(p, Ptr) and p.root is not None and p.root not in free and not (isinstance(p.root, Obj) and p.root.kind in ('alloca', 'heap')) and not (isinstance(p.root, Atom) and p.root.kind == 'ret'): cells.setdefault(p, (e.inst, e.pc))
    bad = False
    for p, (inst, pc) in cells.items():
        same = False
        if s is not None and not util.deps(p):
            cls = ('STR',) if inst is None and ('STR',) in s.mem else I.cls_of(p, None)
            if cls != ('STR',):
                a, b = I.loadc(I.chain(s, cls), p, 'double'), I.loadc(I.initnode(cls), p, 'double')
                same = a is b or (a.var is None and b.var is None and isinstance(a.leaf, Poly) and isinstance(b.leaf, Poly) and iszero(psub(a.leaf, b.leaf)))
        if not same:
            bad = True
            ctx.judge(False, 'pure query', m.where(f), 'query writes %s at %s' % (m.fname(p.tag) if p.tag else repr(p)[:80], m.loc(inst)), [p])
    if not bad: ctx.ok('pure queries', base(f.dem))

def summary(ctx, m, f):
    W, R, E = m.eff.summary(f.name)
    bad = [(t, o) for t, o in W if o[0] == 'global' and not is_stream(o[1])]
    for t, o in bad: ctx.violation('reachable effects', m.where(f), 'query may write global %s' % irload_dem(o[1]))
    # member writes by project functions reached
    seen = set(); todo = [f.name]
    while todo:
        n = todo.pop()
        if n in seen or n not in m.eff.local: continue
        seen.add(n)
        for cn, ao, i, tg in m.eff.local[n][2]:
            if cn: todo.append(cn)
    nd = [e for e in E if NONDET.match(e)]
    for e in nd: ctx.violation('reachable effects', m.where(f), 'query result may depend on %s' % e)
    if not bad and not nd: ctx.ok('effect summaries', '%s: %d functions reachable' % (base(f.dem), len(seen)))

def is_stream(n): return n.startswith(('_ZSt4cout', '_ZSt4cerr', '_ZSt4clog', 'stdout', 'stderr'))
def irload_dem(n): return n

def setter(ctx, m, n):
    r = bmi.call(m, 'GetValuePtr', [('str', leaf(Str(n)))])
    if r.ret is None or r.ret.var is not None or not isinstance(r.ret.leaf, Ptr): raise AnalysisError('storage of ' + n)
    p = r.ret.leaf
    for meth, extra in (('SetValue', [leaf(c05.BUF)]), ('SetValueAtIndices', [leaf(c05.INDS), leaf(c05.LEN), leaf(c05.BUF)])):
        r = bmi.call(m, meth, [('str', leaf(Str(n)))] + extra, track=True)
        cp, other = c05.copies(m, r, None)
        bad = [x[0] for x in cp if x[0].root is not p.root] + [x[0] for x in other]
        # a member object shares its root with its neighbours: the offset must be the member's own
        if p.tag is not None: bad += [x[0] for x in cp if x[0].root is p.root and meth == 'SetValue' and not iszero(psub(x[0].off, p.off))]
        if bad: ctx.violation('write', '%s %s' % (m.where(r.f), n), '%s(%s) also writes %s' % (meth, n, m.fname(bad[0].tag) if bad[0].tag else repr(bad[0])[:80]))
        else: ctx.ok('value writes', '%s(%s)' % (meth, n))
