from harness import *
import bmi, util, upd, libmodel
from c23 import fronts, install

EXPLAIN = ('Every list operation the model uses is analysed for every list of up to the bound many fronts and every position, with the contents of the fronts as unknowns: the list afterwards, the numbers, every field, the result, and which cells were allocated and released are compared with the specification of the operation. '
           'The initial column and the creation of a front at the surface are analysed the same way.')
ASSUME = ['lists of up to 4 fronts (thorough: 8); the operations visit fronts only through next pointers, so longer lists repeat the same steps', 'memory allocation succeeds']
WF = 'wetting_front'
FLD = ('depth_cm', 'theta', 'psi_cm', 'K_cm_per_h', 'layer_num', 'to_bottom', 'dzdt_cm_per_h')
FL = {'depth_cm': 'double', 'theta': 'double', 'psi_cm': 'double', 'K_cm_per_h': 'double', 'layer_num': 'int', 'to_bottom': 'int', 'dzdt_cm_per_h': 'double', 'front_num': 'int'}

class Run: pass
def run(m, name, n, mk, cut=(), other=0, spare=0, skip=()):
    """analyse `name` on a list of n fronts; mk(r) gives the arguments"""
    r = Run(); I = r.I = m.interp(log=('alloc', 'free'), cut=set(cut)); I.unroll = n + other + spare + 3; I.track_free()
    r.m = m; r.f = m.fn(name); r.S = Ptr(Obj('heap', 'state', None)); r.nodes = fronts(m, n); r.old = []
    r.st = State({}, T); install(m, I, r.st, r.S, r.nodes)
    r.head = m.lv(r.S, upd.STATE, 'head')
    if other:
        S2 = Ptr(Obj('heap', 'state2', None)); r.old = fronts(m, other, 'old'); install(m, I, r.st, S2, r.old)
    for h in skip:
        if m.fn(h, True) is not None: I.hooks[m.fn(h).name] = lambda I, inst, args, st, env: None
    args = mk(r)
    if len(args) != len(r.f.params): raise AnalysisError('signature of ' + name)
    r.ret, r.s = I.call_function(r.f, args, r.st); m.use(I)
    return r
def walk(r, st, first, limit=20):
    """the list starting at pointer value first: list of Ptr; raises on a gated shape; None if cyclic"""
    out = []; h = first
    while True:
        if h.var is not None: raise AnalysisError('list shape depends on unknown values')
        p = h.leaf
        if not isinstance(p, Ptr): return None
        if p.root is None: return out
        if p.root in [x.root for x in out] or len(out) > limit: return None
        if not isinstance(p.root, Obj): return None
        out.append(p); h = get(r, st, p, 'next', 'ptr')
def get(r, st, p, f, ty=None):
    q = r.m.lv(p, WF, f)
    return r.I.loadc(r.I.chain(st, r.I.cls_of(q, None)), q, ty or FL[f])
def headof(r, st): return r.I.loadc(r.I.chain(st, r.I.cls_of(r.head, None)), r.head, 'ptr')

def check(ctx):
    ctx.rule('after every operation the list is finite, acyclic and numbered 1..n from the surface')
    ctx.rule('insert: one new front with the requested values, the others unchanged and in order; delete: exactly the requested front removed and released; copy: equal in every field, all cells new; find/length: the front with that number, the number of fronts')
    ctx.rule('no operation touches a cell it has released')
    N = range(0, 9) if ctx.tier == 'thorough' else range(0, 5)
    m = ctx.mod('STANDALONE')
    for n in N:
        ctx.guard('length', length, ctx, m, n)
        ctx.guard('find', find, ctx, m, n)
        ctx.guard('insert first', first, ctx, m, n)
        ctx.guard('insert', insert, ctx, m, n)
        ctx.guard('delete', delete, ctx, m, n)
        ctx.guard('copy', copy, ctx, m, n)
        ctx.guard('delete list', wipe, ctx, m, n)
        if n: ctx.guard('initial column', initial, ctx, m, n)
        if n: ctx.guard('surface front', surface, ctx, m, n)

def wf(ctx, r, rule, what, exp, st=None, numbers=True):
    """the list is exactly the cells exp, numbered 1..; other list properties"""
    m = r.m; W = m.where(r.f); st = st or r.s
    L = walk(r, st, headof(r, st))
    if L is None: ctx.judge(False, rule, W, '%s: the list is broken or cyclic' % what, (), rule); return None
    ctx.judge([p.root for p in L] == [p.root for p in exp], rule, W, '%s: the list holds %s instead of %s' % (what, [p.root.name for p in L], [p.root.name for p in exp]), (), rule, what)
    if numbers:
        nums = [get(r, st, p, 'front_num') for p in L]
        ctx.judge(all(x is leaf(num(k + 1)) for k, x in enumerate(nums)), rule, W, '%s: the fronts are numbered %s' % (what, [util.short(x) for x in nums]), tuple(nums), rule)
    return L
def unchanged(ctx, r, rule, what, cells, fields=FLD):
    bad = None
    for p in cells:
        for f in fields:
            a, b = get(r, r.st, p, f), get(r, r.s, p, f)
            if a is not b and bad is None: bad = (p, f, b)
    ctx.judge(bad is None, rule, r.m.where(r.f), bad and '%s: %s of %s becomes %s' % (what, bad[1], bad[0].root.name, util.short(bad[2], 80)), (bad[2],) if bad else (), rule)
def clean(ctx, r, rule, what, freed=(), alloc=0):
    W = r.m.where(r.f)
    for kind, inst, root, c in r.I.uses:
        ctx.judge(False, rule, r.m.loc(inst), '%s: %s' % (what, 'a front is released twice' if kind == 'double' else 'a released front is accessed'), (c,), rule)
    fr = {root for root, c in r.I.freed.items() if c is not F}
    ctx.judge(fr == {p.root for p in freed}, rule, W, '%s: %s released instead of %s' % (what, sorted(x.name for x in fr if isinstance(x, Obj)), sorted(p.root.name for p in freed)), (), rule)
    al = [e for e in r.I.events if e.kind == 'alloc']
    ctx.judge(len(al) == alloc, rule, W, '%s: %d cells allocated instead of %d' % (what, len(al), alloc), (), rule)
    for e in al: ctx.judge(e.data[2] is leaf(num(64)) or (e.data[2].var is None and e.data[2].leaf.const() is not None and e.data[2].leaf.const() >= r.m.m.struct(WF).size), rule, r.m.loc(e.inst), '%s: a front is allocated with %s bytes' % (what, util.short(e.data[2])), (e.data[2],), rule)

def length(ctx, m, n):
    r = run(m, 'listLength', n, lambda r: [leaf(r.nodes[0] if n else NULL)])
    ctx.judge(r.s is not None and r.ret is leaf(num(n)), 'length', m.where(r.f), 'the length of a list of %d is %s' % (n, util.short(r.ret) if r.s else 'not returned'), (r.ret,), 'length', '%d' % n)
    if r.s is not None: wf(ctx, r, 'length', 'length of %d' % n, r.nodes); unchanged(ctx, r, 'length', 'length of %d' % n, r.nodes)
def find(ctx, m, n):
    def one(key, other, exp, what):
        r = run(m, 'listFindFront', n, lambda r: [leaf(num(key)), leaf(r.nodes[0] if n else NULL), leaf(r.old[0] if other else NULL)], other=other)
        e = NULL if exp is None else (r.old if exp[0] == 'old' else r.nodes)[exp[1] - 1]
        ok = r.s is not None and r.ret.var is None and isinstance(r.ret.leaf, Ptr) and r.ret.leaf.root is e.root and (e.root is None or r.ret.leaf.off is ZERO)
        ctx.judge(ok, 'find', m.where(r.f), '%s gives %s' % (what, util.short(r.ret) if r.s is not None else 'nothing'), (r.ret,), 'find', what)
    for key in range(0, n + 2):
        one(key, 0, ('new', key) if 1 <= key <= n else None, 'front %d of %d' % (key, n))
    if n:
        for key in range(1, n + 2): one(key, n, ('old', key) if key <= n else None, 'front %d of the previous %d' % (key, n))
        one(n + 1, n + 1, ('old', n + 1), 'front %d of the previous %d' % (n + 1, n + 1))
SYM = [('nd', 'depth_cm'), ('nt', 'theta'), ('nl', 'layer_num'), ('nb', 'to_bottom')]
def newfront(ctx, r, rule, what, p):
    for s, f in SYM[:3]:
        v = get(r, r.s, p, f)
        ctx.judge(v is leaf(sym(s)), rule, r.m.where(r.f), '%s: %s of the new front is %s instead of the requested one' % (what, f, util.short(v, 80)), (v,) if v is not leaf(UNDEF) else (), rule)
    v = get(r, r.s, p, 'dzdt_cm_per_h')
    ctx.judge(v is leaf(ZERO), rule, r.m.where(r.f), '%s: the new front starts with velocity %s' % (what, util.short(v, 80)), (v,) if v is not leaf(UNDEF) else (), rule)
    v = r.I.boolof(get(r, r.s, p, 'to_bottom'))
    ctx.judge(v is r.flag, rule, r.m.where(r.f), '%s: the bottom flag of the new front is %s' % (what, util.short(v, 80)), (v,) if v is not leaf(UNDEF) else (), rule)
def args(num_, m, name):
    def mk(r):
        r.flag = bvar(atom('sym', 'nb'))
        return [leaf(sym('nd')), leaf(sym('nt')), leaf(num(num_)), leaf(sym('nl')), r.flag, leaf(r.head)]
    return mk
def newcell(r):
    al = [e.data[1] for e in r.I.events if e.kind == 'alloc']
    return Ptr(al[0]) if len(al) == 1 else None
def first(ctx, m, n):
    r = run(m, 'listInsertFirst', n, args(1, m, 'listInsertFirst')); what = 'insert before %d fronts' % n
    ctx.need(r.s is not None, what)
    p = newcell(r)
    clean(ctx, r, 'insert first', what, (), 1)
    if p is None: return
    if wf(ctx, r, 'insert first', what, [p] + r.nodes) is None: return
    newfront(ctx, r, 'insert first', what, p); unchanged(ctx, r, 'insert first', what, r.nodes)
def insert(ctx, m, n):
    for k in ([1] if n == 0 else range(2, n + 2)):
        r = run(m, 'listInsertFront', n, args(k, m, 'listInsertFront')); what = 'insert at %d of %d fronts' % (k, n)
        ctx.need(r.s is not None, what)
        p = newcell(r); clean(ctx, r, 'insert', what, (), 1)
        if p is None: continue
        if wf(ctx, r, 'insert', what, r.nodes[:k - 1] + [p] + r.nodes[k - 1:]) is None: continue
        newfront(ctx, r, 'insert', what, p); unchanged(ctx, r, 'insert', what, r.nodes)
        ctx.judge(r.ret.var is None and isinstance(r.ret.leaf, Ptr) and r.ret.leaf.root is p.root, 'insert', m.where(r.f), '%s returns %s instead of the new front' % (what, util.short(r.ret)), (r.ret,), 'insert')
    r = run(m, 'listInsertFront', n, args(n + 2, m, 'listInsertFront')); what = 'insert at %d of %d fronts' % (n + 2, n)
    if r.s is None: ctx.ok('insert', what + ' stops')
    else:
        wf(ctx, r, 'insert', what, r.nodes); clean(ctx, r, 'insert', what, (), 0)
        ctx.judge(r.ret is leaf(NULL), 'insert', m.where(r.f), '%s returns %s' % (what, util.short(r.ret)), (r.ret,), 'insert')
def delete(ctx, m, n):
    for k in range(1, n + 1):
        r = run(m, 'listDeleteFront', n, lambda r: [leaf(num(k)), leaf(r.head)]); what = 'delete front %d of %d' % (k, n)
        if r.s is None: ctx.judge(False, 'delete', m.where(r.f), '%s does not return' % what, (), 'delete'); continue
        rest = r.nodes[:k - 1] + r.nodes[k:]
        clean(ctx, r, 'delete', what, [r.nodes[k - 1]], 0)
        if wf(ctx, r, 'delete', what, rest) is None: continue
        unchanged(ctx, r, 'delete', what, rest)
        e = r.nodes[k] if k < n else NULL
        ctx.judge(r.ret.var is None and isinstance(r.ret.leaf, Ptr) and r.ret.leaf.root is e.root, 'delete', m.where(r.f), '%s returns %s instead of the front that followed it' % (what, util.short(r.ret)), (r.ret,), 'delete')
def copy(ctx, m, n):
    r = run(m, 'listCopy', n, lambda r: [leaf(r.nodes[0] if n else NULL), leaf(NULL)]); what = 'copy of %d fronts' % n
    ctx.need(r.s is not None, what)
    clean(ctx, r, 'copy', what, (), n)
    if wf(ctx, r, 'copy', what + ' (source)', r.nodes) is None: return
    unchanged(ctx, r, 'copy', what + ' (source)', r.nodes)
    L = walk(r, r.s, r.ret)
    ctx.judge(L is not None and len(L) == n, 'copy', m.where(r.f), '%s: the copy has %s fronts' % (what, len(L) if L is not None else 'no finite number of'), (r.ret,), 'copy', what)
    for a, b in zip(r.nodes, L or ()):
        ctx.judge(b.root not in [x.root for x in r.nodes], 'copy', m.where(r.f), '%s shares a front with its source' % what, (), 'copy')
        for f in FLD + ('front_num',):
            x, y = get(r, r.st, a, f), get(r, r.s, b, f)
            if f == 'to_bottom' and y is not leaf(UNDEF): x, y = r.I.boolof(x), r.I.boolof(y)
            ctx.judge(x is y, 'copy', m.where(r.f), '%s: %s of front %s is %s instead of %s' % (what, f, a.root.name[5:], util.short(y, 60), util.short(x, 60)), (y,) if y is not leaf(UNDEF) else (), 'copy')
def wipe(ctx, m, n):
    r = run(m, 'listDelete', n, lambda r: [leaf(r.nodes[0] if n else NULL)]); what = 'deleting a list of %d' % n
    ctx.need(r.s is not None, what)
    clean(ctx, r, 'delete list', what, r.nodes, 0)
def initial(ctx, m, n):
    """the initial column: one front per layer"""
    name = 'InitializeWettingFronts'; f = m.fn(name)
    cut = {'calc_theta_from_h', 'calc_Se_from_theta', 'calc_K_from_Se', 'calc_Se_from_h'}
    r = run(m, name, 0, lambda r: [leaf(num(n)), leaf(sym('psi0')), leaf(Ptr(atom('param', 'types'))), leaf(Ptr(atom('param', 'cum'))), leaf(Ptr(atom('param', 'ff'))), leaf(r.head), leaf(Ptr(atom('param', 'soils')))], cut, spare=n)
    what = 'initial column of %d layers' % n
    ctx.need(r.s is not None, what)
    L = walk(r, r.s, headof(r, r.s)); W = m.where(f)
    ctx.judge(L is not None and len(L) == n, 'initial column', W, '%s has %s fronts' % (what, len(L) if L is not None else 'no finite number of'), (), 'initial column', what)
    for k, p in enumerate(L or ()):
        want = {'front_num': leaf(num(k + 1)), 'layer_num': leaf(num(k + 1)), 'psi_cm': leaf(sym('psi0')), 'depth_cm': r.I.load(r.st, leaf(Ptr(atom('param', 'cum'), num(8 * (k + 1)))), 'double')}
        for fld, e in want.items():
            v = get(r, r.s, p, fld)
            ctx.judge(v is e, 'initial column', W, '%s: %s of front %d is %s instead of %s' % (what, fld, k + 1, util.short(v, 80), util.short(e, 80)), (v,) if v is not leaf(UNDEF) else (), 'initial column')
        v = r.I.boolof(get(r, r.s, p, 'to_bottom'))
        ctx.judge(v is T, 'initial column', W, '%s: front %d does not extend to the bottom of its layer' % (what, k + 1), (v,) if v is not leaf(UNDEF) else (), 'initial column')
def surface(ctx, m, n):
    """a new front at the surface"""
    name = 'lgar_create_surficial_front'; f = m.fn(name)
    names = [p.name for p in f.params]
    cut = {'calc_theta_from_h', 'calc_Se_from_theta', 'calc_K_from_Se', 'calc_Se_from_h', 'calc_h_from_Se', 'listPrint', 'lgar_dzdt_calc'}
    def mk(r):
        out = []
        for k, p in enumerate(f.params):
            if p.ty.k == 'ptr': out.append(leaf(r.head) if k == HEAD[0] else leaf(Ptr(atom('param', 'p%d' % k))))
            elif p.ty.k == 'int': out.append(leaf(sym('i%d' % k)))
            else: out.append(leaf(sym('a%d' % k)))
        return out
    HEAD = [next(k for k, p in enumerate(f.params) if getattr(p, 'name', '') and 'head' in str(p.name))] if any(getattr(p, 'name', '') and 'head' in str(p.name) for p in f.params) else [None]
    if HEAD[0] is None: raise AnalysisError('parameters of ' + name)
    r = run(m, name, n, mk, cut, skip=('lgar_merge_wetting_fronts', 'lgar_wetting_fronts_cross_layer_boundary'))
    what = 'new surface front above %d' % n
    ctx.need(r.s is not None, what)
    h = headof(r, r.s)
    ctx.need(all(isinstance(p, Ptr) and isinstance(p.root, Obj) for p in leaves(h)), 'head')
    W = m.where(f); R = 'surface front'
    field = lambda fld, ty=None: r.I.load(r.s, r.I.ap1(lambda p: m.lv(p, WF, fld), h), ty or FL[fld])
    if any(p.root is r.nodes[0].root for p in leaves(h)): raise AnalysisError('a front is not always created')
    v = field('next', 'ptr')
    ctx.judge(v is leaf(r.nodes[0]), R, W, '%s: it is followed by %s instead of the former first front' % (what, util.short(v, 80)), (v,), R, what)
    for fld, e in (('front_num', leaf(num(1))), ('layer_num', leaf(num(1))), ('depth_cm', leaf(sym('a3'))), ('dzdt_cm_per_h', leaf(ZERO))):
        v = field(fld)
        ctx.judge(v is e, R, W, '%s: its %s is %s' % (what, fld, util.short(v, 60)), (v,) if v is not leaf(UNDEF) else (), R)
    v = r.I.boolof(field('to_bottom'))
    ctx.judge(v is F, R, W, '%s: it is marked as lying at the bottom of its layer' % what, (v,), R)
    unchanged(ctx, r, R, what, r.nodes)
    for k, p in enumerate(r.nodes):
        v = get(r, r.s, p, 'front_num')
        ctx.judge(v is leaf(num(k + 2)), R, W, '%s: former front %d is numbered %s' % (what, k + 1, util.short(v, 60)), (v,), R)
        v = get(r, r.s, p, 'next', 'ptr')
        ctx.judge(v is leaf(r.nodes[k + 1] if k + 1 < n else NULL), R, W, '%s: former front %d is followed by %s' % (what, k + 1, util.short(v, 60)), (v,), R)
