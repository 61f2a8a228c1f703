"""the splitter of comma separated lists"""
from harness import *
import util, libmodel
NPOS = (num(-1), num(2**64 - 1))
def comma(s):
    """positions of the first comma in s as the code may write it"""
    return [fn('sfind', s, x, ZERO) for x in (Str(','), num(44))]
def has(d, s, v):
    """cofactor: s does (v) or does not contain a comma"""
    for q in comma(s):
        for a in list(d.sup):
            if a.kind == 'eq0' and a.args[0] in (padd(q, ONE), psub(q, num(2**64 - 1)), psub(q, num(2**32 - 1))): d = util.cofactor(d, a, not v)
    return d
def pushes(x, start):
    out = []
    while x is not start:
        if not (isinstance(x, Sx) and x.kind in ('vpush', 'vec')): return None
        if x.kind == 'vec':
            if isinstance(start, Sx) and start.kind == 'vec' and not start.args: return list(x.args) + out[::-1]
            return None
        out.append(x.args[1]); x = x.args[0]
    return out[::-1]
def run(ctx, m, f):
    R = 'splitter'; W = m.where(f)
    I = m.interp(log=())
    st = State({}, T); k = Ptr(atom('param', 'key')); out = Ptr(atom('param', 'out')); text = Sx('sym', 'TEXT')
    libmodel.sstore(I, st, leaf(k), leaf(text))
    ctx.need(len(f.params) == 2, 'signature of the list splitter')
    v, s = I.call_function(f, [leaf(out), leaf(k)], st); m.use(I)
    ctx.need(s is not None and len(I.loops) == 1 and I.loops[0].latch is not None, 'one loop over the list')
    fin = libmodel.vload(I, s, leaf(out)); r = I.loops[0]
    # the text left and the list so far
    vec = libmodel.vload(I, State(r.head, T), leaf(out)); nv = libmodel.vload(I, r.latch, leaf(out)); iv = libmodel.vload(I, r.pre, leaf(out))
    ctx.need(vec.var is None and isinstance(vec.leaf, Sx) and vec.leaf.kind == 'vecof', 'list variable')
    zs = [a for a in util.atoms_of(bor(r.latch.pc, T) if False else r.latch.pc) if isinstance(a, Sx) and a.kind == 'strof']
    zs = list(dict.fromkeys(zs))
    ctx.need(len(zs) == 1, 'text variable')
    z = zs[0]; zp = z.args[0].args[2]
    iz = I.loadc(I.chain(r.pre, ('STR',)), zp, 'str'); nz = I.loadc(I.chain(r.latch, ('STR',)), zp, 'str')
    ctx.judge(iz is leaf(text), R, W, 'the list does not start from the text given: %s' % util.short(iz), (iz,), R)
    q = None
    for x in comma(z):
        if any(a is next(iter(x.atoms())) for a in util.atoms_of((r.latch.pc, nz, nv))): q = x
    ctx.need(q is not None, 'position of the comma')
    goon = has(r.latch.pc, z, True); stop = has(r.latch.pc, z, False)
    ctx.judge(goon is T and stop is F, R, W, 'the splitting goes on while %s instead of while a comma is left' % util.short(r.latch.pc), (r.latch.pc,), R)
    ctx.need(nz.var is None and isinstance(nz.leaf, Sx) and nz.leaf.kind == 'substr' and nz.leaf.args[0] is z, 'text left: %s' % util.short(nz))
    rest = nz.leaf
    ctx.judge(rest.args[1] is padd(q, ONE) and rest.args[2] in NPOS, R, W, 'after a number the text from %s is used instead of the text after the comma' % util.short(rest.args[1]), (), R)
    first = fn('stod', Sx('substr', z, ZERO, q))
    last = fn('stod', rest); alone = fn('stod', text); mine = fn('stod', z)
    A = {}
    for b in (True, False):
        d = has(nv, rest, b); d = has(d, z, True)
        got = [pushes(l, vec.leaf) for l in leaves(d)]
        ctx.need(got and None not in got, 'list after an iteration: %s' % util.short(d))
        A[b] = got[0] if all(g == got[0] for g in got) else None        # depends on something else than the commas
    formA = A[True] == [first] and A[False] == [first, last]
    formB = A[True] == [first] and A[False] == [first]
    fin1 = has(fin, text, True); fin0 = has(fin, text, False)
    def same(d, start, want):
        d = has(d, z, False)
        if d.var is not None: raise AnalysisError('list at the end: %s' % util.short(d))
        return pushes(d.leaf, start) == want
    if formA: ok = same(fin1, vec.leaf, []) and iv is leaf(Sx('vec')) and (fin0 is leaf(Sx('vec', alone)))
    elif formB:
        ok = same(fin1, vec.leaf, [mine]) and (fin0 is leaf(Sx('vec', alone)) or same(fin0, vec.leaf, [mine])) and iv is leaf(Sx('vec'))
    else: ok = False
    strange = [a for a in util.atoms_of((fin, nv)) if isinstance(a, Sx) and a.kind in ('smod', 'sctor', 'scat', 'vmod', 'vctor')]
    ctx.need(ok or not strange, 'list values: %s' % strange[:2])
    ctx.judge(ok, R, W, 'the numbers of a list are not the texts between its commas: after a number %s, at the end %s' % (util.short(nv, 200), util.short(fin, 200)), (), R, util.short(nv, 200))
