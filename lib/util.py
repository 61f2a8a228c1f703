"""Shared reasoning over gated values: facts, integer bounds of loops, implication of linear inequalities."""
from fractions import Fraction
from val import *
from interp import deps  # re-exported

def conj(d):
    """conjuncts of a boolean diagram that is a cube: [(atom, bool)] or None"""
    out = []
    while d.var is not None:
        if d.hi is F: out.append((d.var, False)); d = d.lo
        elif d.lo is F: out.append((d.var, True)); d = d.hi
        else: return None
    return out if d is T else None

def forced(d):
    """literals that hold on every path to True"""
    out = []
    sup = d.sup
    for a in sup:
        if band(d, bnot(bvar(a))) is F: out.append((a, True))
        elif band(d, bvar(a)) is F: out.append((a, False))
    return out

def lit_le(a, v, integer=True):
    """literal -> list of ('le', p) meaning p <= 0, ('lt', p), ('eq', p), ('ne', p)"""
    if a.kind not in ('lt0', 'le0', 'eq0'): return None
    p = a.args[0]
    if a.kind == 'eq0': return ('eq', p) if v else ('ne', p)
    if a.kind == 'lt0': r = ('lt', p) if v else ('le', pneg(p))
    else: r = ('le', p) if v else ('lt', pneg(p))
    if integer and r[0] == 'lt': r = ('le', padd(r[1], ONE))
    return r

def coef(p, a):
    """p = c*a + rest with a not in rest; (c Poly-const Fraction, rest) or None"""
    c = Fraction(0); rest = {}
    for m, k in p.t.items():
        here = [e for x, e in m if x is a]
        if here:
            if len(m) != 1 or here[0] != 1: return None
            c += k
        else: rest[m] = k
    from val import mkpoly
    return c, mkpoly(rest)

def iter_upper(pc, it):
    """integer upper bounds of the atom `it` implied by pc: list of Poly"""
    out = []
    for a, v in forced(pc):
        r = lit_le(a, v)
        if r is None: continue
        k = coef(r[1], it)
        if k is None or k[0] == 0: continue
        c, rest = k
        if r[0] == 'le' and c > 0: out.append(pscale(pneg(rest), 1 / c))       # it <= -rest/c
        if r[0] == 'ne': out.append(psub(pscale(pneg(rest), 1 / c), ONE))        # leaves when it reaches -rest/c
    return out

def substdd(d, f, memo=None):
    """substitute atoms inside the leaves (and gates) of a diagram"""
    memo = {} if memo is None else memo
    def go(d):
        r = memo.get(d.id)
        if r is None:
            if d.var is None: r = leaf(psubst(d.leaf, f)) if isinstance(d.leaf, Poly) else d
            else:
                h, l = go(d.hi), go(d.lo); a = d.var
                c = None
                if a.kind in ('lt0', 'le0', 'eq0'):
                    q = psubst(a.args[0], f)
                    c = cmp_lt(q, True) if a.kind == 'lt0' else cmp_lt(q, False) if a.kind == 'le0' else cmp_eq(q)
                else:
                    q = psubst(patom(a), f)
                    if len(q.t) == 1:
                        (m, k), = q.t.items()
                        if k == 1 and len(m) == 1 and m[0][1] == 1: c = bvar(m[0][0])
                if c is None: c = bvar(a)
                r = ite(c, h, l)
            memo[d.id] = r
        return r
    return go(d)

def canon(d):
    """the trip count of a loop does not depend on the call path by which a query reached it"""
    mus = {a: patom(atom('trips', a.args[0][1])) for a in atoms_of(d) if a.kind == 'mu' and a.args[1] == 'iter'}
    return substdd(d, mus.get) if mus else d

def positive(d, pos):
    """gates simplified by dividing out factors known to be positive"""
    from val import mkpoly
    pos = list(pos); memo = {}
    def red(p):
        for a in pos:
            es = [dict(m).get(a, 0) for m in p.t]
            if not es or not all(isinstance(e, (int, Fraction)) for e in es): continue
            k = min(es)
            if k == 0: continue
            q = {}
            for m, c in p.t.items():
                e = dict(m); n = e.get(a, 0) - k
                if n == 0: e.pop(a, None)
                else: e[a] = n
                q[tuple(sorted(e.items(), key=lambda x: x[0].id))] = c
            p = mkpoly(q)
        return p
    def go(d):
        if d.var is None: return d
        r = memo.get(d.id)
        if r is None:
            a = d.var; c = None
            if a.kind in ('lt0', 'le0', 'eq0'):
                q = red(a.args[0])
                if q is not a.args[0]: c = cmp_lt(q, True) if a.kind == 'lt0' else cmp_lt(q, False) if a.kind == 'le0' else cmp_eq(q)
            r = memo[d.id] = ite(c if c is not None else bvar(a), go(d.hi), go(d.lo))
        return r
    return go(d)

def eqdd(a, b, care=T):
    """are two gated numbers equal wherever care holds (algebraically, exact)?"""
    if a is b: return True
    a = restrict(a, care); b = restrict(b, care)
    d = apply2(lambda x, y: True if x is y or (isinstance(x, Poly) and isinstance(y, Poly) and iszero(psub(x, y))) else False, a, b)
    return band(bnot(d), care) is F

def difdd(a, b): return apply2(lambda x, y: psub(x, y) if isinstance(x, Poly) and isinstance(y, Poly) else fn('dif', x, y), a, b)
def adddd(a, b): return apply2(lambda x, y: padd(x, y), a, b)
NAMES = {}
def pp(x, d=0):
    """readable rendering of a value"""
    if d > 12: return '..'
    if isinstance(x, DD):
        if x.var is None: return pp(x.leaf, d)
        return '(%s ? %s : %s)' % (pp(x.var, d + 1), pp(x.hi, d + 1), pp(x.lo, d + 1))
    if isinstance(x, Poly):
        if not x.t: return '0'
        out = []
        for m, c in sorted(x.t.items(), key=lambda mc: [(a.id, str(e)) for a, e in mc[0]]):
            fs = [pp(a, d + 1) if e == 1 else '%s^%s' % (pp(a, d + 1), e if isinstance(e, Fraction) else '{%s}' % pp(e, d + 1)) for a, e in m]
            k = '%g' % float(c) if c.denominator > 1000 else str(c)
            out.append(k if not fs else '*'.join(fs) if c == 1 else '-' + '*'.join(fs) if c == -1 else k + '*' + '*'.join(fs))
        return ' + '.join(out).replace('+ -', '- ')
    if isinstance(x, Ptr):
        r = 'null' if x.root is None else pp(x.root, d + 1)
        if x.tag: return '%s->%s' % (r, NAMES.get(x.tag, '%s+%d' % x.tag))
        return r if x.off is ZERO else '%s[%s]' % (r, pp(x.off, d + 1))
    if isinstance(x, Atom):
        k, a = x.kind, x.args
        if k == 'ld':
            v = a[0]; p = a[2]
            s = '' if v == 'init' else '~' if v[0] == 'mu' else "'"
            if p.tag: return (pp(Ptr(p.root), d + 1) + '->' if isinstance(p.root, Atom) and p.root.kind not in ('param',) and not (p.root.kind == 'ld' and p.root.args[2].tag and p.root.args[2].tag[1] == 8) else '') + NAMES.get(p.tag, '%s+%d' % p.tag) + s
            return pp(p, d + 1) + s
        if k in ('lt0', 'le0', 'eq0'): return '[%s %s 0]' % (pp(a[0], d + 1), {'lt0': '<', 'le0': '<=', 'eq0': '=='}[k])
        if k == 'eqp': return '[%s == %s]' % (pp(a[0], d + 1), pp(a[1], d + 1))
        if k == 'mu': return '~%s' % (a[1],)
        if k == 'res': return pp(a[0], d + 1)
        if k == 'callv': return '%s()#%d' % (a[0], x.id)
        if k == 'out': return '%s.out%s' % (pp(a[0], d + 1), a[1])
        if k == 'inv': return 'inv#%d' % x.id
        if k == 'fn': return '%s(%s)' % (a[0], ', '.join(pp(y, d + 1) for y in a[1:]))
        if k == 'param': return '$' + '.'.join(map(str, a))
        if k == 'sym': return str(a[0])
        return '%s(%s)' % (k, ', '.join(pp(y, d + 1) if isinstance(y, (Atom, Poly, Ptr, DD, Sx)) else str(y)[:40] for y in a))
    return repr(x)
def short(x, n=220):
    if isinstance(x, tuple): return '(%s)' % ', '.join(short(y, n) for y in x)
    s = pp(x) if isinstance(x, (DD, Poly, Ptr, Atom)) else repr(x)
    return s if len(s) <= n else s[:n] + '...'

def recs(I): return {r.key: r for r in I.loops}
def itatom(key): return atom('mu', key, 'iter')

def _bound(c, it):
    """c (boolean diagram) says it < N or it != N, and nothing else: N"""
    if c.var is None or c.var.kind not in ('lt0', 'le0', 'eq0'): return None
    if not ((c.hi is T and c.lo is F) or (c.hi is F and c.lo is T)): return None
    r = lit_le(c.var, c.hi is T)
    k = coef(r[1], it)
    if k is None or k[0] == 0: return None
    a, rest = k
    if r[0] == 'le' and a > 0 and a == 1: return padd(pneg(rest), ONE)
    if r[0] == 'ne': return pscale(pneg(rest), 1 / a)
    return None

def tests(rec):
    """blocks of the loop test: reached in an iteration only through blocks without calls or stores"""
    L = rec.loop; blocks = set(L.blocks)
    pure = lambda b: not any(i.op in ('store', 'call', 'invoke') for i in b.insts)
    succ = lambda b: [s for s in b.succs if s in blocks and s is not L.header]
    dirty = set(); todo = [b for b in blocks if not pure(b)]
    while todo:
        b = todo.pop()
        if b in dirty: continue
        dirty.add(b); todo += succ(b)
    return blocks - dirty

def trip(rec, pc=None):
    """number of iterations in which a point with relative path condition pc (default: the latch) executes, as N: exactly for iter = 0..N-1 (N clamped at 0). None if not of that form."""
    it = itatom(rec.key)
    if pc is None: pc = rec.latch.pc if rec.latch is not None else None
    if pc is None: return None
    if pc is T:
        if rec.latch is None: return None
        n = _bound(rec.latch.pc, it)
        if n is None: return None
        return padd(n, ONE)          # do-while: executes once more than it continues
    return _bound(pc, it)
def intfeasible(lits, lo=1):
    """can the comparisons (each linear in one and the same integer quantity) hold for some value >= lo?  None when they have another form"""
    import math
    x = None; hi = None; ne = set()
    for a, v in lits:
        if a.kind not in ('lt0', 'le0', 'eq0'): return None
        p = a.args[0]; at = list(p.atoms())
        if len(at) != 1 or x not in (None, at[0]): return None
        x = at[0]
        k = p.t.get(((x, 1),)); c = p.t.get((), 0)
        if k is None or set(p.t) - {((x, 1),), ()}: return None
        r = -Fraction(c) / Fraction(k)
        if a.kind == 'eq0':
            if v:
                if r.denominator != 1: return False
                lo = max(lo, r); hi = r if hi is None else min(hi, r)
            elif r.denominator == 1: ne.add(r)
            continue
        strict = (a.kind == 'lt0') == v          # p < 0 or p > 0
        up = (k > 0) == v                        # x bounded above
        if up: b = math.ceil(r) - 1 if strict else math.floor(r); hi = b if hi is None else min(hi, b)
        else: b = math.floor(r) + 1 if strict else math.ceil(r); lo = max(lo, b)
    if hi is None: return True
    return any(k not in ne for k in range(int(lo), min(int(hi), int(lo) + len(ne) + 1) + 1))
def covers(rec, pc, N, outer=None):
    """does a point with relative condition pc execute exactly for iter in [0, N)?"""
    it = itatom(rec.key)
    if pc is T:
        t = trip(rec, pc)
        if t is None or not iszero(psub(t, N)): return False
        o = outer if outer is not None else rec.outer_pc
        return band(o, bnot(cmp_lt(pneg(N), True))) is F or any(_implied(a, v, N) for a, v in forced(o))   # entered only when N > 0
    t = _bound(pc, it)
    return t is not None and iszero(psub(t, N))
def _implied(a, v, N):
    r = lit_le(a, v)
    return r is not None and r[0] == 'le' and (lambda d: d is not None and d >= 0)(psub(r[1], psub(ONE, N)).const())

MURKY = {'ret', 'weird', 'badptr', 'elemp', 'undefcond', 'truth', 'eqx', 'ltx', 'gate_unknown', 'input'}
def atoms_of(x, seen=None):
    """all atoms inside a value, recursively"""
    seen = set() if seen is None else seen
    st = [x]
    while st:
        x = st.pop()
        if isinstance(x, DD):
            if ('dd', x.id) in seen: continue
            seen.add(('dd', x.id))
            if x.var is None: st.append(x.leaf)
            else: st += [x.var, x.hi, x.lo]
        elif isinstance(x, Poly):
            for m in x.t:
                for a, e in m:
                    st.append(a)
                    if isinstance(e, Poly): st.append(e)
        elif isinstance(x, Ptr):
            st += [x.root, x.off]
        elif isinstance(x, (Atom, Sx)):
            if x in seen: continue
            seen.add(x)
            yield x
            st += list(x.args)
        elif isinstance(x, tuple): st += list(x)
def murky(*vals):
    """does a value contain something the analysis could not interpret (an unmodelled call, an undefined value)?"""
    for v in vals:
        if v is None: continue
        for a in atoms_of(v):
            if a.kind in MURKY: return a
            if a.kind == 'fn' and isinstance(a.args[0], str) and (a.args[0].startswith(('op_', 'inst_', 'bad', 'xv')) or a.args[0] == 'ovf'): return a
            if a.kind in ('smod', 'sctor', 'vmod', 'vctor', 'vbad', 'sbad', 'iv', 'undef'): return a
    return None

# ------------------------------------------------------------------ infeasible combinations of conditions (difference-style inequality domain)
def _ineqs(lits):
    """real-valued: list of (poly, strict) meaning poly <= 0 / < 0"""
    out = []
    for a, v in lits:
        if a.kind not in ('lt0', 'le0', 'eq0'): continue
        p = a.args[0]
        if a.kind == 'eq0':
            if v: out.append((p, False)); out.append((pneg(p), False))
        elif a.kind == 'lt0': out.append((p, True) if v else (pneg(p), False))
        else: out.append((p, False) if v else (pneg(p), True))
    return out
def _lead(p):
    ms = [m for m in p.t if m != ()]
    return min(ms, key=repr) if ms else None
def _clear(p, pos):
    """the sign of p is that of p divided by powers of positive quantities"""
    for a in p.atoms():
        if a not in pos: continue
        e = min((k if not isinstance(k, Poly) else 0) for k in (next((k for x, k in m if x is a), 0) for m in p.t))
        if e: p = pmul(p, ppow(patom(a), num(-e)))
    return p
def contradict(lits, depth=2):
    """do the literals contradict each other (pairwise or through chains of `depth` eliminations)?"""
    qs = _ineqs(lits)
    ne = [a.args[0] for a, v in lits if a.kind == 'eq0' and not v]
    pos = {b for a, v in lits if a.kind == 'le0' and not v and len(a.args[0].t) == 1 for b in a.args[0].atoms() if a.args[0] is patom(b)}
    if pos: qs = [(_clear(p, pos), s) for p, s in qs]; ne = [_clear(p, pos) for p in ne]
    seen = set(qs); cur = list(seen)
    def bad(p, s):
        c = p.const()
        return c is not None and (c > 0 or (c == 0 and s))
    if any(bad(p, s) for p, s in cur): return True
    # p <= 0 and p >= 0 and p != 0
    for p in ne:
        if (p, False) in seen and (pneg(p), False) in seen: return True
    new = cur
    for d in range(depth):
        nxt = []
        for p, s in new:
            for q, t in cur:
                for m in p.t:
                    if m == () or m not in q.t: continue
                    k1, k2 = p.t[m], q.t[m]
                    if k1 * k2 >= 0: continue
                    r = padd(pscale(p, abs(k2)), pscale(q, abs(k1)))
                    if bad(r, s or t): return True
                    if len(r.t) > max(len(p.t), len(q.t)): continue
                    e = (r, s or t)
                    if e not in seen and len(seen) < 3000: seen.add(e); nxt.append(e)
        for p, s in nxt:
            if not s and any(p is x or pneg(p) is x for x in ne) and (pneg(p), False) in seen: return True
        new = nxt
        if not new: break
    return False
_PAIR = {}
def _pair(x, w, v, b):
    """do two literals contradict each other?"""
    if x.kind not in ('lt0', 'le0', 'eq0'): return False
    k = (x.id, w, v.id, b)
    r = _PAIR.get(k)
    if r is None: r = _PAIR[k] = contradict(((x, w), (v, b)), 1)
    return r
def nonzero_paths(d, care=T, lits=(), limit=20000, zero=None, skip=None, light=False):
    """feasible paths of a gated number that end in a value other than zero: yields (literals, leaf)"""
    zero = zero or (lambda l: isinstance(l, Poly) and iszero(l))
    cnt = [0]; memo = {}
    def allzero(d):
        r = memo.get(d.id)
        if r is None: r = memo[d.id] = zero(d.leaf) if d.var is None else (allzero(d.hi) and allzero(d.lo))
        return r
    def go(d, c, ls, env=()):
        if c is F or allzero(d): return
        cnt[0] += 1
        if cnt[0] > limit: raise TooBig()
        # next variable: the smaller of the two diagrams
        va = d.var; vc = c.var
        if va is None and vc is None:
            l = d.leaf
            fr = [a for a in l.atoms() if a.kind == 'ite'] if isinstance(l, Poly) else []
            if skip is not None and skip(ls, l): return
            if not fr:
                if not light and contradict(ls): return
                if env and not light:
                    e = dict(env); l2 = substlits(ls, e)
                    if l2 is None or contradict(l2) or (skip is not None and skip(l2, l)): return
                yield ls, l
                return
            a = min(fr, key=lambda a: a.id)
            inner = a.args[0]
            for x, b in ls: inner = cofactor(inner, x, b)
            for l2, val in nonzero_paths(inner, T, ls, limit, zero=lambda l: False, light=True):
                yield from go(leaf(psubst(l, lambda y: val if y is a else None)), T, l2, env + ((a, val),))
            return
        v = va if vc is None or (va is not None and rank(va) <= rank(vc)) else vc
        for b in (True, False):
            nl = ls + ((v, b),)
            if v.kind in ('lt0', 'le0', 'eq0') and (any(_pair(x, w, v, b) for x, w in ls) or (not light and len(nl) % 4 == 0 and contradict(nl))): continue
            nd = (d.hi if b else d.lo) if d.var is v else d
            nc = (c.hi if b else c.lo) if c.var is v else c
            yield from go(nd, nc, nl, env)
    yield from go(d, care, tuple(lits))
def substlits(ls, env):
    """literals with frozen values replaced by what they are on this path; None when they cannot hold"""
    out = []
    for a, v in ls:
        if a.kind in ('lt0', 'le0', 'eq0') and any(x in env for x in a.args[0].atoms()):
            p = a.args[0]
            for _ in range(4): p = psubst(p, lambda y: env.get(y))
            c = cmp_lt(p, True) if a.kind == 'lt0' else cmp_lt(p, False) if a.kind == 'le0' else cmp_eq(p)
            if not v: c = bnot(c)
            if c is F: return None
            out += forced(c)
        else: out.append((a, v))
    return tuple(out)
def rank(a): return a.id
def cofactor(d, a, v):
    if d.var is None or a not in d.sup: return d
    if d.var is a: return d.hi if v else d.lo
    return ite(bvar(d.var), cofactor(d.hi, a, v), cofactor(d.lo, a, v))
def openlits(ls, depth=0):
    """the literals with every frozen number in them replaced by what it can be"""
    fr = {a for x, _ in ls if x.kind in ('lt0', 'le0', 'eq0') for a in x.args[0].atoms() if a.kind == 'ite'}
    if not fr or depth > 8: yield tuple(ls); return
    a = min(fr, key=lambda a: a.id); inner = a.args[0]
    for x, b in ls: inner = cofactor(inner, x, b)
    for l2, v in nonzero_paths(inner, T, tuple(ls), zero=lambda l: False, light=True):
        l3 = substlits(l2, {a: v})
        if l3 is None or contradict(l3): continue
        yield from openlits(l3, depth + 1)
def thawed(d, seen=None):
    """the polynomials a gated number can be, through frozen parts"""
    seen = set() if seen is None else seen
    for l in leaves(d):
        if isinstance(l, Poly) and l not in seen:
            seen.add(l); yield l
            for a in l.atoms():
                if a.kind == 'ite': yield from thawed(a.args[0], seen)
def same(a, b, care=T, lits=()):
    """None if two gated numbers agree on every feasible combination of conditions, else (literals, difference)"""
    d = difdd(a, b)
    for ls, l in nonzero_paths(d, care, lits):
        if isinstance(l, Poly) and forcedzero(ls, l): continue
        return ls, l
    return None
def forcedzero(ls, l):
    """do the conditions leave only zero for l?"""
    for q in (l, pneg(l)):
        c = cmp_lt(q, True)
        if c is T: return False
        if c is not F and not contradict(tuple(ls) + tuple(forced(c))): return False
    return True
def showlits(ls, n=6):
    return ' and '.join(('%s' if v else 'not %s') % short(a, 120) for a, v in ls[-n:])
