"""Abstract values: polynomial normal forms over hash-consed atoms, and gated values (multi-terminal decision diagrams).

A numeric value is a generalised polynomial: sum of coeff * prod(atom ** exponent), exponents being polynomials themselves
(normally rational constants).  A gated value is a decision diagram over branch-condition atoms whose leaves are values, i.e. the
phi/gamma functions of gated SSA in canonical form.  No value is ever enumerated or executed; everything is algebraic.
"""
from fractions import Fraction
import itertools, sys
sys.setrecursionlimit(100000)

class Atom:
    __slots__ = ('id', 'kind', 'args', '_s')
    _tab = {}
    def __repr__(s):
        return s._s if s._s is not None else s.show()
    def show(s):
        k, a = s.kind, s.args
        if k == 'sym': r = str(a[0])
        elif k == 'poly': r = '(%r)' % (a[0],)
        elif k in ('lt0', 'le0', 'eq0'): r = '[%r %s 0]' % (a[0], {'lt0': '<', 'le0': '<=', 'eq0': '=='}[k])
        elif k == 'eqp': r = '[%r == %r]' % a
        else: r = '%s(%s)' % (k, ', '.join(map(repr, a)))
        if len(r) > 400: r = r[:400] + '...#%d' % s.id
        s._s = r
        return r
    def __lt__(s, o): return s.id < o.id

def atom(kind, *args):
    key = (kind, args)
    a = Atom._tab.get(key)
    if a is None:
        a = Atom(); a.id = len(Atom._tab); a.kind = kind; a.args = args; a._s = None
        Atom._tab[key] = a
    return a

# ------------------------------------------------------------------ polynomials
class Poly:
    """terms: dict mono -> Fraction, mono: tuple of (Atom, exponent) sorted by atom id; exponent Fraction or Poly"""
    __slots__ = ('t', 'key', 'h')
    _tab = {}
    def __repr__(p):
        if not p.t: return '0'
        out = []
        for m, c in sorted(p.t.items(), key=lambda mc: [(a.id, str(e)) for a, e in mc[0]]):
            fs = []
            for a, e in m:
                fs.append(repr(a) if e == 1 else '%r^%s' % (a, e if isinstance(e, Fraction) else '{%r}' % e))
            if not fs: out.append(str(c))
            elif c == 1: out.append('*'.join(fs))
            else: out.append('%s*%s' % (c, '*'.join(fs)))
        return ' + '.join(out)
    def const(p):
        if not p.t: return Fraction(0)
        if len(p.t) == 1 and () in p.t: return p.t[()]
        return None
    def atoms(p, deep=False, acc=None):
        acc = set() if acc is None else acc
        for m in p.t:
            for a, e in m:
                acc.add(a)
                if isinstance(e, Poly): e.atoms(deep, acc)
        return acc
    def __hash__(p): return p.h
    def __eq__(p, o): return p is o

def mkpoly(t):
    t = {m: c for m, c in t.items() if c != 0}
    key = frozenset(t.items())
    p = Poly._tab.get(key)
    if p is None:
        p = Poly(); p.t = t; p.key = key; p.h = hash(key); Poly._tab[key] = p
    return p

ONE_M = ()
def num(x):
    if isinstance(x, float):
        if x != x: return fn('nan')
        if x in (float('inf'), float('-inf')): return fn('inf' if x > 0 else 'ninf')
        x = Fraction(repr(x))
    return mkpoly({ONE_M: Fraction(x)})
ZERO = mkpoly({}); ONE = num(1)
def patom(a): return mkpoly({((a, Fraction(1)),): Fraction(1)})
def fn(name, *args): return patom(atom('fn', name, *args))
def sym(name): return patom(atom('sym', name))

def padd(a, b):
    if not a.t: return b
    if not b.t: return a
    t = dict(a.t)
    for m, c in b.t.items(): t[m] = t.get(m, 0) + c
    return mkpoly(t)
def pscale(a, k):
    if k == 0: return ZERO
    return mkpoly({m: c * k for m, c in a.t.items()})
def pneg(a): return pscale(a, -1)
def psub(a, b): return padd(a, pneg(b))

def _eadd(e1, e2):
    if isinstance(e1, Fraction) and isinstance(e2, Fraction): return e1 + e2
    r = padd(e1 if isinstance(e1, Poly) else num(e1), e2 if isinstance(e2, Poly) else num(e2))
    c = r.const()
    return c if c is not None else r
def _emul(e1, e2):
    if isinstance(e1, Fraction) and isinstance(e2, Fraction): return e1 * e2
    r = pmul(e1 if isinstance(e1, Poly) else num(e1), e2 if isinstance(e2, Poly) else num(e2))
    c = r.const()
    return c if c is not None else r

def mono_mul(m1, m2):
    """product of monomials; returns (mono, [polys to expand])"""
    if not m1: return m2, ()
    if not m2: return m1, ()
    d = {}
    for a, e in m1: d[a] = e
    for a, e in m2: d[a] = _eadd(d[a], e) if a in d else e
    out = []; exp = []
    for a, e in d.items():
        if e == 0: continue
        if a.kind == 'poly' and isinstance(e, Fraction) and e.denominator == 1 and e > 0:
            exp.append((a.args[0], int(e))); continue
        out.append((a, e))
    out.sort(key=lambda x: x[0].id)
    return tuple(out), exp

_mulmemo = {}
def pmul(a, b):
    if not a.t or not b.t: return ZERO
    ca = a.const()
    if ca is not None: return pscale(b, ca)
    cb = b.const()
    if cb is not None: return pscale(a, cb)
    k = (a, b) if id(a) < id(b) else (b, a)
    r = _mulmemo.get(k)
    if r is not None: return r
    t = {}; extra = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m, ex = mono_mul(m1, m2)
            if ex:
                q = mkpoly({m: c1 * c2})
                for p, n in ex:
                    for _ in range(n): q = pmul(q, p)
                extra.append(q)
            else: t[m] = t.get(m, 0) + c1 * c2
    r = mkpoly(t)
    for q in extra: r = padd(r, q)
    _mulmemo[k] = r
    return r

def norm_lead(p):
    """p = c * q with q having leading coefficient 1 (leading = smallest monomial key); returns (c, q)"""
    m = min(p.t, key=mono_key)
    c = p.t[m]
    return c, pscale(p, 1 / c)
def mono_key(m):
    return (-len(m), tuple((a.id, _ekey(e)) for a, e in m))
def _ekey(e):
    return (0, e, 0) if isinstance(e, Fraction) else (1, Fraction(0), len(e.t))

def ppow(a, e):
    """a ** e for poly e (positivity of bases assumed when the exponent is not an integer)"""
    if isinstance(e, Poly):
        c = e.const()
        if c is not None: e = c
    if isinstance(e, Fraction):
        if e == 0: return ONE
        if e == 1: return a
        if e.denominator == 1 and 0 < e <= 6:
            r = ONE
            for _ in range(int(e)): r = pmul(r, a)
            return r
    if not a.t: return ZERO if isinstance(e, Fraction) and e > 0 else fn('pow', a, e if isinstance(e, Poly) else num(e))
    isint = isinstance(e, Fraction) and e.denominator == 1
    def cpow(c):
        if c == 1: return ONE
        if isint: return num(c ** int(e))
        if isinstance(e, Fraction):
            # exact roots
            try:
                f = Fraction(c)
                if f > 0:
                    r = (float(f)) ** float(e); g = Fraction(r).limit_denominator(10**6)
                    if g > 0 and g ** e.denominator == f ** e.numerator: return num(g)
            except Exception: pass
        if isinstance(e, Poly):
            r = patom(atom('cpow', c, e))
            return r
        return patom(atom('cpow', c, num(e)))
    if len(a.t) == 1:
        (m, c), = a.t.items()
        if c < 0 and not isint:
            return fn('pow', a, e if isinstance(e, Poly) else num(e))
        r = cpow(c)
        nm = []
        ex = ONE
        for at, x in m:
            ne = _emul(x, e)
            if at.kind == 'poly' and isinstance(ne, Fraction) and ne.denominator == 1 and ne > 0:
                for _ in range(int(ne)): ex = pmul(ex, at.args[0])
            else: nm.append((at, ne))
        nm = tuple(sorted(nm, key=lambda x: x[0].id))
        return pmul(pmul(r, mkpoly({nm: Fraction(1)})), ex)
    c, q = norm_lead(a)
    if c < 0 and not isint:
        q = pneg(q); c = -c
    pa = atom('poly', q)
    return pmul(cpow(c), mkpoly({((pa, e if isinstance(e, Fraction) else e),): Fraction(1)}))
def pdiv(a, b):
    if not b.t: return fn('div0', a)
    return pmul(a, ppow(b, Fraction(-1)))

def clear_denoms(p):
    """multiply by the denominators (polynomial atoms with negative rational-integer exponents), repeatedly"""
    for _ in range(12):
        den = {}
        for m in p.t:
            for a, e in m:
                if isinstance(e, Fraction) and e < 0: den[a] = min(den.get(a, 0), e)
        if not den: return p
        q = ONE
        for a, e in den.items():
            q = pmul(q, mkpoly({((a, -e),): Fraction(1)})) if a.kind != 'poly' else q
        r = pmul(p, q) if q is not ONE else p
        for a, e in den.items():
            if a.kind == 'poly':
                # multiply each term: keep symbolic exponents until they reach >=0 then expand
                k = -e
                t = ZERO
                for m, c in r.t.items():
                    t = padd(t, pmul(mkpoly({m: c}), mkpoly({((a, k),): Fraction(1)})) if k.denominator != 1 else _mulpow(mkpoly({m: c}), a, k))
                r = t
        p = r
    return p
def _mulpow(p, a, k):
    q = mkpoly({((a, k),): Fraction(1)}) if False else None
    # multiply by a**k where k integer>0 using monomial exponent addition
    (m, c), = p.t.items()
    d = dict(m)
    e = _eadd(d.get(a, Fraction(0)), k)
    d.pop(a, None)
    base = mkpoly({tuple(sorted(d.items(), key=lambda x: x[0].id)): c})
    if e == 0: return base
    if isinstance(e, Fraction) and e.denominator == 1 and e > 0:
        for _ in range(int(e)): base = pmul(base, a.args[0])
        return base
    d[a] = e
    return mkpoly({tuple(sorted(d.items(), key=lambda x: x[0].id)): c})
def iszero(p):
    return not p.t or not clear_denoms(p).t

def psubst(p, f, memo=None):
    """rebuild p with f(atom) -> Poly or None (keep; arguments are rewritten too)"""
    memo = {} if memo is None else memo
    def sa(a):
        r = memo.get(a)
        if r is None:
            r = f(a)
            if r is None:
                na = tuple(sv(x) for x in a.args)
                if na == a.args: r = patom(a)
                elif a.kind == 'poly': r = na[0]
                else: r = patom(atom(a.kind, *na))
            memo[a] = r
        return r
    def sv(x):
        if isinstance(x, Poly): return sp(x)
        if isinstance(x, Atom):
            r = sa(x)
            if len(r.t) == 1:
                (m, c), = r.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
            return x
        if isinstance(x, tuple): return tuple(sv(y) for y in x)
        if isinstance(x, Ptr): return Ptr(x.root if not isinstance(x.root, Atom) else sv(x.root), sp(x.off), x.tag)
        return x
    def sp(q):
        r = ZERO
        for m, c in q.t.items():
            t = num(c)
            for a, e in m:
                b = sa(a)
                e2 = sp(e) if isinstance(e, Poly) else e
                t = pmul(t, b if e2 == 1 else ppow(b, e2))
            r = padd(r, t)
        return r
    return sp(p)

# ------------------------------------------------------------------ pointers, strings, opaque leaves
class Ptr:
    """root: Obj/Atom/None(null); off: Poly of bytes; tag: (struct, field offset) of the innermost struct member, or None"""
    __slots__ = ('root', 'off', 'tag', 'h')
    _tab = {}
    def __new__(cls, root, off=ZERO, tag=None):
        k = (root, off, tag)
        p = cls._tab.get(k)
        if p is None:
            p = object.__new__(cls); p.root = root; p.off = off; p.tag = tag; p.h = hash(k); cls._tab[k] = p
        return p
    def __hash__(s): return s.h
    def __eq__(s, o): return s is o
    def __repr__(s):
        if s.root is None: return 'null' if s.off is ZERO else 'null+%r' % s.off
        return '&%r' % s.root + ('+%r' % s.off if s.off.t else '') + ('{%s.%s}' % s.tag if s.tag else '')
NULL = Ptr(None)

class Obj:
    """an abstract object: alloca, heap allocation, global, function"""
    __slots__ = ('kind', 'name', 'ty', 'size', 'info', 'id')
    _n = itertools.count()
    def __init__(s, kind, name, ty=None, size=None, info=None): s.kind = kind; s.name = name; s.ty = ty; s.size = size; s.info = info; s.id = next(Obj._n)
    def __repr__(s): return '%s:%s#%d' % (s.kind, s.name, s.id)

class Str:
    __slots__ = ('s',)
    _tab = {}
    def __new__(cls, s):
        p = cls._tab.get(s)
        if p is None: p = object.__new__(cls); p.s = s; cls._tab[s] = p
        return p
    def __hash__(s): return hash(('Str', s.s))
    def __eq__(s, o): return s is o
    def __repr__(s): return 'Str(%r)' % (s.s,)

class Sx:
    """opaque symbolic non-numeric value (string expression, aggregate): Sx(kind, args)"""
    __slots__ = ('kind', 'args', 'h')
    _tab = {}
    def __new__(cls, kind, *args):
        k = (kind, args)
        p = cls._tab.get(k)
        if p is None: p = object.__new__(cls); p.kind = kind; p.args = args; p.h = hash(k); cls._tab[k] = p
        return p
    def __hash__(s): return s.h
    def __eq__(s, o): return s is o
    def __repr__(s): return '%s(%s)' % (s.kind, ', '.join(map(repr, s.args)))
UNDEF = Sx('undef')

# ------------------------------------------------------------------ decision diagrams
class DD:
    __slots__ = ('var', 'hi', 'lo', 'leaf', 'id', 'sup')
    _tab = {}; _n = 0
    def __repr__(d):
        if d.var is None: return repr(d.leaf)
        return 'ite(%r, %r, %r)' % (d.var, d.hi, d.lo)
    def isleaf(d): return d.var is None
def leaf(v):
    k = ('L', v)
    d = DD._tab.get(k)
    if d is None:
        d = DD(); d.var = None; d.hi = d.lo = None; d.leaf = v; d.id = DD._n; DD._n += 1; d.sup = frozenset(); DD._tab[k] = d
    return d
def node(var, hi, lo):
    if hi is lo: return hi
    k = (var, hi.id, lo.id)
    d = DD._tab.get(k)
    if d is None:
        if not DD._n & 4095: tick()
        d = DD(); d.var = var; d.hi = hi; d.lo = lo; d.leaf = None; d.id = DD._n; DD._n += 1; d.sup = hi.sup | lo.sup | {var}; DD._tab[k] = d
    return d
T = leaf(True); F = leaf(False)

class TooBig(Exception): pass
BUDGET = {'deadline': None, 'rss': 7 << 30}
def tick():
    """a rule that needs too much time or memory ends undecided"""
    import time
    if BUDGET['deadline'] is not None and time.time() > BUDGET['deadline']: raise TooBig()
    with open('/proc/self/statm') as fh:
        if int(fh.read().split()[1]) * 4096 > BUDGET['rss']: raise TooBig()
LIMIT = 20000

def top(*ds):
    v = None
    for d in ds:
        if d.var is not None and (v is None or d.var.id < v.id): v = d.var
    return v
def cof(d, v, b):
    if d.var is v: return d.hi if b else d.lo
    return d

_memo_ite = {}
def ite(c, a, b):
    if c is T: return a
    if c is F: return b
    if a is b: return a
    if a is T and b is F: return c
    k = (c.id, a.id, b.id)
    r = _memo_ite.get(k)
    if r is None:
        v = top(c, a, b)
        r = node(v, ite(cof(c, v, 1), cof(a, v, 1), cof(b, v, 1)), ite(cof(c, v, 0), cof(a, v, 0), cof(b, v, 0)))
        _memo_ite[k] = r
    return r
def band(a, b): return ite(a, b, F)
def bor(a, b): return ite(a, T, b)
def bnot(a): return ite(a, F, T)
def bvar(a): return node(a, T, F)

_memo_restrict = {}
def restrict(f, c):
    """simplify f under care set c (Coudert-Madre restrict)"""
    if c is T or f.var is None: return f
    if c is F: return f
    k = (f.id, c.id)
    r = _memo_restrict.get(k)
    if r is not None: return r
    v = top(f, c)
    if c.var is v and f.var is not v:
        r = restrict(f, bor(c.hi, c.lo))
    else:
        ch, cl = cof(c, v, 1), cof(c, v, 0)
        if ch is F: r = restrict(cof(f, v, 0), cl)
        elif cl is F: r = restrict(cof(f, v, 1), ch)
        else: r = node(v, restrict(cof(f, v, 1), ch), restrict(cof(f, v, 0), cl))
    _memo_restrict[k] = r
    return r

def apply1(f, d, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(d.id)
    if r is None:
        if d.var is None:
            r = f(d.leaf)
            if not isinstance(r, DD): r = leaf(r)
        else:
            h = apply1(f, d.hi, memo); l = apply1(f, d.lo, memo)
            r = ite(bvar(d.var), h, l)
        memo[d.id] = r
    return r
def apply2(f, a, b, memo=None):
    memo = {} if memo is None else memo
    k = (a.id, b.id)
    r = memo.get(k)
    if r is None:
        if a.var is None and b.var is None:
            r = f(a.leaf, b.leaf)
            if not isinstance(r, DD): r = leaf(r)
        else:
            v = top(a, b)
            h = apply2(f, cof(a, v, 1), cof(b, v, 1), memo); l = apply2(f, cof(a, v, 0), cof(b, v, 0), memo)
            r = ite(bvar(v), h, l)
        memo[k] = r
        if len(memo) > LIMIT: raise TooBig()
    return r
def applyn(f, ds):
    memo = {}
    def go(ds):
        k = tuple(d.id for d in ds)
        r = memo.get(k)
        if r is None:
            v = top(*ds)
            if v is None:
                r = f(*[d.leaf for d in ds])
                if not isinstance(r, DD): r = leaf(r)
            else:
                r = ite(bvar(v), go([cof(d, v, 1) for d in ds]), go([cof(d, v, 0) for d in ds]))
            memo[k] = r
            if len(memo) > LIMIT: raise TooBig()
        return r
    return go(list(ds))
def leaves(d, acc=None, seen=None):
    acc = [] if acc is None else acc; seen = set() if seen is None else seen
    if d.id in seen: return acc
    seen.add(d.id)
    if d.var is None: acc.append(d.leaf)
    else: leaves(d.hi, acc, seen); leaves(d.lo, acc, seen)
    return acc
def paths(d, cond=()):
    """all (tuple of (atom, bool), leaf)"""
    if d.var is None: yield cond, d.leaf
    else:
        yield from paths(d.hi, cond + ((d.var, True),))
        yield from paths(d.lo, cond + ((d.var, False),))
def ddsize(d, seen=None):
    seen = set() if seen is None else seen
    if d.id in seen: return 0
    seen.add(d.id)
    return 1 if d.var is None else 1 + ddsize(d.hi, seen) + ddsize(d.lo, seen)

# ------------------------------------------------------------------ comparisons of leaves -> boolean diagrams
def lensign(p):
    """sign of a linear expression in lengths of texts (each at least one): -1, 1 or None; a constant is left alone"""
    lo = 0; sg = 0
    for m, c in p.t.items():
        lo += c
        if not m: continue
        if len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'len': return None
        if sg and (c > 0) != (sg > 0): return None
        sg = 1 if c > 0 else -1
    return sg if sg and lo * sg > 0 else None
def cmp_lt(p, strict=True):
    """p < 0 (or <= 0)"""
    c = p.const()
    if c is None and any(m and m[0][0].kind == 'len' for m in p.t): c = lensign(p)
    if c is not None: return T if (c < 0 or (c == 0 and not strict)) else F
    k, q = norm_lead(p)
    if k > 0: return bvar(atom('lt0' if strict else 'le0', q))
    # -q < 0  <=> q > 0 <=> not q <= 0
    return bnot(bvar(atom('le0' if strict else 'lt0', q)))
def cmp_eq(p):
    c = p.const()
    if c is None and any(m and m[0][0].kind == 'len' for m in p.t): c = lensign(p)
    if c is not None: return T if c == 0 else F
    k, q = norm_lead(p)
    return bvar(atom('eq0', q))
