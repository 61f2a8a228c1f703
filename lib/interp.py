"""Gated value-graph construction: one forward abstract interpretation of a function over all its paths at once.

Branches are not enumerated: states are merged at every join and the merge is recorded as a gated value (decision diagram over the
branch-condition atoms).  A loop is over-approximated: everything it may modify is replaced by a mu value at its head, its body is
analysed once, and the transfer function of one arbitrary iteration is recorded.  Calls into the project are analysed in the caller's
context (so extracting or inlining a helper makes no difference); library calls are modelled or uninterpreted.
"""
import re, itertools
from fractions import Fraction
from val import *
import val
from irload import Inst, Arg, GRef, FRef, Const, sname, AnalysisError
import cfg
from effects import gep_tag, Effects, NORETURN, IO_EXT

class Mem:
    """node of a per-class memory chain (hash-consed); sid is a signature that does not depend on a mu node's alias set"""
    __slots__ = ('kind', 'cls', 'a', 'b', 'c', 'd', 'id', 'memo', 'sid')
    _tab = {}; _sig = {}
    def __new__(cl, kind, cls, a=None, b=None, c=None, d=None):
        k = (kind, cls, a, b, c, d)
        m = cl._tab.get(k)
        if m is None:
            m = object.__new__(cl); m.kind = kind; m.cls = cls; m.a = a; m.b = b; m.c = c; m.d = d; m.id = len(cl._tab); m.memo = {}
            if kind == 'store': g = ('store', cls, a.sid, b, c.id)
            elif kind == 'phi': g = ('phi', cls, a.id, b.sid, c.sid)
            elif kind == 'mu': g = ('mu', cls, a)
            elif kind == 'call': g = ('call', cls, a)
            else: g = (kind, cls, a)
            m.sid = cl._sig.setdefault(g, len(cl._sig))
            cl._tab[k] = m
        return m
    def __repr__(s): return 'M%d:%s' % (s.sid, s.kind)

class State:
    __slots__ = ('mem', 'pc', 'phiv')
    def __init__(s, mem, pc): s.mem = mem; s.pc = pc; s.phiv = None
    def copy(s): return State(dict(s.mem), s.pc)

class LoopRec:
    """what one arbitrary iteration does"""
    def __init__(s, key, loop, path): s.key = key; s.loop = loop; s.path = path; s.phis = {}; s.mem = {}; s.exits = []; s.latch = None; s.pre = None; s.stores = {}; s.head = None; s.unrolled = False

class Event:
    __slots__ = ('kind', 'pc', 'data', 'inst', 'path', 'mem', 'loops')
    def __init__(s, kind, pc, data, inst, path, mem, loops): s.kind = kind; s.pc = pc; s.data = data; s.inst = inst; s.path = path; s.mem = mem; s.loops = loops
    def __repr__(s): return 'Event(%s, %s:%s, %r)' % (s.kind, s.inst.file, s.inst.line, s.data)

def deps(x, memo={}):
    """frozenset of loop keys a value depends on"""
    if isinstance(x, (Poly, Atom, Ptr, Sx, DD)):
        r = memo.get(x)
        if r is not None: return r
        s = set()
        if isinstance(x, Poly):
            for m in x.t:
                for a, e in m:
                    s |= deps(a)
                    if isinstance(e, Poly): s |= deps(e)
        elif isinstance(x, Atom):
            if x.kind == 'mu': s.add(x.args[0])
            if x.kind == 'ld' and x.args[0] != 'init' and x.args[0][0] == 'mu': s.add(x.args[0][1])
            for a in x.args: s |= deps(a)
        elif isinstance(x, Ptr):
            s |= deps(x.root) | deps(x.off)
        elif isinstance(x, Sx):
            for a in x.args: s |= deps(a)
        elif isinstance(x, DD):
            if x.var is None: s |= deps(x.leaf)
            else: s |= deps(x.var) | deps(x.hi) | deps(x.lo)
        r = frozenset(s); memo[x] = r
        return r
    if isinstance(x, tuple):
        s = set()
        for a in x: s |= deps(a)
        return s
    return frozenset()

def chain_to(root, seen=None):
    """pointers reachable backwards through loads of 'next'-like self pointers: root atom ld(_, cls, ptr) -> ptr.root ..."""
    out = []
    while isinstance(root, Atom) and root.kind == 'ld':
        p = root.args[2]
        cls = root.args[1]
        out.append((cls, p.root))
        root = p.root
    return out

MAXUNROLL = 64

class Interp:
    def __init__(self, mod, eff=None, cut=None, enter=None, hooks=None, log=('abort', 'exit', 'throw', 'free', 'memcpy'), this_type=None):
        self.mod = mod; self.eff = eff or Effects(mod); self.cut = cut or set(); self.hooks = hooks or {}
        self.log = set(log); self.events = []; self.loops = []; self.init = {}; self.modcache = {}; self.callstack = (); self.loopstack = ()
        self.objs = {}; self.nserial = itertools.count(); self.acyclic = {('S', 'wetting_front', 56)}; self.globals = {}
        self.analysed = set(); self.unknown_ext = set(); self.ncalls = 0; self.distinct_roots = True; self.phase = 0; self.stores = []; self.track_stores = False
        self.quiet = 0; self.assume = T; self.facts = []; self.callpc = {}
        for t, offs in mod.di_structs.items():
            for o, n in offs.items():
                if n == 'next': self.acyclic.add(('S', t, o))
    # ------------------------------------------------------------------ classes / memory
    def cls_of(self, p, ty):
        r = p.root
        if isinstance(r, Obj):
            if r.kind == 'alloca': return ('A', r)
            if p.tag: return ('S',) + p.tag
            return ('G', r) if r.kind == 'global' else ('H', r)
        if p.tag: return ('S',) + p.tag
        if isinstance(r, Atom):
            if r.kind == 'ld': return ('E', r.args[1])
            return ('E', r)
        return ('N',)
    def initnode(self, cls):
        n = self.init.get(cls)
        if n is None: n = self.init[cls] = Mem('init', cls)
        return n
    def chain(self, st, cls): return st.mem.get(cls) or self.initnode(cls)
    def alias(self, p, q):
        """'must' | 'no' | DD condition"""
        if p is q: return 'must'
        if p.root is q.root:
            d = psub(p.off, q.off); c = d.const()
            if c is not None: return 'must' if c == 0 else 'no'
            return cmp_eq(d)
        a, b = p.root, q.root
        if a is None or b is None: return 'no'
        if isinstance(a, Obj) and isinstance(b, Obj): return 'no'
        if isinstance(a, Obj) or isinstance(b, Obj):
            o, x = (a, b) if isinstance(a, Obj) else (b, a)
            if o.kind in ('alloca', 'global', 'func'): return 'no'
            # heap object allocated during this analysis: distinct from anything that existed on entry
            if not deps(x) and self._entry_only(x): return 'no'
            return bvar(atom('eqp', Ptr(o), Ptr(x))) if p.off is q.off else 'no'
        for x, y in ((a, b), (b, a)):
            for cls, r in chain_to(x):
                if r is y and cls in self.acyclic: return 'no'
                if cls not in self.acyclic: break
        if p.off is not q.off:
            d = psub(p.off, q.off).const()
            if d is None or d != 0: return 'no' if d is not None else bvar(atom('alias', p, q))
        x, y = (a, b) if a.id < b.id else (b, a)
        return bvar(atom('eqp', Ptr(x), Ptr(y)))
    def _entry_only(self, x):
        if x.kind == 'param' or x.kind == 'sym': return True
        if x.kind == 'ld':
            v = x.args[0]
            return v == 'init' and (not isinstance(x.args[2].root, Atom) or self._entry_only(x.args[2].root))
        return False
    def mkload(self, ver, cls, p, ty):
        a = atom('ld', ver, cls, p)
        if ty == 'ptr': return leaf(Ptr(a))
        if ty == 'str': return leaf(Sx('strof', a))
        if ty == 'vec': return leaf(Sx('vecof', a))
        return leaf(patom(a))
    def loadc(self, n, p, ty):
        """load from chain node n at pointer leaf p"""
        k = (p, ty)
        r = n.memo.get(k)
        if r is not None: return r
        # iterative walk over stores
        path = []; cur = n; res = None
        while True:
            rr = cur.memo.get(k)
            if rr is not None: res = rr; break
            if cur.kind == 'store':
                al = self.alias(p, cur.b)
                if al == 'must': res = cur.c; break
                path.append((cur, al)); cur = cur.a; continue
            if cur.kind == 'init': res = self.mkload('init', cur.cls, p, ty); break
            if cur.kind == 'undef': res = leaf(UNDEF); break
            if cur.kind == 'phi':
                res = ite(cur.a, self.loadc(cur.b, p, ty), self.loadc(cur.c, p, ty)); break
            if cur.kind == 'mu':
                if self._mu_untouched(cur, p): res = self.loadc(cur.b, p, ty)
                else: res = self.mkload(('mu', cur.a), cur.cls, p, ty)
                break
            if cur.kind == 'copy':
                dp, n, sp, src = cur.a
                if p.root is dp.root:
                    d = psub(p.off, dp.off)
                    inside = band(cmp_lt(psub(d, n), True), cmp_lt(pneg(d), False))
                    res = ite(inside, self.loadc(src, Ptr(sp.root, padd(sp.off, d), sp.tag), ty), self.loadc(cur.b, p, ty))
                elif self.alias(Ptr(p.root), Ptr(dp.root)) == 'no': res = self.loadc(cur.b, p, ty)
                else: res = self.mkload(('call', atom('memcpy', dp, sp, n), cur.b.sid), cur.cls, p, ty)
                break
            if cur.kind == 'call': 
                if cur.c is not None and not any(self.alias(p, q) != 'no' for q in cur.c): res = self.loadc(cur.b, p, ty)
                else: res = self.mkload(('call', cur.a, cur.b.sid), cur.cls, p, ty)
                break
            raise AssertionError(cur.kind)
        cur.memo[k] = res
        for nd, al in reversed(path):
            if al != 'no': res = ite(al, nd.c, res)
            nd.memo[k] = res
        return res
    def _mu_untouched(self, n, p):
        key = n.a
        for q in n.c:
            if p.root is not q.root and isinstance(p.root, Obj) and isinstance(q.root, Obj): continue
            if key in deps(q):
                if isinstance(p.root, Obj) and p.root.kind == 'alloca' and not (isinstance(q.root, Obj) and q.root is p.root): continue
                return False
            if self.alias(p, q) != 'no': return False
        return True
    def load(self, st, pd, ty):
        def f(p):
            if not isinstance(p, Ptr): return fn('badptr', p if isinstance(p, (Poly, Sx)) else Sx('x'))
            if isinstance(p.root, Atom) and p.root.kind == 'vel':
                return self._velem(p.root, ty)
            if isinstance(p.root, Obj) and p.root.kind == 'global':
                v = self._constglobal(p, ty)
                if v is not None: return v
            cls = self.cls_of(p, ty)
            return self.loadc(self.chain(st, cls), p, ty)
        return self.ap1(f, pd)
    def _velem(self, a, ty):
        v, i = a.args
        if isinstance(v, Sx) and v.kind == 'vec' and i.const() is not None and 0 <= i.const() < len(v.args): return v.args[int(i.const())]
        if ty == 'ptr': return leaf(Ptr(atom('elemp', v, i)))
        if ty == 'str': return leaf(Sx('selem', v, i))
        return leaf(fn('elem', v, i))
    def _constglobal(self, p, ty):
        g = p.root.info
        if not g.const or g.init is None: return None
        off = p.off.const()
        if off is None: return None
        v, t = g.init, g.ty; off = int(off)
        while True:
            if not hasattr(v, 'kind'): return self.value(v, {})
            if v.kind == 'zero':
                return leaf(NULL if ty == 'ptr' else ZERO)
            if v.kind == 'agg':
                if t.k == 'array':
                    i = off // t.elem.size; off -= i * t.elem.size
                    if i >= len(v.ops): return None
                    v, t = v.ops[i], t.elem
                else:
                    i = max(k for k, o in enumerate(t.offs) if o <= off); off -= t.offs[i]; v, t = v.ops[i], t.fields[i]
                continue
            if v.kind == 'str':
                return leaf(num(v.v[off])) if ty != 'ptr' else None
            return self.value(v, {})
    def store(self, st, pd, v, inst=None):
        ps = list(paths(pd)) if pd.var is not None else [((), pd.leaf)]
        for cond, p in ps:
            if not isinstance(p, Ptr): continue
            cls = self.cls_of(p, None)
            val = v; spc = st.pc
            n = self.chain(st, cls)
            if cond:
                c = T
                for a, b in cond: c = band(c, bvar(a) if b else bnot(bvar(a)))
                val = ite(c, v, self.loadc(n, p, self._tyof(v))); spc = band(spc, c)
            st.mem[cls] = Mem('store', cls, n, p, val)
            for s in self.loopstores: s.setdefault(cls, set()).add(p)
            if self.track_stores: self.stores.append((p, v, spc, inst, self.callstack, self.loopstack))
    def _tyof(self, v):
        while v.var is not None: v = v.hi
        l = v.leaf
        return 'ptr' if isinstance(l, Ptr) else 'str' if isinstance(l, (Str,)) or (isinstance(l, Sx) and l.kind.startswith('s')) else 'double'
    def havoc(self, st, cls, tag, ptrs=None):
        n = self.chain(st, cls)
        st.mem[cls] = Mem('call', cls, tag, n, ptrs)
        for s in self.loopstores: s.setdefault(cls, set()).update(ptrs if ptrs else {Ptr(atom('any', cls))})
    # ------------------------------------------------------------------ merging
    def merge(self, s1, s2):
        care = bor(s1.pc, s2.pc)
        c = restrict(s1.pc, care)
        mem = {}
        for k in s1.mem.keys() | s2.mem.keys():
            a = self.chain(s1, k); b = self.chain(s2, k)
            mem[k] = a if a is b else Mem('phi', k, c, a, b)
        return State(mem, care), c
    # ------------------------------------------------------------------ helpers
    def ap1(self, f, d): return apply1(f, self.freeze(d))
    def ap2(self, f, a, b):
        return apply2(f, self.freeze(a), self.freeze(b))
    FREEZE = 48
    def freeze(self, d, limit=None):
        """a gated number with many gates becomes one atom (its diagram stays available through unfreeze)"""
        if d.var is None or (limit is None and len(d.sup) < 5): return d
        if ddsize(d) <= (self.FREEZE if limit is None else limit): return d
        l = d
        while l.var is not None: l = l.hi
        if isinstance(l.leaf, Poly):
            if all(isinstance(x, Poly) for x in leaves(d)): return leaf(patom(atom('ite', d)))
        return d
    def const(self, v):
        if v.kind == 'int':
            if v.ty.width == 1: return T if v.v else F
            return leaf(num(v.v))
        if v.kind == 'fp': return leaf(num(v.v))
        if v.kind == 'null': return leaf(NULL)
        if v.kind == 'undef': return leaf(UNDEF)
        if v.kind == 'zero': return leaf(Sx('zero'))
        if v.kind == 'expr' and v.op == 'getelementptr': return self.gep(v, [self.value(o, {}) for o in v.ops])
        if v.kind == 'expr' and v.op in ('bitcast', 'inttoptr', 'ptrtoint'): return self.value(v.ops[0], {})
        return leaf(Sx('const', repr(v)))
    def globobj(self, name):
        o = self.globals.get(name)
        if o is None:
            o = self.globals[name] = Obj('global', name, None, None, self.mod.globals.get(name))
        return o
    def value(self, v, env):
        if isinstance(v, (Inst, Arg)): return env[v]
        if isinstance(v, GRef): return leaf(Ptr(self.globobj(v.name)))
        if isinstance(v, FRef):
            return leaf(Ptr(atom('func', v.name)))
        return self.const(v)
    def gep(self, i, vals):
        base = vals[0]; tag = gep_tag(i.gty, i.ops[1:])
        # offset
        off = leaf(ZERO); ty = i.gty; first = True; inner = None
        for o, v in zip(i.ops[1:], vals[1:]):
            if first:
                off = self._addscaled(off, v, ty.size); first = False; continue
            if ty.k == 'struct':
                k = o.v; off = self.ap1(lambda x, c=ty.offs[k]: padd(x, num(c)), off); ty = ty.fields[k]
            elif ty.k == 'array':
                ty = ty.elem; off = self._addscaled(off, v, ty.size)
            else: raise AnalysisError('gep type')
        keep = i.gty.k == 'array' or len(i.ops) > 2 or (off.var is None and off.leaf is ZERO)
        def f(p, o):
            if not isinstance(p, Ptr): return Ptr(atom('weird', p)) if isinstance(p, (Poly, Sx)) else NULL
            ntag = tag if tag is not None else (p.tag if (keep or p.tag) and i.gty.k != 'struct' else p.tag if keep else None)
            return Ptr(p.root, padd(p.off, o), ntag)
        return self.ap2(f, base, off)
    def _addscaled(self, off, v, sz):
        return self.ap2(lambda a, b: padd(a, pscale(b, sz)) if isinstance(b, Poly) else padd(a, fn('badidx')), off, v)
    def boolof(self, d):
        """numeric -> boolean diagram (!= 0)"""
        def f(x):
            if x is True or x is False: return leaf(x)
            if isinstance(x, Poly): return bnot(self.eq0(x))
            return bvar(atom('truth', x))
        return self.ap1(f, d)
    def numof(self, d):
        return self.ap1(lambda x: ONE if x is True else ZERO if x is False else x, d)
    def eq0(self, p):
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if len(m) == 1 and m[0][0].kind == 'fn' and m[0][0].args[0] == 'strcmpnz' and m[0][1] == 1: return F
        return cmp_eq(p)
    def _eqx(self, x, y):
        for p, q in ((x, y), (y, x)):
            if isinstance(p, Ptr) and p.root is None and isinstance(q, Poly) and q.const() is not None: return T if q.const() == p.off.const() else F
        return bvar(atom('eqx', x, y))
    def cmpv(self, pred, a, b):
        def pe(x, y):
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x is y or (x.root is y.root and x.off is y.off): return T
                if x.root is y.root:
                    return cmp_eq(psub(x.off, y.off))
                if isinstance(x.root, Obj) and (y.root is None or isinstance(y.root, Obj)): return F
                if isinstance(y.root, Obj) and x.root is None: return F
                for p, q in ((x, y), (y, x)):
                    if q.root is None and isinstance(p.root, Atom) and (p.root.kind == 'func' or (p.tag is not None and p.off.const()) or (p.root.kind == 'param' and p.root.args == ('this',))): return F
                al = self.alias(x, y) if x.root is not None and y.root is not None else None
                if al == 'no': return F
                if al is not None and al != 'must': return al
                xx, yy = Ptr(x.root, x.off), Ptr(y.root, y.off)
                if yy.root is not None and (xx.root is None or (isinstance(xx.root, Atom) and isinstance(yy.root, Atom) and xx.root.id > yy.root.id)): xx, yy = yy, xx
                return bvar(atom('eqp', xx, yy))
            if isinstance(x, bool) and isinstance(y, bool): return T if x == y else F
            if isinstance(x, Poly) and isinstance(y, Poly): return self.eq0(psub(x, y))
            if x is y: return T
            return self._eqx(x, y)
        def lt(x, y, strict):
            if isinstance(x, Poly) and isinstance(y, Poly): return cmp_lt(psub(x, y), strict)
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.root is y.root: return cmp_lt(psub(x.off, y.off), strict)
            return bvar(atom('ltx', x, y, strict))
        ints = {'eq': lambda x, y: pe(x, y), 'ne': lambda x, y: bnot(pe(x, y)),
                'sgt': lambda x, y: lt(y, x, True), 'sge': lambda x, y: lt(y, x, False), 'slt': lambda x, y: lt(x, y, True), 'sle': lambda x, y: lt(x, y, False)}
        P = pred
        if P in ('ugt', 'uge', 'ult', 'ule'): P = 's' + P[1:]
        if P in ('oeq', 'ueq'): P = 'eq'
        if P in ('one', 'une'): P = 'ne'
        if P in ('ogt',): P = 'sgt'
        if P in ('oge',): P = 'sge'
        if P in ('olt',): P = 'slt'
        if P in ('ole',): P = 'sle'
        if P == 'ord' or P == 'true': return T
        if P == 'uno' or P == 'false': return F
        return self.ap2(ints[P], a, b)
    # ------------------------------------------------------------------ arithmetic
    def arith(self, op, a, b):
        def f(x, y):
            if x is UNDEF or y is UNDEF: return UNDEF
            if isinstance(x, bool) or isinstance(y, bool):
                if op in ('and', 'or', 'xor') and isinstance(x, bool) and isinstance(y, bool):
                    return {'and': x and y, 'or': x or y, 'xor': x != y}[op]
                x = (ONE if x else ZERO) if isinstance(x, bool) else x; y = (ONE if y else ZERO) if isinstance(y, bool) else y
            if not isinstance(x, Poly) or not isinstance(y, Poly):
                if isinstance(x, Ptr) and isinstance(y, Ptr) and op == 'sub' and x.root is y.root: return psub(x.off, y.off)
                return fn('op_' + op, x, y)
            if op in ('add', 'fadd'): return padd(x, y)
            if op in ('sub', 'fsub'): return psub(x, y)
            if op in ('mul', 'fmul'): return pmul(x, y)
            if op == 'fdiv': return pdiv(x, y)
            cx, cy = x.const(), y.const()
            if op in ('sdiv', 'udiv'):
                if cx is not None and cy: return num(int(cx / cy) if (cx / cy) >= 0 else -int(-cx / cy))
                if cy == 1: return x
                if cy and all(Fraction(k / cy).denominator == 1 for k in x.t.values()) and x.t: return pscale(x, Fraction(1) / cy)
                return fn('idiv', x, y)
            if op in ('srem', 'urem'):
                if cx is not None and cy: return num(cx - cy * int(cx / cy))
                return fn('irem', x, y)
            if op == 'shl' and cy is not None: return pscale(x, 2 ** int(cy))
            if op == 'and' and cx is not None and cy is not None: return num(int(cx) & int(cy))
            if op == 'or' and cx is not None and cy is not None: return num(int(cx) | int(cy))
            if op == 'and' and (cx == 0 or cy == 0): return ZERO
            if op == 'or' and cx == 0: return y
            if op == 'or' and cy == 0: return x
            if op == 'xor' and cx is not None and cy is not None: return num(int(cx) ^ int(cy))
            return fn('op_' + op, x, y)
        return self.ap2(f, a, b)
    # ------------------------------------------------------------------ functions
    def call_function(self, f, args, st, inst=None):
        """analyse f in context; returns (ret DD, State) or (None, None) if it never returns"""
        if len(self.callstack) > 60: raise AnalysisError('call depth')
        self.analysed.add(f.name); val.tick()
        env = {}
        for p, a in zip(f.params, args): env[p] = a
        saved = self.callstack; self.callstack = saved + ((inst.idx if inst is not None else -1, f.name),)
        outer = st.pc; self.callpc[self.callstack] = outer
        s0 = State(dict(st.mem), T)
        ls, inner = cfg.loops(f)
        res = self.region(f, [b for b in cfg.rpo(f)], None, {f.blocks[0]: [(None, s0)]}, env)
        self.callstack = saved
        rets = res['rets']
        if not rets: return None, None
        v, s = rets[0]
        for v2, s2 in rets[1:]:
            s, c = self.merge(s, s2)
            v = ite(c, v, v2) if v is not None else None
        s.pc = band(outer, s.pc)
        return v, s
    def region(self, f, order, loop, incoming, env):
        """evaluate blocks `order` (topological, inner loops collapsed) whose innermost containing loop is `loop`"""
        ls, inner = cfg.loops(f)
        header = loop.header if loop else None
        res = {'rets': [], 'exits': [], 'back': []}
        inloop = loop.blocks if loop else None
        done = set()
        def send(src, dst, s):
            if s.pc is F: return
            if loop is not None and dst is header: res['back'].append((src, s))
            elif inloop is not None and dst not in inloop: res['exits'].append((src, dst, s))
            else: incoming.setdefault(dst, []).append((src, s))
        for b in order:
            if b in done: continue
            L = inner.get(b)
            if L is not loop:
                # b belongs to an inner loop: find the child loop whose header is b
                M = L
                while M.parent is not loop:
                    M = M.parent
                    if M is None: break
                if M is None or b is not M.header: continue
                for x in M.blocks: done.add(x)
                inc = incoming.pop(b, None)
                if not inc: continue
                for src, dst, s in self.eval_loop(f, M, inc, env): send(src, dst, s)
                continue
            inc = incoming.pop(b, None)
            if not inc: continue
            st = self.enter(b, inc, env, loop if b is header else None)
            self.block(b, st, env, send, res)
        return res
    def enter(self, b, inc, env, isheader):
        """merge incoming edge states of b and evaluate its phis"""
        phis = [i for i in b.insts if i.op == 'phi']
        if isheader is not None:
            return inc[0][1]      # phis were set by eval_loop
        def pv(i, src, s):
            if s.phiv is not None and i in s.phiv: return s.phiv[i]
            for v, blk in i.incoming:
                if blk is src: return self.value(v, env)
            raise AnalysisError('phi')
        src, s = inc[0]
        vals = [pv(i, src, s) for i in phis]
        s = s.copy()
        for src2, s2 in inc[1:]:
            v2 = [pv(i, src2, s2) for i in phis]
            s, c = self.merge(s, s2)
            vals = [ite(c, a, d) for a, d in zip(vals, v2)]
        for i, v in zip(phis, vals): env[i] = v
        return s
    def eval_loop(self, f, L, inc, env):
        header = L.header
        phis = [i for i in header.insts if i.op == 'phi']
        # merged entry state
        def pv(i, src, s):
            if s.phiv is not None and i in s.phiv: return s.phiv[i]
            for v, blk in i.incoming:
                if blk is src: return self.value(v, env)
        src, s = inc[0]; vals = [pv(i, src, s) for i in phis]; s = s.copy()
        for src2, s2 in inc[1:]:
            v2 = [pv(i, src2, s2) for i in phis]
            s, c = self.merge(s, s2)
            vals = [ite(c, a, d) for a, d in zip(vals, v2)]
        key = (self.callstack, header.idx)
        outer = s.pc
        r = self.try_unroll(f, L, phis, vals, s, env, key)
        if r is not None: return r
        order = [b for b in cfg.rpo(f) if b in L.blocks]
        mod = dict(self.modcache.get(key, {})); closed = {}
        inv = {}; undo = {}
        if self.abstract_inv and self.abstract_inv(f, L): inv, undo = self._name_invariants(L, env, key)
        ev0 = len(self.events); ls0 = len(self.loops); st0 = len(self.stores); fa0 = len(self.facts)
        saved = self.loopstack; self.loopstack = saved + (key,)
        for it in range(12):
            del self.events[ev0:]; del self.loops[ls0:]; del self.stores[st0:]; del self.facts[fa0:]
            rec = LoopRec(key, L, self.callstack); rec.pre = s; rec.entry = dict(zip(phis, vals)); rec.outer_pc = outer; rec.loopstack = saved
            mus = []
            for i, v in zip(phis, vals):
                a = atom('mu', key, 'phi%d' % i.idx)
                if i.ty.k == 'ptr': mv = leaf(Ptr(a))
                elif i.ty.k == 'int' and i.ty.width == 1: mv = bvar(a)
                else: mv = leaf(patom(a))
                env[i] = mv; mus.append(mv)
            hs = State(dict(s.mem), T)
            for cls, ptrs in mod.items():
                hs.mem[cls] = Mem('mu', cls, key, self.chain(s, cls), frozenset(ptrs))
            rec.head = dict(hs.mem)
            for i, cf in closed.items(): env[i] = cf; mus[phis.index(i)] = cf
            self.loopstores.append({})
            res = self.region(f, order, L, {header: [(None, hs.copy())]}, env)
            got = self.loopstores.pop()
            new = False
            for cls, ptrs in got.items():
                if isinstance(cls[1] if len(cls) > 1 else None, Obj) and cls[1].kind in ('alloca', 'heap') and cls[1].info == ('in', key): pass
                cur = mod.setdefault(cls, set()) if cls not in mod else mod[cls]
                if cls not in hs.mem or hs.mem[cls].kind != 'mu' or hs.mem[cls].a != key: new = True
                if not ptrs <= set(cur):
                    new = True; mod[cls] = set(cur) | ptrs
            if not new:
                if not res['back'] or closed: break
                closed = self._inductions(phis, vals, mus, res['back'], env, key)
                self._twins(phis, vals, mus, res['back'], env, closed)
                if not closed: break
        else:
            raise AnalysisError('loop summary did not stabilise in %s' % f.dem)
        self.loopstack = saved
        self.modcache[key] = mod
        rec.inv = inv
        for i, d in undo.items(): env[i] = d
        rec.phis = {i: (m, v) for i, m, v in zip(phis, mus, vals)}
        if res['back']:
            src, ls_ = res['back'][0]; lv = [self._pin(i, src, env) for i in phis]; ls_ = ls_.copy()
            for src2, s2 in res['back'][1:]:
                v2 = [self._pin(i, src2, env) for i in phis]
                ls_, c = self.merge(ls_, s2)
                lv = [ite(c, a, d) for a, d in zip(lv, v2)]
            rec.latch = ls_; rec.next = dict(zip(phis, lv))
        else:
            rec.latch = None; rec.next = {}
        rec.exits = res['exits']; rec.rets = res['rets']
        rec.mod = mod
        if not self.quiet: self.loops.append(rec)
        for sm in self.loopstores:
            for cls, ptrs in got.items(): sm.setdefault(cls, set()).update(ptrs)
        out = []
        nr = self.noret(f)
        care = F
        for src, dst, es in res['exits']:
            if dst not in nr: care = bor(care, es.pc)
        if care is not F and care is not T: self.fact(outer, care, header.insts[-1])
        gone = [k for k, (src, dst, es) in enumerate(res['exits']) if dst not in nr]
        rp = {k: restrict(res['exits'][k][2].pc, care) for k in gone}
        un = F
        for k in gone: un = bor(un, rp[k])
        if gone and un is not T:                               # the exits share out all ways to leave: the widest one is what the others leave over
            big = max(gone, key=lambda k: (len(rp[k].sup), k)); un = F
            for k in gone:
                if k != big: un = bor(un, rp[k])
            rp[big] = bnot(un)
        for k, (src, dst, es) in enumerate(res['exits']):
            e2 = es.copy()
            e2.pc = band(outer, rp[k] if k in rp else es.pc); out.append((src, dst, e2))
            if self.exit_hook is not None and dst not in nr: self.exit_hook(self, f, L, e2)
        return out
    exit_hook = None
    # ------------------------------------------------------------------ accesses to released objects (fixed-shape analyses)
    freed = None; uses = None
    rewrite = None      # f(I, st, where, value, inst): the value to be stored instead
    on_store = None     # called before a pointer is stored: f(I, st, where, value, inst)
    def track_free(self): self.freed = {}; self.uses = []
    bounds = None; outside = None       # {root: size in bytes}: accesses beyond it are recorded in outside
    def release(self, st, pd, inst):
        import util
        if self.freed is None: return
        pc = self.fullpc(st.pc, self.callstack, 0)
        for cond, p in (paths(pd) if pd.var is not None else [((), pd.leaf)]):
            if not isinstance(p, Ptr) or p.root is None: continue
            c = pc
            for a, b in cond: c = band(c, bvar(a) if b else bnot(bvar(a)))
            if c is F: continue
            prev = self.freed.get(p.root, F)
            if band(prev, c) is not F: self.uses.append(('double', inst, p.root, band(prev, c)))
            self.freed[p.root] = bor(prev, c)
    monitor = None      # f(I, st, inst, pointer, condition): called for every access
    def touch(self, st, pd, inst):
        if self.monitor:
            for cond, p in (paths(pd) if pd.var is not None else [((), pd.leaf)]): self.monitor[0](self, st, inst, p, cond)
        if self.loopstack: return
        for cond, p in (paths(pd) if pd.var is not None else [((), pd.leaf)]):
            if self.bounds and isinstance(p, Ptr) and p.root in self.bounds:
                k = p.off.const()
                if k is None or not 0 <= k < self.bounds[p.root]:
                    c = self.fullpc(st.pc, self.callstack, 0)
                    if self.assume is not T: c = band(c, self.assume)
                    for a, b in cond: c = band(c, bvar(a) if b else bnot(bvar(a)))
                    if c is not F: self.outside.append((inst, p, c))
            if not isinstance(p, Ptr) or p.root not in (self.freed or ()): continue
            c = band(self.freed[p.root], self.fullpc(st.pc, self.callstack, 0))
            for a, b in cond: c = band(c, bvar(a) if b else bnot(bvar(a)))
            if c is not F: self.uses.append(('use', inst, p.root, c))
    abstract_inv = None
    def _name_invariants(self, L, env, key):
        """gated numbers computed before the loop and used in it get a name of their own"""
        inv = {}; undo = {}
        for b in L.blocks:
            for i in b.insts:
                for o in (i.ops if i.op != 'phi' else [v for v, blk in i.incoming]):
                    if isinstance(o, (Inst, Arg)) and o in env and not (isinstance(o, Inst) and o.block in L.blocks) and o not in undo:
                        d = env[o]
                        if (o.ty.k == 'double' or o.ty.k == 'int' and o.ty.width > 1) and d.var is not None and all(isinstance(l, Poly) for l in leaves(d)):
                            a = atom('inv', key, d); inv[a] = d; undo[o] = d; env[o] = leaf(patom(a))
        return inv, undo
    def _inductions(self, phis, vals, mus, back, env, key):
        """phis advancing by a loop-invariant stride: canonical closed form init + stride * iter"""
        out = {}
        it = patom(atom('mu', key, 'iter'))
        for i, v, m in zip(phis, vals, mus):
            if m.var is not None or v.var is not None and i.ty.k == 'ptr' and len(leaves(v)) > 4: continue
            nx = [self._pin(i, src, env) for src, _ in back]
            if any(n is not nx[0] for n in nx) or nx[0].var is not None: continue
            n = nx[0].leaf
            if isinstance(m.leaf, Poly) and isinstance(n, Poly):
                d = psub(n, m.leaf)
                if not d.t or key in deps(d): continue
                out[i] = self.ap1(lambda x: padd(x, pmul(d, it)) if isinstance(x, Poly) else fn('badind', x, d), v)
            elif isinstance(m.leaf, Ptr) and isinstance(n, Ptr) and n.root is m.leaf.root:
                d = psub(n.off, m.leaf.off)
                if not d.t or key in deps(d): continue
                out[i] = self.ap1(lambda x: Ptr(x.root, padd(x.off, pmul(d, it)), x.tag) if isinstance(x, Ptr) else x, v)
        return out
    def _twins(self, phis, vals, mus, back, env, closed):
        """accumulators that start alike and always grow alike are one variable"""
        import util
        c = [(i, v, m) for i, v, m in zip(phis, vals, mus) if i.ty.k == 'double' and i not in closed and m.var is None]
        c = [x for x in c if any(x[1] is y[1] for y in c if y is not x)]
        if not c: return
        src, st = back[0]; st = st.copy(); lv = [self._pin(x[0], src, env) for x in c]
        for src2, s2 in back[1:]:
            v2 = [self._pin(x[0], src2, env) for x in c]
            st, g = self.merge(st, s2); lv = [ite(g, a, d) for a, d in zip(lv, v2)]
        inc = [util.difdd(n, x[2]) if all(isinstance(l, Poly) for l in leaves(n)) else None for n, x in zip(lv, c)]
        for k, (i, v, m) in enumerate(c):
            for j in range(k):
                if c[j][0] in closed or c[j][1] is not v: continue
                if inc[k] is not None and inc[k] is inc[j] or lv[k] is lv[j]: closed[i] = c[j][2]; break
    def _pin(self, i, src, env):
        for v, blk in i.incoming:
            if blk is src: return self.value(v, env)
    def try_unroll(self, f, L, phis, vals, s, env, key):
        """complete unrolling when the trip count is decided by constants"""
        if not self.unroll and not self._const_trip(L, phis, vals, env): return None
        order = [b for b in cfg.rpo(f) if b in L.blocks]
        ev0 = len(self.events); ls0 = len(self.loops); st0 = len(self.stores); fa0 = len(self.facts)
        outer = s.pc; cur = s.copy(); cur.pc = T
        # only if some exiting branch condition depends on constant phis: test by trial
        out = []
        envs = dict(env)
        cv = vals
        pm = []
        self.loopstores.append({})
        acc = T
        for n in range(self.unroll or MAXUNROLL):
            for i, v in zip(phis, cv): env[i] = v
            self.callstack_push = None
            saved = self.callstack; self.callstack = saved + (('it', (n, L.header.idx)),); self.callpc[self.callstack] = outer
            try:
                res = self.region(f, order, L, {L.header: [(None, cur.copy())]}, env)
            finally:
                self.callstack = saved
            for src, dst, es in res['exits']:
                e2 = es.copy(); e2.pc = band(outer, e2.pc)
                e2.phiv = {p: self._pin(p, src, env) for p in dst.insts if p.op == 'phi'}
                out.append((src, dst, e2, {}))
            # the loop must be left by a constant decision: after iteration n either everything leaves or header exit was decided F
            hdr_exit = [1 for src, dst, es in res['exits'] if src is L.header]
            if not res['back']:
                got = self.loopstores.pop()
                for sm in self.loopstores:
                    for cls, ptrs in got.items(): sm.setdefault(cls, set()).update(ptrs)
                return [(a, b_, c) for a, b_, c, _ in out]
            src, ls_ = res['back'][0]; lv = [self._pin(i, src, env) for i in phis]; ls_ = ls_.copy()
            for src2, s2 in res['back'][1:]:
                v2 = [self._pin(i, src2, env) for i in phis]
                ls_, c = self.merge(ls_, s2); lv = [ite(c, a, d) for a, d in zip(lv, v2)]
            cv = lv; cur = ls_
        del self.events[ev0:]; del self.loops[ls0:]; del self.stores[st0:]; del self.facts[fa0:]; env.clear(); env.update(envs); self.loopstores.pop()
        return None
    def _const_trip(self, L, phis, vals, env):
        """some exit test compares a constant-initialised, constant-stepped counter with a constant"""
        init = {i: v for i, v in zip(phis, vals)}
        def konst(v, depth=0):
            if isinstance(v, Const): return v.kind in ('int', 'null')
            if isinstance(v, Inst):
                if v in init:
                    d = init[v]
                    if v.ty.k == 'ptr': return d.var is None and isinstance(d.leaf, Ptr) and d.leaf.root is not None and d.leaf.off.const() is not None and any(self._ptrstep(v, w, L) for w, blk in v.incoming if blk in L.blocks)
                    return d.var is None and isinstance(d.leaf, Poly) and d.leaf.const() is not None and v.ty.k == 'int' and any(self._stepped(v, w, L) for w, blk in v.incoming if blk in L.blocks)
                if v.block in L.blocks:
                    return depth < 4 and v.op in ('add', 'sub', 'sext', 'zext', 'trunc', 'icmp', 'getelementptr') and all(konst(o, depth + 1) for o in v.ops)
            if isinstance(v, (Inst, Arg)):
                d = env.get(v)
                if d is None or d.var is not None: return False
                return isinstance(d.leaf, Poly) and d.leaf.const() is not None or isinstance(d.leaf, Ptr) and d.leaf.off.const() is not None
            return v.ty.k == 'ptr' if hasattr(v, 'ty') else False
        for b in L.blocks:
            t = b.insts[-1]
            if t.op == 'br' and len(t.succ) == 2 and any(s not in L.blocks for s in t.succ):
                c = t.ops[0]
                if isinstance(c, Inst) and c.op == 'icmp' and any(isinstance(o, Inst) for o in c.ops) and konst(c): return True
        return False
    def _ptrstep(self, phi, w, L):
        return isinstance(w, Inst) and w.op == 'getelementptr' and w.ops[0] is phi and all(isinstance(o, Const) for o in w.ops[1:])
    def _stepped(self, phi, w, L):
        return isinstance(w, Inst) and w.op in ('add', 'sub') and any(o is phi for o in w.ops) and any(isinstance(o, Const) for o in w.ops)
    loopstores = []
    unroll = 0          # >0: analyse every loop iteration by iteration when it ends within that many (fixed shapes)
    # ------------------------------------------------------------------ blocks
    def block(self, b, st, env, send, res):
        for i in b.insts:
            op = i.op
            if op == 'phi': continue
            if op in ('add','sub','mul','fadd','fsub','fmul','fdiv','sdiv','udiv','srem','urem','and','or','xor','shl','lshr','ashr','frem'):
                env[i] = self.arith(op, self.value(i.ops[0], env), self.value(i.ops[1], env))
            elif op == 'fneg':
                env[i] = self.ap1(lambda x: pneg(x) if isinstance(x, Poly) else fn('neg', x), self.value(i.ops[0], env))
            elif op == 'icmp' or op == 'fcmp':
                a, c = self.value(i.ops[0], env), self.value(i.ops[1], env)
                if i.ops[0].ty.k == 'int' and i.ops[0].ty.width == 1:
                    pass
                env[i] = self.cmpv(i.pred, a, c)
            elif op == 'load':
                ty = 'ptr' if i.ty.k == 'ptr' else 'double' if i.ty.k == 'double' else 'int'
                v = self.load(st, self.value(i.ops[0], env), ty)
                if self.freed or self.bounds or self.monitor: self.touch(st, self.value(i.ops[0], env), i)
                if i.ty.k == 'int' and i.ty.width == 1: v = self.boolof(v)
                env[i] = v
            elif op == 'store':
                v = self.value(i.ops[0], env)
                if i.ops[0].ty.k == 'int': v = self.numof(v)
                if self.freed or self.bounds or self.monitor: self.touch(st, self.value(i.ops[1], env), i)
                if self.on_store is not None and i.ops[0].ty.k == 'ptr': self.on_store(self, st, self.value(i.ops[1], env), v, i)
                if self.rewrite is not None: v = self.rewrite(self, st, self.value(i.ops[1], env), v, i)
                self.store(st, self.value(i.ops[1], env), v, i)
            elif op == 'getelementptr':
                env[i] = self.gep(i, [self.value(o, env) for o in i.ops])
            elif op == 'alloca':
                o = self.objs.get((self.callstack, i.idx))
                if o is None: o = self.objs[(self.callstack, i.idx)] = Obj('alloca', i.name or str(i.idx), i.aty, None, i)
                st.mem[('A', o)] = Mem('undef', ('A', o))
                env[i] = leaf(Ptr(o))
            elif op in ('zext', 'sext'):
                env[i] = self.numof(self.value(i.ops[0], env))
            elif op == 'trunc':
                v = self.value(i.ops[0], env)
                env[i] = self.boolof(v) if i.ty.width == 1 else v
            elif op in ('sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                env[i] = self.numof(self.value(i.ops[0], env))
            elif op in ('fptosi', 'fptoui'):
                def ft(x):
                    if isinstance(x, Poly):
                        c = x.const()
                        if c is not None: return num(int(c))
                        return fn('int', x)
                    return x if x is UNDEF else fn('int', x)
                env[i] = self.ap1(ft, self.value(i.ops[0], env))
            elif op == 'select':
                c = self._b(self.value(i.ops[0], env))
                if self.assume is not T: c = restrict(c, self.assume)
                env[i] = ite(c, self.value(i.ops[1], env), self.value(i.ops[2], env))
            elif op == 'br':
                if not i.ops: send(b, i.succ[0], st); return
                c = self._b(self.value(i.ops[0], env))
                if i.succ[0] is i.succ[1]: send(b, i.succ[0], st); return
                if self.assume is not T: c = restrict(c, self.assume)
                c = restrict(c, st.pc) if st.pc is not T else c
                if c is T: send(b, i.succ[0], st); return
                if c is F: send(b, i.succ[1], st); return
                nr = self.noret(b.fn)
                d0, d1 = i.succ[0] in nr, i.succ[1] in nr
                if d0 != d1:
                    # one side never returns: the other continues under a recorded fact instead of a longer path condition
                    live = bnot(c) if d0 else c
                    s1 = State(dict(st.mem), band(st.pc, bnot(live))); s2 = State(st.mem, st.pc)
                    self.fact(st.pc, live, i)
                    send(b, i.succ[0 if d0 else 1], s1); send(b, i.succ[1 if d0 else 0], s2); return
                s1 = State(dict(st.mem), band(st.pc, c)); s2 = State(st.mem, band(st.pc, bnot(c)))
                send(b, i.succ[0], s1); send(b, i.succ[1], s2); return
            elif op == 'switch':
                v = self.value(i.ops[0], env); rest = T
                tgt = {}
                for cv, blk in i.cases:
                    c = self.cmpv('eq', self.numof(v), self.numof(self.value(cv, env))); c = band(rest, c); rest = band(rest, bnot(c))
                    tgt[blk] = bor(tgt.get(blk, F), c)
                d = i.succ[0]; tgt[d] = bor(tgt.get(d, F), rest)
                for blk, c in tgt.items():
                    c = band(st.pc, c)
                    if c is not F: send(b, blk, State(dict(st.mem), c))
                return
            elif op == 'ret':
                res['rets'].append((self.value(i.ops[0], env) if i.ops else None, st)); return
            elif op == 'unreachable': return
            elif op == 'resume': return
            elif op == 'call' or op == 'invoke':
                r = self.call(i, st, env)
                if r is False: return
                if op == 'invoke': send(b, i.succ[0], st); return
            elif op == 'extractvalue':
                v = self.value(i.ops[0], env)
                k = i.indices[0]
                env[i] = self.ap1(lambda x: x.args[k] if isinstance(x, Sx) and x.kind == 'tup' and k < len(x.args) and not isinstance(x.args[k], bool) else (leaf(x.args[k]) if isinstance(x, Sx) and x.kind == 'tup' else fn('xv', x, num(k))), v)
            elif op == 'insertvalue':
                env[i] = leaf(Sx('iv', i.idx))
            elif op == 'landingpad': env[i] = leaf(Sx('lp'))
            else:
                env[i] = leaf(fn('inst_' + op, num(i.idx)))
        raise AnalysisError('block without terminator')
    def fullpc(self, pc, cs, base=1):
        """a path condition inside a callee, together with the conditions of the calls that lead to it"""
        for k in range(base + 1, len(cs) + 1):
            if cs[:k] in self.callpc: pc = band(pc, self.callpc[cs[:k]])
        return pc
    def fact(self, pc, c, inst):
        self.facts.append((pc, c, self.callstack, self.loopstack, inst))
    _nr = {}
    def noret(self, f):
        r = self._nr.get(f)
        if r is None:
            ok = set(); st = [b for b in f.blocks if b.insts and b.insts[-1].op == 'ret']
            while st:
                b = st.pop()
                if b in ok: continue
                ok.add(b); st.extend(b.preds)
            r = self._nr[f] = {b for b in f.blocks if b not in ok}
        return r
    def _b(self, d):
        def f(x):
            if x is True or x is False: return leaf(x)
            if x is UNDEF: return bvar(atom('undefcond', next(self.nserial)))
            if isinstance(x, Poly): return bnot(self.eq0(x))
            return bvar(atom('truth', x))
        return self.ap1(f, d) if any(not isinstance(l, bool) for l in leaves(d)) else d
    def event(self, kind, st, data, inst):
        if kind in self.log or '*' in self.log:
            self.events.append(Event(kind, st.pc, data, inst, self.callstack, dict(st.mem) if kind in self.logmem else None, self.loopstack))
    logmem = set()
    # ------------------------------------------------------------------ calls
    def call(self, i, st, env):
        """returns False if control does not continue"""
        callee = i.callee
        if not isinstance(callee, FRef):
            args = [self.value(o, env) for o in i.ops]
            f = self.resolve_indirect(i, env, args)
            if f is None:
                self.unknown_ext.add('<indirect>')
                env[i] = self.opaque('indirect', args, i); return True
            name = f.name
        else:
            name = callee.name
        self.ncalls += 1
        f = self.mod.funcs.get(name)
        args = [self.value(o, env) if o is not None else None for o in i.ops]
        dem = f.dem if f else name
        h = self.hooks.get(name) or self.hooks.get(dem.split('(')[0])
        if h is not None:
            r = h(self, i, args, st, env)
            if r is False: return False
            if r is not None and r is not NotImplemented:
                env[i] = r; return True
            if r is None: env[i] = leaf(UNDEF); return True
        import libmodel
        r = libmodel.model(self, i, name, dem, args, st, env)
        if r is not NotImplemented:
            if r is False: return False
            env[i] = r if r is not None else leaf(UNDEF)
            return True
        if f is not None and not f.decl and self.is_own(f):
            if name in self.cut or dem.split('(')[0] in self.cut:
                env[i] = self.cut_call(f, args, i, st); return True
            if sum(n == name for _, n in self.callstack if isinstance(n, str)) > self.unroll:
                env[i] = self.cut_call(f, args, i, st); return True
            if self.skippable(f):
                env[i] = leaf(UNDEF); return True
            self.event('call', st, (name, args), i)
            v, s = self.call_function(f, args, st, i)
            if s is None: return False
            st.mem = s.mem; st.pc = s.pc
            env[i] = v if v is not None else leaf(UNDEF)
            return True
        if f is not None and not f.decl and 'operator<<' not in dem and 'operator>>' not in dem and not any(n == name for _, n in self.callstack[-40:] if isinstance(n, str)):
            if self.inlinable(f):
                v, s = self.call_function(f, args, st, i)
                if s is None: return False
                st.mem = s.mem; st.pc = s.pc
                env[i] = v if v is not None else leaf(UNDEF)
                return True
            W, R, E = self.eff.summary(name)
            if any(o[0] in ('param', 'load', 'global') for t, o in W):
                self.unknown_ext.add(dem)
                env[i] = self.cut_call(f, args, i, st); return True
        self.unknown_ext.add(dem)
        env[i] = self.opaque(name, args, i)
        # allocas whose address is passed to an unknown function are clobbered
        for a in args:
            if a is None: continue
            for l in leaves(a):
                if isinstance(l, Ptr) and isinstance(l.root, Obj) and l.root.kind == 'alloca':
                    self.havoc(st, ('A', l.root), ('ext', name, self.callstack, i.idx))
        return True
    def inlinable(self, f, depth=0):
        """a library template whose body is plain code (no I/O, no exceptions, no unmodelled externals)"""
        c = self._inl.get(f.name)
        if c is None:
            from effects import PURE_EXT
            self._inl[f.name] = False
            ok = depth < 6 and len(f.blocks) <= 40
            if ok:
                for b in f.blocks:
                    for i in b.insts:
                        if i.op == 'invoke' or i.op == 'landingpad': ok = False
                        elif i.op == 'call':
                            if not isinstance(i.callee, FRef): ok = False; break
                            n = i.callee.name; g = self.mod.funcs.get(n)
                            if PURE_EXT.match(n) or NORETURN.match(n) or n.startswith('llvm.') or n in ('memcpy', 'memmove', 'memset'): continue
                            if g is None or g.decl or self.is_own(g) or not self.inlinable(g, depth + 1): ok = False
                        if not ok: break
                    if not ok: break
            c = self._inl[f.name] = ok
        return c
    _inl = {}
    def is_own(self, f): return f.file is not None and not f.file.startswith('/usr')
    def skippable(self, f):
        """no effect but I/O, no result"""
        W, R, E = self.eff.summary(f.name)
        return f.ret.k == 'void' and not any(w[1][0] != 'ret' for w in W) and all(IO_EXT.match(e) or e.startswith('llvm.') or e.startswith('_ZNSo') or e.startswith('_ZStls') for e in E)
    def resolve_indirect(self, i, env, args): return None
    def opaque(self, name, args, i, extra=()):
        key = tuple(Sx('dd', a.id) if a is not None and a.var is not None else (a.leaf if a is not None else None) for a in args)
        if i.ty.k == 'void': return leaf(UNDEF)
        if i.ty.k == 'ptr': return leaf(Ptr(atom('ret', name, key, self.callstack, i.idx)))
        if i.ty.k == 'int' and i.ty.width == 1: return bvar(atom('ret', name, key, self.callstack, i.idx))
        return leaf(patom(atom('ret', name, key, self.callstack, i.idx)))
    def _isptr(self, p, cls):
        """is the cell behind p declared as a pointer?"""
        if p.tag is not None:
            t = self.mod.struct(p.tag[0])
            return t is not None and p.tag[1] in t.offs and t.fields[t.offs.index(p.tag[1])].k == 'ptr'
        o = p.root
        return isinstance(o, Obj) and o.kind == 'alloca' and p.off.const() == 0 and o.info is not None and getattr(o.info, 'aty', None) is not None and o.info.aty.k == 'ptr'
    def cut_call(self, f, args, i, st):
        """uninterpreted project function: havoc what it may write, result is a function of arguments and readable memory"""
        W, R, E = self.eff.summary(f.name)
        def classes(S):
            out = set()
            for t, o in S:
                if t is not None: out.add(('S',) + t)
                elif o[0] == 'param' and o[1] < len(args):
                    for l in leaves(args[o[1]]):
                        if isinstance(l, Ptr) and l.root is not None: out.add(self.cls_of(l, None))
                elif o[0] == 'load' and isinstance(o[1], tuple) and o[1][0] != 'raw': out.add(('E', ('S',) + o[1]))
                elif o[0] == 'load' and o[1][0] == 'raw':
                    pass
            return out
        rv = tuple(sorted(((repr(c), self.chain(st, c).sid) for c in classes(R)), key=repr))
        key = tuple(Sx('dd', a.id) if a.var is not None else a.leaf for a in args)
        tag = atom('callv', f.dem.split('(')[0], key, rv)
        self.event('cut', st, (f.name, args, tag), i)
        for c in classes(W):
            self.havoc(st, c, tag)
        # scalars written through pointer parameters
        for t, o in W:
            if t is None and o[0] == 'param' and o[1] < len(args):
                for l in leaves(args[o[1]]):
                    if isinstance(l, Ptr) and l.root is not None:
                        cls = self.cls_of(l, None)
                        if cls[0] == 'A' or l.tag is not None:
                            oa = atom('out', tag, o[1])
                            self.store(st, args[o[1]], leaf(Ptr(oa)) if self._isptr(l, cls) else leaf(patom(oa)), i)
                            break
        if f.ret.k == 'void': return leaf(UNDEF)
        if f.ret.k == 'ptr': return leaf(Ptr(atom('res', tag)))
        if f.ret.k == 'int' and f.ret.width == 1: return bvar(atom('res', tag))
        return leaf(patom(atom('res', tag)))
