"""Models of C/C++ library calls used by the value-graph analysis."""
import re
from val import *
from fractions import Fraction
from irload import sname

BS = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
NOEFFECT = re.compile(r'^(llvm\.(assume|stacksave|stackrestore|objectsize|is\.constant|va_start|va_end|trap|prefetch|donothing|dbg)|__cxa_(allocate|free)_exception|__cxa_begin_catch|__cxa_end_catch|__cxa_guard|__cxa_atexit|__gxx_personality)')
IO = re.compile(r'^(printf|fprintf|puts|fputs|putchar|putc|fputc|fflush|perror|fwrite|fclose|vprintf)$')

# ------------------------------------------------------------------ the text of a line, when its form is given: K=V[U] or K=V (I.lineform), with symbolic lengths of the parts
def lens(): return [patom(atom('len', x)) for x in 'kvu']
def linelen(I, s):
    fm = getattr(I, 'lineform', None)
    if fm is None or not (isinstance(s, Sx) and s.kind == 'sline'): return None
    k, v, u = lens(); n = padd(padd(k, ONE), v)
    return padd(padd(n, u), num(2)) if fm == 'K=V[U]' else n
def position(I, s, q, how, const, rest):
    """where a delimiter stands in the line (-1: nowhere); None: not known"""
    n = linelen(I, s)
    if n is None or q not in ('=', '[', ']') or how not in ('find', 'rfind', 'find_first_of', 'find_last_of'): return None
    k, v, u = lens(); unit = I.lineform == 'K=V[U]'
    at = {'=': k, '[': padd(padd(k, ONE), v) if unit else num(-1), ']': psub(n, ONE) if unit else num(-1)}[q]
    if rest and how in ('rfind', 'find_last_of') and const[0] not in (-1, 2**64 - 1): return None
    if rest and how in ('find', 'find_first_of') and const[0] != 0 and at.const() is None:
        d = psub(at, rest[0])
        if lensign(d) != 1 and not iszero(d): return None
    return at
def part(I, s, a, n):
    """the characters [a, a+n) of a text; a part of the line by name where they are one"""
    L = linelen(I, s); raw = Sx('substr', s, a, n)
    if L is None or not isinstance(a, Poly) or not isinstance(n, Poly): return raw
    sn = n.const() if n.const() is not None else lensign(n)
    if sn is None: return raw
    end = L if sn < 0 or sn >= 2**31 else padd(a, n)
    over = psub(end, L)
    if over.const() is None and lensign(over) is None: return raw
    if (over.const() if over.const() is not None else lensign(over)) > 0: end = L
    k, v, u = lens(); e = lambda x, y: iszero(psub(x, y))
    if e(a, ZERO) and e(end, L): return s
    for name, x, y in (('key', ZERO, k), ('value', padd(k, ONE), padd(padd(k, ONE), v)), ('unit', padd(padd(k, ONE), v), L)):
        if e(a, x) and e(end, y) and (name != 'unit' or I.lineform == 'K=V[U]'): return Sx('part', name, s)
    return raw

def lf(d): return d.leaf if d.var is None else None

def cstr(I, p, st=None):
    """string value behind a const char* leaf"""
    if isinstance(p, Ptr):
        if isinstance(p.root, Obj) and p.root.kind == 'global' and p.root.info is not None and p.root.info.const and p.root.info.init is not None:
            v = p.root.info.init; off = p.off.const()
            if off is not None and v.kind == 'str':
                return Str(v.v[int(off):].split(b'\0')[0].decode('latin1'))
            if v.kind == 'zero': return Str('')
        if isinstance(p.root, Atom) and p.root.kind == 'cstr' and p.off is ZERO: return p.root.args[0]
        return Sx('sptr', p)
    return Sx('sptr', p if isinstance(p, Sx) else UNDEF)

def sload(I, st, pd): 
    return I.ap1(lambda p: I.loadc(I.chain(st, ('STR',)), Ptr(p.root, p.off), 'str') if isinstance(p, Ptr) and not (isinstance(p.root, Atom) and p.root.kind == 'vel') else (I._velem(p.root, 'str') if isinstance(p, Ptr) else leaf(Sx('sbad'))), pd)
def sstore(I, st, pd, v):
    from interp import Mem
    for cond, p in paths(pd):
        if not isinstance(p, Ptr): continue
        p = Ptr(p.root, p.off); n = I.chain(st, ('STR',)); val = v
        if cond:
            c = T
            for a, b in cond: c = band(c, bvar(a) if b else bnot(bvar(a)))
            val = ite(c, v, I.loadc(n, p, 'str'))
        st.mem[('STR',)] = Mem('store', ('STR',), n, p, val)
        for s in I.loopstores: s.setdefault(('STR',), set()).add(p)
        if I.track_stores: I.stores.append((p, v, st.pc, None, I.callstack, I.loopstack))
def vload(I, st, pd): return I.ap1(lambda p: I.loadc(I.chain(st, ('VEC',)), Ptr(p.root, p.off), 'vec') if isinstance(p, Ptr) else leaf(Sx('vbad')), pd)
def vstore(I, st, pd, v):
    from interp import Mem
    p = lf(pd)
    if not isinstance(p, Ptr): return
    p = Ptr(p.root, p.off); n = I.chain(st, ('VEC',))
    st.mem[('VEC',)] = Mem('store', ('VEC',), n, p, v)
    for s in I.loopstores: s.setdefault(('VEC',), set()).add(p)
    if I.track_stores: I.stores.append((p, v, st.pc, None, I.callstack, I.loopstack))

def streq(a, b):
    if isinstance(a, Str) and isinstance(b, Str): return T if a is b else F
    if a is b: return T
    x, y = (b, a) if isinstance(a, Str) else (a, b)
    return bvar(atom('streq', x, y))
def strcmp_val(a, b):
    if isinstance(a, Str) and isinstance(b, Str): return leaf(num(-1 if a.s < b.s else 1 if a.s > b.s else 0))
    c = streq(a, b)
    return ite(c, leaf(ZERO), leaf(fn('strcmpnz', a, b)))

def nfn(I, name, *ds):
    return applyn(lambda *xs: fn(name, *xs), ds)

def model(I, i, name, dem, args, st, env):
    """returns DD / None(void) / False(no return) / NotImplemented"""
    from effects import NORETURN
    short = dem.split('(')[0]
    if name.startswith('__isoc'): name = re.sub(r'^__isoc\d+_', '', name)
    if NORETURN.match(name):
        kind = 'exit' if name in ('exit', '_exit', '_Exit', 'quick_exit') else 'throw' if name in ('__cxa_throw', '__cxa_rethrow') or name.startswith('_ZSt') else 'assert' if name == '__assert_fail' else 'abort'
        I.event(kind, st, (name, args), i)
        return False
    if NOEFFECT.match(name): return I.opaque(name, args, i) if i.ty.k != 'void' else None
    # ---- math
    base = re.sub(r'^llvm\.(\w+)\..*', r'\1', name) if name.startswith('llvm.') else name
    m = re.match(r'^std::(pow|exp|log|sqrt|fabs|abs|min|max|fmin|fmax|floor|ceil|round|isnan|isinf|isfinite)\b', re.sub(r'^(double|float|int|bool|long|__gnu_cxx::[^ ]*|std::enable_if[^ ]*|[^ ]*__promote.*::__type) ', '', dem))
    if m: base = m.group(1)
    if re.match(r'^(__gnu_cxx::__promote_\d|.*)\bstd::pow<', dem): base = 'pow'
    if base in ('fabs', 'abs') and len(args) == 1:
        return I.ap1(lambda x: ite(cmp_lt(x), leaf(pneg(x)), leaf(x)) if isinstance(x, Poly) else leaf(fn('abs', x)), I.freeze(args[0], 8))
    if base in ('fmin', 'minnum', 'min', 'fmax', 'maxnum', 'max', 'smin', 'smax'):
        if i.ops[0].ty.k == 'ptr':
            # std::min/std::max return a reference
            t = 'double'
            a, b = I.load(st, args[0], t), I.load(st, args[1], t)
            c = I.cmpv('olt', a, b)
            return ite(c, args[0], args[1]) if 'min' in base else ite(c, args[1], args[0])
        # one canonical gate for min/max of (a, b), whichever order they are written in
        def mm(x, y):
            if not isinstance(x, Poly) or not isinstance(y, Poly): return leaf(fn(base, x, y))
            if x is y: return leaf(x)
            d = psub(x, y)
            c = d.const()
            if c is not None: return leaf((x if c < 0 else y) if 'min' in base else (y if c < 0 else x))
            k, q = norm_lead(d)
            if k < 0: x, y = y, x
            lt = bvar(atom('lt0', q))
            return ite(lt, leaf(x), leaf(y)) if 'min' in base else ite(lt, leaf(y), leaf(x))
        return I.ap2(mm, args[0], args[1])
    if base in ('pow', 'powi'):
        return I.ap2(lambda x, y: ppow(x, y) if isinstance(x, Poly) and isinstance(y, Poly) else fn('pow', x, y), args[0], args[1])
    if base == 'sqrt': return I.ap1(lambda x: ppow(x, Fraction(1, 2)) if isinstance(x, Poly) else fn('sqrt', x), args[0])
    if base == 'fmuladd': return I.arith('fadd', I.arith('fmul', args[0], args[1]), args[2])
    if name.startswith('llvm.is.fpclass') and len(args) == 2 and args[1].var is None and isinstance(args[1].leaf, Poly):
        base = {516: 'isinf', 3: 'isnan', 504: 'isfinite'}.get(args[1].leaf.const(), base); args = args[:1] if not base.startswith('is.') else args
    if base == 'isfinite' and len(args) == 1:
        fin = band(*[bnot(I.boolof(I.ap1(lambda x: fn(k, x), args[0]))) for k in ('isinf', 'isnan')])
        return fin if i.ty.k == 'int' and i.ty.width == 1 else ite(fin, leaf(ONE), leaf(ZERO))
    if base in ('exp', 'log', 'log10', 'floor', 'ceil', 'round', 'isnan', 'isinf', 'lround'):
        def mf(x):
            if isinstance(x, Poly) and x.const() is not None:
                c = x.const()
                if base == 'floor': return num(c.numerator // c.denominator)
                if base == 'ceil': return num(-((-c.numerator) // c.denominator))
                if base == 'exp' and c == 0: return ONE
                if base == 'log' and c == 1: return ZERO
            if base == 'exp' and isinstance(x, Poly):
                # exp(c*log(y) + rest) = y^c * exp(rest)
                r = ONE; rest = ZERO
                for mono, c in x.t.items():
                    lg = [(a, e) for a, e in mono if a.kind == 'fn' and a.args[0] == 'log' and e == 1]
                    if len(lg) == 1 and isinstance(lg[0][0].args[1], Poly): r = pmul(r, ppow(lg[0][0].args[1], mkpoly({tuple(q for q in mono if q[0] is not lg[0][0]): c})))
                    else: rest = padd(rest, mkpoly({mono: c}))
                return pmul(r, fn('exp', rest)) if rest.t else r
            return fn(base, x)
        r = I.ap1(mf, args[0])
        return I.boolof(r) if i.ty.k == 'int' and i.ty.width == 1 else r
    if name.startswith('llvm.umul.with.overflow') or name.startswith('llvm.uadd.with.overflow'):
        op = 'mul' if 'umul' in name else 'add'
        return apply2(lambda x, y: Sx('tup', pmul(x, y) if op == 'mul' else padd(x, y), False) if isinstance(x, Poly) and isinstance(y, Poly) else Sx('tup', fn('ovf', x, y), False), args[0], args[1])
    if name.startswith('llvm.expect'): return args[0]
    # ---- allocation
    if name in ('_Znwm', '_Znam', 'malloc', 'calloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'):
        o = I.objs.get((I.callstack, i.idx))
        if o is None: o = I.objs[(I.callstack, i.idx)] = Obj('heap', '%s@%s:%s' % (name, (i.file or '').split('/')[-1], i.line), None, None, i)
        o.size = args[0] if name != 'calloc' else I.arith('mul', args[0], args[1])
        st.mem[('H', o)] = Mem_undef(('H', o))
        I.event('alloc', st, (name, o, o.size), i)
        if name == 'calloc':
            for of, tg, k in members(I, Ptr(o), o.size) or (): I.store(st, leaf(Ptr(o, num(of), tg)), leaf(NULL if k == 'ptr' else ZERO), i)
        return leaf(Ptr(o))
    if name in ('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm'):
        I.event('free', st, (name, args[0]), i); I.release(st, args[0], i)
        return None
    if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
        I.event('memcpy', st, (args[0], args[1], args[2]), i)
        copy_struct(I, st, args[0], args[1], args[2], i)
        return args[0] if i.ty.k == 'ptr' else None
    if name.startswith('llvm.memset') or name == 'memset':
        I.event('memset', st, (args[0], args[1], args[2]), i)
        p = lf(args[0])
        if isinstance(p, Ptr):
            n = args[2].leaf if args[2].var is None else None
            fields = members(I, p, n)
            if fields:
                for o, tg, k in fields: I.store(st, leaf(Ptr(p.root, padd(p.off, num(o)), tg)), leaf(NULL if k == 'ptr' else ZERO), i)
            elif p.root is not None: I.havoc(st, I.cls_of(p, None), ('memset', I.callstack, i.idx))
        return None
    if name in ('strcpy', 'strncpy', 'sprintf', 'snprintf', 'strcat'):
        I.event(name, st, args, i)
        return args[0] if i.ty.k == 'ptr' else I.opaque(name, args, i)
    if name in ('strcmp', 'strcasecmp', 'strncmp'):
        return apply2(lambda a, b: strcmp_val(cstr(I, a), cstr(I, b)), args[0], args[1])
    if name == 'strlen': return I.ap1(lambda a: (lambda s: num(len(s.s)) if isinstance(s, Str) else linelen(I, s) or fn('strlen', s))(cstr(I, a)), args[0])
    if name in ('atof', 'atoi', 'strtod', 'strtol', 'atol'):
        return I.ap1(lambda a: fn('sto' + ('d' if name in ('atof', 'strtod') else 'i'), cstr(I, a)), args[0])
    if IO.match(name):
        I.event('io', st, (name, args), i)
        return I.opaque(name, args, i) if i.ty.k != 'void' else None
    if name in ('fopen', 'fgets', 'feof', 'rewind', 'fscanf', 'sscanf', 'getenv'):
        I.event('ioin', st, (name, args), i)
        if name in ('fscanf', 'sscanf', 'fgets'):
            for k, a in enumerate(args):
                for l in leaves(a):
                    if isinstance(l, Ptr) and isinstance(l.root, Obj) and l.root.kind == 'alloca':
                        I.store(st, leaf(l), leaf(patom(atom('input', name, I.callstack, i.idx, k))), i)
        return I.opaque(name, args, i) if i.ty.k != 'void' else None
    # ---- std::string
    if 'basic_string' in dem or dem.startswith('std::stod') or dem.startswith('std::stoi') or dem.startswith('std::stof') or 'std::__cxx11::sto' in dem:
        r = string_model(I, i, name, dem, args, st)
        if r is not NotImplemented: return r
    if 'std::vector<' in dem:
        r = vector_model(I, i, name, dem, args, st)
        if r is not NotImplemented: return r
    if re.search(r'operator<<|std::basic_ostream|std::ostream', dem) and 'istream' not in dem:
        I.event('io', st, (dem, args), i)
        return I.opaque('ostream', args, i) if i.ty.k != 'void' else None
    f = I.mod.funcs.get(name)
    if f is not None and not f.decl and I.is_own(f): return NotImplemented
    return NotImplemented

def Mem_undef(cls):
    from interp import Mem
    return Mem('undef', cls)

def members(I, p, size):
    """[(offset, tag)] of the scalar members of the struct object p points to (whole object), if known"""
    ty = None
    if isinstance(p.root, Obj) and p.root.ty is not None and p.off is ZERO: ty = p.root.ty
    if ty is None or ty.k != 'struct':
        if ty is not None and ty.k == 'array' and (ty.elem.k not in ('ptr', 'double', 'int', 'struct') or ty.elem.k == 'int' and ty.elem.width < 32 or ty.n > 64 or (n0 := lf(size) if isinstance(size, DD) else size) is None or not isinstance(n0, Poly) or n0.const() != ty.size): return None
        size = size.leaf if isinstance(size, DD) and size.var is None else size
        n = size.const() if isinstance(size, Poly) else None
        c = [ty] if ty is not None and ty.k == 'array' else [t for t in I.mod.types.values() if t.k == 'struct' and t.size == n and t.name and sname(t) in I.mod.di_structs and not re.search(r'std::|__|pthread', t.name)] if n else []
        if len(c) != 1 or n < 32 and c[0] is not ty: return None
        ty = c[0]
    out = []
    def walk(t, off, tag):
        if t.k == 'struct':
            nm = sname(t)
            for f, o in zip(t.fields, t.offs): walk(f, off + o, (nm, o) if nm else tag)
        elif t.k == 'array':
            for k in range(t.n): walk(t.elem, off + k * t.elem.size, tag)
        else: out.append((off, tag, 'ptr' if t.k == 'ptr' else 'double'))
    walk(ty, 0, None)
    return out

def copy_struct(I, st, d, s, n, i):
    dp = lf(d)
    if not isinstance(dp, Ptr) or dp.root is None: 
        for l in leaves(d):
            if isinstance(l, Ptr) and l.root is not None: I.havoc(st, I.cls_of(l, None), ('memcpy', I.callstack, i.idx))
        return
    fields = members(I, dp, n)
    sp = lf(s)
    if fields is None and isinstance(sp, Ptr):
        fields = members(I, sp, n)
    if fields and isinstance(sp, Ptr):
        vals = [(o, tg, I.load(st, leaf(Ptr(sp.root, padd(sp.off, num(o)), tg)), k)) for o, tg, k in fields]
        for o, tg, v in vals: I.store(st, leaf(Ptr(dp.root, padd(dp.off, num(o)), tg)), v, i)
        return
    nb = n.leaf.const() if n.var is None and isinstance(n.leaf, Poly) else None
    if nb == 8 or nb == 4:
        I.store(st, d, I.load(st, s, 'double'), i); return
    c1, c2 = I.cls_of(dp, None), I.cls_of(sp, None) if isinstance(sp, Ptr) else None
    if c1[0] in ('E', 'H') and c2 is not None and c2[0] in ('E', 'H') and n.var is None and isinstance(n.leaf, Poly):
        # a run of array elements
        from interp import Mem
        st.mem[c1] = Mem('copy', c1, (dp, n.leaf, sp, I.chain(st, c2)), I.chain(st, c1))
        for s_ in I.loopstores: s_.setdefault(c1, set()).add(Ptr(atom('any', c1)))
        return
    I.havoc(st, I.cls_of(dp, None), atom('memcpy', dp, sp if isinstance(sp, Ptr) else NULL, n.leaf if n.var is None else Sx('dd', n.id)))

def string_model(I, i, name, dem, args, st):
    d = dem.replace(BS, 'string').replace('std::__cxx11::basic_string', 'basic_string')
    d = re.sub(r'\[abi:cxx11\]', '', d)
    void = i.ty.k == 'void'
    # constructors
    m = re.match(r'^string::basic_string(<[^(]*>)?\((.*)\)$', d)
    if m:
        a = m.group(2)
        if a.startswith('char const*'): sstore(I, st, args[0], I.ap1(lambda p: leaf(cstr(I, p)), args[1])); return None
        if a.startswith('string const&') and ',' not in a: sstore(I, st, args[0], sload(I, st, args[1])); return None
        if a.startswith('string&&'): sstore(I, st, args[0], sload(I, st, args[1])); return None
        if a == '': sstore(I, st, args[0], leaf(Str(''))); return None
        sstore(I, st, args[0], leaf(Sx('sctor', I.callstack, i.idx))); return None
    if re.match(r'^string::~basic_string', d): return None
    m = re.match(r'^string::(operator=|assign)\((.*)\)$', d)
    if m:
        a = m.group(2)
        v = I.ap1(lambda p: leaf(cstr(I, p)), args[1]) if a.startswith('char const*') else sload(I, st, args[1])
        sstore(I, st, args[0], v); return args[0]
    if re.match(r'^string::compare\(char const\*\) const$', d):
        return apply2(lambda a, b: strcmp_val(a, cstr(I, b)), sload(I, st, args[0]), args[1])
    if re.match(r'^string::compare\(string const&\) const$', d):
        return apply2(strcmp_val, sload(I, st, args[0]), sload(I, st, args[1]))
    m = re.search(r'operator(==|!=)<char.*?>\((.*)\)$', d)
    if m:
        ps = m.group(2)
        a = sload(I, st, args[0]) if ps.startswith(('string', 'basic_string')) else I.ap1(lambda p: leaf(cstr(I, p)), args[0])
        second = ps.split(', ')[-1]
        b = I.ap1(lambda p: leaf(cstr(I, p)), args[1]) if ps.endswith('char const*') else sload(I, st, args[1])
        r = apply2(streq, a, b)
        return r if m.group(1) == '==' else bnot(r)
    m = re.search(r'operator\+<char', d)
    if m:
        sstore(I, st, args[0], leaf(Sx('scat', I.callstack, i.idx))); return None
    m = re.match(r'^string::(find|rfind|find_first_of|find_first_not_of|find_last_not_of|find_last_of)\((.*)\) const$', d)
    if m:
        pat = m.group(2)
        b = I.ap1(lambda p: leaf(cstr(I, p)), args[1]) if pat.startswith('char const*') else args[1] if pat.startswith('char') else sload(I, st, args[1])
        def find(s, p, *r):
            q = p.s if isinstance(p, Str) else chr(int(p.const())) if isinstance(p, Poly) and p.const() is not None and 0 < p.const() < 128 else None
            k = [x.const() if isinstance(x, Poly) else None for x in r]
            if isinstance(s, Str) and q is not None and m.group(1) in ('find', 'rfind') and (k == [] or k == [0] and m.group(1) == 'find'): return num(s.s.find(q) if m.group(1) == 'find' else s.s.rfind(q))
            w = position(I, s, q, m.group(1), k, r)
            if w is not None: return w
            return fn('s' + m.group(1), s, p, *r)
        return applyn(find, [sload(I, st, args[0]), b] + args[2:])
    if re.match(r'^string::substr\(', d):
        # sret: args[0]=result, args[1]=this
        def sub(s, a, b):
            x, y = [q.const() if isinstance(q, Poly) else None for q in (a, b)]
            if isinstance(s, Str) and x is not None and y is not None and 0 <= x <= len(s.s): return Str(s.s[int(x):] if y < 0 else s.s[int(x):int(x) + int(y)])
            return part(I, s, a, b)
        v = applyn(sub, [sload(I, st, args[1]), args[2], args[3]])
        sstore(I, st, args[0], v); return None
    if re.match(r'^string::(length|size)\(\) const', d):
        return I.ap1(lambda s: num(len(s.s)) if isinstance(s, Str) else linelen(I, s) or fn('strlen', s), sload(I, st, args[0]))
    if re.match(r'^string::empty\(\) const', d):
        return I.ap1(lambda s: streq(s, Str('')), sload(I, st, args[0]))
    if re.match(r'^string::(c_str|data)\(\)', d):
        return I.ap1(lambda s: Ptr(atom('cstr', s)), sload(I, st, args[0]))
    if re.match(r'^string::(operator\[\]|at|front|back)\(', d):
        return applyn(lambda s, *k: Ptr(atom('chr', s, *k)), [sload(I, st, args[0])] + args[1:])
    if re.match(r'^string::(clear)\(', d): sstore(I, st, args[0], leaf(Str(''))); return None
    if re.match(r'^string::erase\(unsigned long, unsigned long\)', d) and args[1] is leaf(ZERO):
        sstore(I, st, args[0], apply2(lambda s, n: part(I, s, n, num(-1)), sload(I, st, args[0]), args[2])); return args[0]
    if re.match(r'^string::(append|operator\+=|push_back|erase|pop_back|insert|replace|resize|swap)', d):
        sstore(I, st, args[0], leaf(Sx('smod', I.callstack, i.idx))); return args[0] if i.ty.k == 'ptr' else I.opaque(name, args, i)
    m = re.match(r'^std::(?:__cxx11::)?(stod|stoi|stof|stol)\(', d)
    if m:
        return I.ap1(lambda s: fn(m.group(1), s), sload(I, st, args[0]))
    if re.search(r'basic_istream<.*getline<', d) or re.search(r'std::getline', d):
        I.event('getline', st, args, i)
        sstore(I, st, args[1], leaf(Sx('sline', I.callstack, i.idx, I.loopstack)))
        return I.opaque(name, args, i)
    if 'operator>>' in d:
        sstore(I, st, args[1], leaf(Sx('sread', I.callstack, i.idx, I.loopstack)))
        return I.opaque(name, args, i)
    if 'operator<<' in d:
        I.event('io', st, (dem, args), i)
        return I.opaque('ostream', args, i)
    return NotImplemented

def vector_model(I, i, name, dem, args, st):
    m = re.match(r'^(?:void )?std::vector<.*>::(~?\w+|operator\[\]|operator=)\(', dem)
    if not m:
        r = re.match(r'^(?:void )?std::vector<.*>::(vector|assign)<.*>\(', dem)
        if r and len(args) >= 3:
            # the elements of a range [first, last) of the same array
            a, b = lf(args[1]), lf(args[2]); es = 32 if 'vector<' + BS in dem else 8 if 'vector<double' in dem else 4 if 'vector<int' in dem else 0
            v = leaf(Sx('vctor', I.callstack, i.idx))
            if es and isinstance(a, Ptr) and isinstance(b, Ptr) and a.root is b.root:
                n = psub(b.off, a.off).const()
                if n is not None and 0 <= n <= 64 * es and n % es == 0:
                    el = [sload(I, st, leaf(Ptr(a.root, padd(a.off, num(k * es))))) if es == 32 else I.load(st, leaf(Ptr(a.root, padd(a.off, num(k * es)), a.tag)), 'double' if es == 8 else 'int') for k in range(int(n // es))]
                    v = applyn(lambda *xs: Sx('vec', *xs), el) if el else leaf(Sx('vec'))
            vstore(I, st, args[0], v); return None
        return NotImplemented
    k = m.group(1)
    if k.startswith('~'): return None
    if k == 'vector':
        sig = dem[m.end():]
        if sig.startswith(')') : v = leaf(Sx('vec'))
        elif sig.startswith('std::vector'):
            v = vload(I, st, args[1])
            if any(isinstance(l, Sx) and l.kind == 'vbuf' for l in leaves(v)): v = leaf(Sx('vctor', I.callstack, i.idx))
        elif sig.startswith('std::initializer_list') and len(args) >= 3 and isinstance(lf(args[1]), Ptr) and isinstance(lf(args[2]), Poly) and lf(args[2]).const() is not None and lf(args[2]).const() <= 64 and ('vector<' + BS in dem or 'vector<double' in dem or 'vector<int' in dem):
            es = 32 if 'vector<' + BS in dem else 8 if 'vector<double' in dem else 4; a = lf(args[1])
            el = [sload(I, st, leaf(Ptr(a.root, padd(a.off, num(k * es))))) if es == 32 else I.load(st, leaf(Ptr(a.root, padd(a.off, num(k * es)), a.tag)), 'double' if es == 8 else 'int') for k in range(int(lf(args[2]).const()))]
            v = applyn(lambda *xs: Sx('vec', *xs), el) if el else leaf(Sx('vec'))
        elif sig.startswith('unsigned long') and args[1] is leaf(ZERO): v = leaf(Sx('vec'))
        elif re.match(r'unsigned long, (?:(?:double|int) const&, )?std::allocator', sig) and isinstance(lf(args[1]), Poly):
            nn = lf(args[1]); c = nn.const(); es = 32 if 'vector<' + BS in dem else 8 if 'vector<double' in dem else 4 if 'vector<int' in dem else 0
            if not es or es == 32 and (c is None or c > 64): v = leaf(Sx('vctor', I.callstack, i.idx))
            else:
                fill = leaf(ZERO) if ' const&, std::allocator' not in sig else I.load(st, args[2], 'double' if es == 8 else 'int')
                o = I.objs.get((I.callstack, i.idx, 'vbuf'))
                if o is None: o = I.objs[(I.callstack, i.idx, 'vbuf')] = Obj('heap', 'vector@%s:%s' % ((i.file or '').split('/')[-1], i.line), None, None, i)
                if c is not None and c <= 64:
                    for q in range(int(c)):
                        if es == 32: sstore(I, st, leaf(Ptr(o, num(32 * q))), leaf(Str('')))
                        else: I.store(st, leaf(Ptr(o, num(es * q))), fill, i)
                else: I.havoc(st, I.cls_of(Ptr(o), None), atom('vfill', o, fill.leaf if fill.var is None else Sx('dd', fill.id)))
                v = leaf(Sx('vbuf', o, nn, num(es)))
        else: v = leaf(Sx('vctor', I.callstack, i.idx))
        vstore(I, st, args[0], v); return None
    if k == 'operator=':
        v = vload(I, st, args[1])
        if any(isinstance(l, Sx) and l.kind == 'vbuf' for l in leaves(v)): v = leaf(Sx('vctor', I.callstack, i.idx))
        vstore(I, st, args[0], v); return args[0]
    if k in ('push_back', 'emplace_back'):
        ev = sload(I, st, args[1]) if 'vector<' + BS in dem else I.load(st, args[1], 'double')
        cur = vload(I, st, args[0])
        v = apply2(lambda a, b: Sx('vec', *(a.args + (b,))) if isinstance(a, Sx) and a.kind == 'vec' else Sx('vpush', a, b), cur, ev)
        vstore(I, st, args[0], v)
        return args[0] if i.ty.k == 'ptr' else None
    if k == 'size':
        return I.ap1(lambda v: num(len(v.args)) if v.kind == 'vec' else v.args[1] if v.kind == 'vbuf' else fn('vsize', v), vload(I, st, args[0]))
    if k in ('operator[]', 'at'):
        return apply2(lambda v, n: Ptr(v.args[0], pmul(n, v.args[2])) if v.kind == 'vbuf' and isinstance(n, Poly) else Ptr(atom('vel', v, n)), vload(I, st, args[0]), args[1])
    if k == 'data': return apply1(lambda v: Ptr(v.args[0], ZERO) if v.kind == 'vbuf' else Ptr(atom('vel', v, ZERO)), vload(I, st, args[0]))
    if k in ('clear',): vstore(I, st, args[0], leaf(Sx('vec'))); return None
    if k in ('reserve', 'resize', 'assign', 'insert', 'erase', 'pop_back', 'swap'):
        vstore(I, st, args[0], leaf(Sx('vmod', I.callstack, i.idx))); return I.opaque(name, args, i) if i.ty.k != 'void' else None
    return NotImplemented
