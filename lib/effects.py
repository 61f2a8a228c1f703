"""Flow-insensitive, interprocedural mod/ref and side-effect summaries over the IR (field sensitive)."""
import re
from irload import Inst, Arg, GRef, FRef, Const, sname

PURE_EXT = re.compile(r'^(fabs|pow|exp|log|log10|sqrt|fmin|fmax|floor|ceil|round|isnan|isinf|isfinite|finite|strlen|strcmp|strncmp|strcasecmp|atof|atoi|toupper|tolower|abs|llvm\.(is\.fpclass|fabs|pow|exp|log|sqrt|minnum|maxnum|fmuladd|floor|ceil|umul|objectsize|is\.constant|expect|assume|stacksave|stackrestore|powi|smax|smin|umax|umin|usub|ctlz|trap).*)$')
NORETURN = re.compile(r'^(exit|_exit|abort|__assert_fail|__cxa_throw|__cxa_rethrow|_ZSt9terminatev|_ZSt\d+__throw_.*|__clang_call_terminate|quick_exit|_Exit|raise|longjmp)$')
IO_EXT = re.compile(r'^(printf|fprintf|puts|fputs|putchar|putc|fputc|fflush|fopen|fclose|fgets|fscanf|feof|rewind|perror|fwrite|vprintf|fread|setbuf|setvbuf)$')

def origins(v, memo=None, seen=None):
    """set of provenance tokens of a pointer SSA value"""
    memo = {} if memo is None else memo
    if v in memo: return memo[v]
    seen = set() if seen is None else seen
    if v in seen: return set()
    seen = seen | {v}
    r = set()
    if isinstance(v, Arg): r = {('param', v.idx)}
    elif isinstance(v, GRef): r = {('global', v.name)}
    elif isinstance(v, FRef): r = {('func', v.name)}
    elif isinstance(v, Const):
        if v.kind == 'expr' and v.ops: r = origins(v.ops[0], memo, seen)
        else: r = {('const',)}
    elif isinstance(v, Inst):
        if v.op == 'alloca': r = {('alloca', v)}
        elif v.op in ('getelementptr', 'bitcast', 'addrspacecast', 'freeze'): r = origins(v.ops[0], memo, seen)
        elif v.op == 'phi' or v.op == 'select':
            for o in (v.ops if v.op == 'phi' else v.ops[1:]): r |= origins(o, memo, seen)
        elif v.op == 'load': r = {('load', tag_of(v.ops[0])[0] or ('raw', frozenset(origins(v.ops[0], memo, seen))))}
        elif v.op in ('call', 'invoke'):
            n = v.callee.name if isinstance(v.callee, FRef) else None
            if n in ('malloc', 'calloc', '_Znam', '_Znwm', 'realloc'): r = {('heap', v)}
            else: r = {('ret', n)}
        else: r = {('other',)}
    if len(seen) == 1: memo[v] = r
    return r

def tag_of(p):
    """((struct, byte offset of innermost member), base) if p is formed by a struct GEP"""
    while isinstance(p, Inst) and p.op in ('bitcast', 'freeze'): p = p.ops[0]
    if isinstance(p, Inst) and p.op == 'getelementptr' or (isinstance(p, Const) and p.op == 'getelementptr'):
        t = gep_tag(p.gty, p.ops[1:])
        if t is not None: return t, p.ops[0]
        return tag_of(p.ops[0]) if gep_keeps(p) else (None, p.ops[0])
    return None, p

def gep_keeps(p):
    # indexing into an array member keeps the member's tag
    return p.gty.k == 'array' or (isinstance(p.ops[1], Const) and p.ops[1].v == 0)

def gep_tag(ty, idx):
    """innermost (struct name, offset) reached by a GEP type walk, or None"""
    tag = None; first = True
    for i in idx:
        if first: first = False; continue
        if ty.k == 'struct':
            k = i.v; nm = sname(ty)
            if nm and not nm.startswith('std::') and 'anon' not in nm: tag = (nm, ty.offs[k])
            ty = ty.fields[k]
        elif ty.k == 'array': ty = ty.elem
        else: break
    return tag

class Effects:
    """per function: writes: set of tokens; reads: set of tokens; calls; externs"""
    def __init__(self, mod):
        self.mod = mod; self.local = {}; self.sum = {}
        for f in mod.funcs.values():
            if not f.decl: self.local[f.name] = self._local(f)
    def _local(self, f):
        w = []; r = []; calls = []; memo = {}
        for b in f.blocks:
            for i in b.insts:
                if i.op == 'store':
                    t, base = tag_of(i.ops[1])
                    w.append((t, frozenset(origins(i.ops[1], memo)), i))
                elif i.op == 'load':
                    t, base = tag_of(i.ops[0])
                    r.append((t, frozenset(origins(i.ops[0], memo)), i))
                elif i.op in ('call', 'invoke'):
                    calls.append((i.callee.name if isinstance(i.callee, FRef) else None, [frozenset(origins(o, memo)) if o is not None and o.ty.k == 'ptr' else None for o in i.ops], i, [tag_of(o)[0] if o is not None and o.ty.k == 'ptr' else None for o in i.ops]))
        return w, r, calls
    def _fix(self):
        self.sum = {n: (set(), set(), set()) for n in self.local}
        ch = True
        while ch:
            ch = False
            for name in self.local:
                W, R, E = self._step(name)
                o = self.sum[name]
                if (W, R, E) != o: self.sum[name] = (W, R, E); ch = True
    def summary(self, name):
        """(writes, reads, externs): writes = set of (tag, origin-token); origin tokens: param k / global / load / heap..; allocas dropped"""
        if not self.sum: self._fix()
        return self.sum.get(name, (set(), set(), set()))
    def _step(self, name):
        w, r, calls = self.local[name]
        W = set(); R = set(); E = set()
        for t, og, i in w:
            for o in og:
                if o[0] != 'alloca': W.add((t, o))
        for t, og, i in r:
            for o in og:
                if o[0] != 'alloca': R.add((t, o))
        for cn, aos, i, tags in calls:
            if cn is None: E.add('<indirect>'); continue
            if cn not in self.local:
                E.add(cn)
                if cn.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')) or cn in ('memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'sprintf', 'snprintf'):
                    for o in aos[0]:
                        if o[0] != 'alloca': W.add((tags[0], o))
                continue
            cw, cr, ce = self.sum[cn]
            E |= ce
            for S, D in ((cw, W), (cr, R)):
                for t, o in S:
                    if o[0] == 'param':
                        if o[1] < len(aos) and aos[o[1]] is not None:
                            for oo in aos[o[1]]:
                                if oo[0] != 'alloca': D.add((t if t is not None else tags[o[1]], oo))
                    else: D.add((t, o))
        return W, R, E
