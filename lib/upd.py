"""The update as a transfer function: one arbitrary sub-step (the sub-cycling loop) and the step around it."""
from harness import *
import bmi, util, libmodel

CUTS = {'lgar_move_wetting_fronts', 'lgar_dzdt_calc', 'lgar_calc_mass_bal', 'lgar_calc_dry_depth', 'calc_aet', 'wetting_front_free_drainage',
        'listCopy', 'listDelete', 'listPrint', 'giuh_convolution_integral', 'frozen_factor_hydraulic_conductivity', 'calc_Geff', 'listLength', 'listFindFront',
        'BmiLGAR::update_calibratable_parameters', 'lgar_merge_wetting_fronts', 'lgar_wetting_fronts_cross_layer_boundary', 'listInsertFirst', 'BmiLGAR::realloc_soil'}
STATE = 'model_state'

class Upd: pass

def state_ptr(m): return Ptr(atom('ld', 'init', ('S', 'BmiLGAR', m.off('BmiLGAR', 'state')), m.lv(bmi.THIS, 'BmiLGAR', 'state')))

FLAGS = {'adaptive': 'adaptive_timestep', 'calib': 'calib_params_flag', 'sft': 'sft_coupled', 'invalid': 'is_invalid_soil_type'}
def run(m, cuts=CUTS, log=('abort', 'exit', 'throw', 'assert', 'cut', 'free'), after=None, **flags):
    """flags: adaptive/calib/sft/invalid fixed to 0 or 1 (others stay symbolic); after(I, st): called where the sub-step loop is left"""
    u = Upd(); u.m = m; u.flags = flags
    I = m.interp(cut=set(cuts), log=log); I.track_stores = True; I.logmem = {'cut', 'abort'}
    f = m.fn('BmiLGAR::Update')
    st = State({}, T)
    u.S = S = state_ptr(m)
    preset_units(m, I, st, S)
    for k, v in flags.items(): I.store(st, leaf(m.lv(S, STATE, 'lgar_bmi_params.' + FLAGS[k])), leaf(num(v)))
    I.stores.clear()
    I.FREEZE = 60
    def moves(n, seen):
        if base(m.m.funcs[n].dem) == 'lgar_move_wetting_fronts' if n in m.m.funcs else False: return True
        if n in seen or n not in m.eff.local: return False
        seen.add(n)
        return any(c[0] and moves(c[0], seen) for c in m.eff.local[n][2])
    I.abstract_inv = lambda g, L: any(isinstance(getattr(i, 'callee', None), irload.FRef) and moves(i.callee.name, set()) for b in L.blocks for i in b.insts)
    if after is not None:
        def hook(I, g, L, es):
            if not I.loopstack and I.abstract_inv(g, L): after(I, es)
        I.exit_hook = hook
    v, s = I.call_function(f, [leaf(bmi.THIS)], st)
    m.use(I)
    if s is None: raise AnalysisError('Update never returns')
    u.I = I; u.st = s; u.f = f
    ls = [r for r in I.loops if not r.loopstack and r.key[0] and any(('cut' == e.kind and base(m.m.funcs[e.data[0]].dem) == 'lgar_move_wetting_fronts' and r.key in e.loops) for e in I.events)]
    u.loop = ls[0] if len(ls) == 1 else None
    return u

class Sub:
    """the sub-step loop of an update: loop variables, their initial and next values"""
    def __init__(self, u):
        if u.loop is None: raise AnalysisError('no single sub-step loop')
        self.u = u; self.r = u.loop; self.I = u.I; self.m = u.m; self.key = self.r.key
        if self.r.latch is None: raise AnalysisError('the sub-step loop never repeats')
    def isvar(self, a): return (a.kind == 'mu' and a.args[0] == self.key) or (a.kind == 'ld' and a.args[0] == ('mu', self.key))
    def cur(self, a): return a.args[0] if a.kind == 'lin' else patom(a)
    def _lin(self, p, g):
        """a linear combination of loop variables, each replaced by g"""
        out = leaf(ZERO)
        for mm, k in p.t.items():
            out = util.adddd(out, apply1(lambda x: pscale(x, k), g(mm[0][0])))
        return out
    def inc(self, a): return util.difdd(self.next(a), leaf(self.cur(a)))
    def init(self, a):
        if a.kind == 'lin': return self._lin(a.args[0], self.init)
        if a.kind == 'mu':
            for i, (mu, v) in self.r.phis.items():
                if mu.var is None and isinstance(mu.leaf, Poly) and mu.leaf is patom(a): return v
            raise AnalysisError('loop variable')
        p = a.args[2]
        return self.I.loadc(self.I.chain(self.r.pre, a.args[1]), p, 'double')
    def next(self, a):
        if a.kind == 'lin': return self._lin(a.args[0], self.next)
        if a.kind == 'mu':
            for i, (mu, v) in self.r.phis.items():
                if mu.var is None and isinstance(mu.leaf, Poly) and mu.leaf is patom(a): return self.r.next[i]
            raise AnalysisError('loop variable')
        p = a.args[2]
        return self.I.loadc(self.I.chain(self.r.latch, a.args[1]), p, 'double')
    def exits(self):
        """[(state at exit)] that go on (not into an abort)"""
        nr = self.I.noret(self.r.loop.header.fn)
        return [(src, dst, s) for src, dst, s in self.r.exits if dst not in nr]
    def tests(self):
        if getattr(self, '_tests', None) is None: self._tests = util.tests(self.r) | {self.r.loop.header}
        return self._tests
    def flags(self, pc):
        """loop variables in the loop test that start at 0 and are 0 or 1 afterwards: an iteration can ask that no other follows"""
        out = {}
        ats = set(util.atoms_of(ite(pc, leaf(ONE), leaf(ZERO))))
        for i, (mu, v) in self.r.phis.items():
            if mu.var is not None or not isinstance(mu.leaf, Poly) or i not in self.r.next: continue
            a = next(iter(mu.leaf.atoms()), None)
            if a is None or mu.leaf is not patom(a) or a not in ats or a is util.itatom(self.key): continue
            if v is leaf(ZERO) and all(l is ZERO or l is ONE for l in leaves(self.r.next[i])): out[a] = self.r.next[i]
        return out
    def at_exit(self, s, p, ty='double'):
        return self.I.loadc(self.I.chain(s, self.I.cls_of(p, None)), p, ty)
    def at(self, mem, p, ty='double'):
        c = self.I.cls_of(p, None)
        return self.I.loadc(mem.get(c) or self.I.initnode(c), p, ty)
    def at_head(self, p, ty='double'): return self.at(self.r.head, p, ty)
    def at_latch(self, p, ty='double'): return self.at(self.r.latch.mem, p, ty)
    def rate(self, fld):
        """an input rate at the start of a sub-step"""
        ip = self.at_head(self.m.lv(self.u.S, STATE, 'lgar_bmi_input_params'), 'ptr')
        if ip.var is not None: raise AnalysisError('input block')
        return self.at_head(self.m.lv(ip.leaf, 'lgar_bmi_input_parameters', fld))
    def canon(self):
        """loop variables that are equal to another one, or constant, by induction"""
        if getattr(self, '_canon', None) is None:
            vs = []
            for i, (mu, v) in self.r.phis.items():
                if mu.var is None and isinstance(mu.leaf, Poly) and i in self.r.next:
                    a = [x for x in mu.leaf.atoms()]
                    if len(a) == 1 and mu.leaf is patom(a[0]) and v.var is None and isinstance(v.leaf, Poly): vs.append((a[0], v.leaf, util.difdd(self.r.next[i], mu)))
            out = {}; reps = []
            care = self.r.latch.pc
            for a, i, d in vs:
                if util.same(d, leaf(ZERO), care) is None and i.const() is not None: out[a] = i; continue
                for b, j, e in reps:
                    if i is j and (d is e or util.same(d, e, care) is None): out[a] = patom(b); break
                else: reps.append((a, i, d))
            self._canon = out
        return self._canon
    def same(self, a, b, care=T):
        r = util.same(a, b, care)
        if r is None: return None
        c = self.canon()
        if not c: return r
        f = lambda x: c.get(x)
        return util.same(util.substdd(a, f), util.substdd(b, f), care)
    def step_length(self):
        """length of a sub-step in hours: what the model time advances by in one iteration"""
        t = self.m.lv(self.u.S, STATE, 'lgar_bmi_params.time_s')
        return apply1(lambda x: pscale(x, Fraction(1, 3600)), util.difdd(self.at_latch(t), self.at_head(t)))
    def expand(self, d):
        """replace the names of loop-invariant values by the values"""
        f = lambda a: None
        inv = self.r.inv
        out = apply1(lambda x: x, d)
        def go(d):
            if d.var is None:
                l = d.leaf
                if isinstance(l, Poly):
                    at = [a for a in l.atoms() if a in inv]
                    if at:
                        a = at[0]
                        return go(apply1(lambda v: psubst(l, lambda b: v if b is a else None), inv[a]))
                return d
            return ite(bvar(d.var), go(d.hi), go(d.lo))
        return go(d)

def nonneg(d):
    if d.var is None: return ite(cmp_lt(d.leaf, True), leaf(ZERO), d)
    return ite(bvar(d.var), nonneg(d.hi), nonneg(d.lo))
def loopvars(sub, d):
    return {a for l in leaves(d) if isinstance(l, Poly) for a in l.atoms() if sub.isvar(a)}

# ------------------------------------------------------------------ constants of the unit table
def units(m):
    """constants stored in the unit_conversion members; every store must agree"""
    out = {}
    for f in m.m.funcs.values():
        for b in f.blocks:
            for i in b.insts:
                if i.op != 'store': continue
                p = i.ops[1]
                if not isinstance(p, irload.Inst) or p.op != 'getelementptr': continue
                from effects import gep_tag
                t = gep_tag(p.gty, p.ops[1:])
                if t is None or t[0] != 'unit_conversion': continue
                v = i.ops[0]
                if not (isinstance(v, irload.Const) and v.kind == 'fp'): raise AnalysisError('unit factor is not a constant at ' + m.loc(i))
                if out.setdefault(t[1], num(v.v)) is not num(v.v): raise AnalysisError('unit factor has several values')
    return out

def preset_units(m, I, st, S):
    for o, v in units(m).items():
        I.store(st, leaf(Ptr(S.root, padd(S.off, num(m.off(STATE, 'units') + o)), ('unit_conversion', o))), leaf(v))

def outptr(m, name):
    r = bmi.call(m, 'GetValuePtr', [('str', leaf(Str(name)))])
    d = r.ret
    if d is None or d.var is not None or not isinstance(d.leaf, Ptr): raise AnalysisError('no single value pointer for ' + name)
    return d.leaf
def load(u, st, p, ty='double'): return u.I.loadc(u.I.chain(st, u.I.cls_of(p, None)), p, ty)

def accumulator(u, sub, name, scale=Fraction(1, 100), d=None):
    """the loop variable whose value at the end of the loop, times scale, is the output; returns (atom, increment DD).
    Raises Mismatch when the output is not such a value on some path."""
    if d is None: d = load(u, u.st, outptr(u.m, name))
    return final(u, sub, d, scale, name)
class Mismatch(AnalysisError): pass
def final(u, sub, d, scale, name):
    """d (a value after the loop) == scale * (final value of one loop variable): on leaving at the loop test its current value, on leaving
    inside an iteration the value it would have had at the end of that iteration"""
    cand = set()
    def look(d):
        for l in util.thawed(d):
            if l.t and all(len(mm) == 1 and mm[0][1] == 1 and sub.isvar(mm[0][0]) for mm in l.t):
                if len(l.t) == 1 and list(l.t.values())[0] in (1, scale): cand.add(list(l.t)[0][0][0])
                elif len(l.t) > 1: cand.add(atom('lin', pscale(l, 1 / scale)))
    look(d)
    if not any(a.kind != 'lin' for a in cand): look(util.substdd(d, lambda x: sub.canon().get(x)))
    ex = sub.exits()
    care = F
    for src, dst, s in ex: care = bor(care, s.pc)
    bad = None
    for a in sorted(cand, key=lambda a: (a.kind == 'lin', a.id)):
        exp = None
        nx = sub.next(a)
        hd = [s for src, dst, s in ex if src in sub.tests()]
        c = F
        for s in hd: c = bor(c, s.pc)
        e = ite(c, leaf(sub.cur(a)), nx)
        e = apply1(lambda x: pscale(x, scale), e)
        r = sub.same(d, e, care)
        if r is None: return a
        bad = bad or (a, r)
    raise Mismatch('%s is not the value accumulated over the sub-steps%s' % (name, (': under %s it differs from it by %s' % (util.showlits(bad[1][0]), util.short(bad[1][1], 200))) if bad else ': ' + util.short(d, 300)))
