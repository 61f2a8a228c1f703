from harness import *
import util, conf, upd, libmodel

EXPLAIN = ('The configuration reader is analysed as a transfer function of one arbitrary line. For every required key a loop variable must start from a fixed value, be changed by a line with that key and by no other, '
           'and be tested after the reading loop so that the run cannot go on when it still has its initial value. The parameter behind the key must be written by such a line, and optional parameters must have their defaults.')
ASSUME = ['std::string and stream operations behave as documented; a key is the text before the equals sign']

# key -> parameter it sets (None: a local of the reader)
REQ = {'layer_thickness': 'layer_thickness_cm', 'initial_psi': 'initial_psi_cm', 'timestep': 'timestep_h', 'endtime': 'endtime_s', 'forcing_resolution': 'forcing_resolution_h',
       'layer_soil_type': 'layer_soil_type', 'wilting_point_psi': 'wilting_point_psi_cm', 'field_capacity_psi': 'field_capacity_psi_cm', 'giuh_ordinates': None, 'soil_params_file': None, 'soil_z': 'soil_temperature_z'}
PTRS = {'layer_thickness_cm', 'layer_soil_type', 'soil_temperature_z'}
OPT = {'ponded_depth_max': ('ponded_depth_max_cm', 0), 'max_valid_soil_types': ('num_soil_types', 15)}
FLAGS = {'sft_coupled': 'sft_coupled', 'use_closed_form_G': 'use_closed_form_G', 'adaptive_timestep': 'adaptive_timestep'}

def check(ctx):
    ctx.rule('every required key is recognised, and a line with it sets its parameter')
    ctx.rule('for every required key something that only a line with that key changes is tested after the reading loop, and its initial value cannot get past that test')
    ctx.rule('optional parameters have their documented default when their key is absent')
    ctx.rule('the reading loop goes on to the end of the file after every line')
    for cf in ctx.configs():
        m = ctx.mod(cf)
        c = conf.run(m)
        post = facts_after(c)
        for k in REQ: ctx.guard('required entry', required, ctx, m, c, k, post)
        for k in OPT: ctx.guard('default', default, ctx, m, c, k)
        for k in FLAGS: ctx.guard('default', flag, ctx, m, c, k)
        ctx.guard('whole file', whole, ctx, m, c)
        ctx.guard('reached', reached, ctx, m)

def isvar(c, a): return (a.kind == 'mu' and a.args[0] == c.r.key and a.args[1] != 'iter') or (a.kind == 'ld' and a.args[0] == ('mu', c.r.key))
def facts_after(c):
    """conditions that hold whenever the reader returns: (guard, condition, inst)"""
    out = []
    for pc, live, cs, ls, inst in c.I.facts:
        if ls or any(k == c.r.key for k in ls): continue
        full = c.I.fullpc(pc, cs)
        if not any(isvar(c, a) for a in util.atoms_of(live)): continue
        out.append((full, live, inst))
    out.append((T, c.st.pc, None))
    return out
def variables(c):
    """loop variables: atom -> (initial value, next value)"""
    out = {}
    for i, (mu, v) in c.r.phis.items():
        if mu.var is None and isinstance(mu.leaf, Poly) and i in c.r.next:
            at = list(mu.leaf.atoms())
            if len(at) == 1 and mu.leaf is patom(at[0]): out[at[0]] = (v, c.r.next[i])
    return out
def memvar(c, a):
    p = a.args[2]; I = c.I; k = a.args[1]
    ini = I.loadc(I.chain(c.r.pre, k), p, 'double'); nx = I.loadc(I.chain(c.r.latch, k), p, 'double')
    return ini, nx

def required(ctx, m, c, key, post):
    W = m.where(c.f)
    if key not in c.keys:
        ctx.judge(False, 'required entry', W, 'the key "%s" is not recognised (recognised: %s)' % (key, ', '.join(c.keys))); return
    # the parameter is written
    fld = REQ[key]
    if fld:
        ty = 'ptr' if fld in PTRS else 'double'
        nx = conf.under(c, conf.after(c, fld, ty), key); cur = conf.before(c, fld, ty)
        ctx.judge(nx is not cur, 'required entry', W, 'a line with key "%s" does not set %s' % (key, fld), (nx,), 'parameter is set', '%s -> %s' % (key, fld))
    vs = variables(c)
    cands = {}
    for g, live, inst in post:
        for a in util.atoms_of(live):
            if not isvar(c, a) or a in cands: continue
            if a.kind == 'mu' and a not in vs: continue
            try: ini, nx = vs[a] if a in vs else memvar(c, a)
            except AnalysisError: continue
            cands[a] = (ini, nx)
    care = c.r.latch.pc
    best = None; odd = None
    want = conf.before(c, 'sft_coupled') if key == 'soil_z' else None
    for a, (ini, nx) in cands.items():
        cur = leaf(patom(a)); pc = conf.under(c, care, key)
        mine = conf.under(c, nx, key)
        if mine is cur: continue                                  # not touched by this key
        if not all(isinstance(l, Poly) for l in leaves(nx)):
            if any(b.kind == 'eqp' and a in set(util.atoms_of(b)) for g, live, inst in post for b in live.sup): odd = (a, 'a pointer')
            continue
        if any(util.same(conf.under(c, nx, k), cur, conf.under(c, care, k)) is not None for k in c.keys + [None] if k != key): continue   # also changed by other lines: no evidence for this key
        if ini.var is not None and all(isinstance(l, Poly) for l in leaves(ini)) and zeroed(m): ini = util.substdd(ini, lambda b: ZERO if b.kind == 'ld' and b.args[0] == 'init' and b.args[1][0] == 'S' else None)      # the model state starts zeroed
        if ini.var is None and isinstance(ini.leaf, Poly) and len(ini.leaf.t) == 1 and all(b.kind == 'ld' and b.args[0] == 'init' for b in ini.leaf.atoms()) and a.kind == 'ld' and a.args[1][0] == 'S' and zeroed(m): ini = leaf(ZERO)
        if ini.var is not None or not isinstance(ini.leaf, Poly) or ini.leaf.const() is None: odd = (a, 'initial value %s' % util.short(ini)); continue
        for g, live, inst in post:
            if a not in set(util.atoms_of(live)): continue
            sub = lambda y: ini.leaf if y is a else None
            x = util.substdd(live, sub); gg = drop(c, util.substdd(g, sub), post)
            if key == 'soil_z':
                ctx.need(want.var is None, 'coupling switch')
                ok = x is F and implies(bnot(c.I.eq0(want.leaf)), gg)
            else: ok = x is F and gg is T
            if ok: best = (a, inst, ini, mine, cur, pc); break
        if best: break
    if best is None and odd is not None:
        ctx.undecided('required entry', '%s: evidence for the entry is not a simple flag: %s' % (key, odd[1])); return
    if not ctx.judge(best is not None, 'required entry', W, 'the run goes on although no line with key "%s" was read' % key, (), 'required entry', '%s: %s' % (key, best and util.short(best[0], 60))): return
    a, inst, ini, mine, cur, pc = best
    bad = None
    for ls, l in util.nonzero_paths(mine, pc, zero=lambda l: False):
        if l is cur.leaf or iszero(psub(l, ini.leaf)): bad = ls; break
    ctx.judge(bad is None, 'entry recognised', W, bad and 'a line with key "%s" does not count as present when %s' % (key, util.showlits(bad)), (), 'entry recognised')
def drop(c, g, post):
    """guard of a test, given the tests that hold anyway"""
    for f, live, inst in post:
        if f is T:
            fc = util.forced(live)
            for a, v in fc: g = util.cofactor(g, a, v)
    return g
def implies(a, b): return band(a, bnot(b)) is F

def whole(ctx, m, c):
    """the reading loop is left only at its test of the stream"""
    bad = []
    nr = c.I.noret(c.r.loop.header.fn)
    for src, dst, s in c.r.exits:
        if dst in nr: continue
        ks = [k for k in c.keys if conf.under(c, s.pc, k) is not conf.under(c, s.pc, None)]
        ks += [util.short(a) for a in s.pc.sup for b in util.atoms_of(a) if isvar(c, b) and (b.kind == 'mu' or b.args[1][0] == 'S')]
        if ks: bad.append((m.loc(src.insts[-1]), ks))
    ctx.judge(not bad, 'whole file', bad[0][0] if bad else m.where(c.f), bad and 'reading stops before the end of the file, depending on %s' % ', '.join(bad[0][1]), (), 'whole file')
    ctx.count('loop variables', len(c.r.phis))

def default(ctx, m, c, key):
    fld, dv = OPT[key]
    d = upd_load(c, fld)
    # the value when no line with the key was read
    vs = variables(c); W = m.where(c.f)
    cur = conf.before(c, fld)
    ini = c.I.loadc(c.I.chain(c.r.pre, c.I.cls_of(conf.field(c, fld), None)), conf.field(c, fld), 'double')
    ev = {a: ini_ for a, (ini_, nx) in vs.items() if ini_.var is None and isinstance(ini_.leaf, Poly) and ini_.leaf.const() is not None
          and all(util.same(conf.under(c, nx, k), leaf(patom(a)), conf.under(c, c.r.latch.pc, k)) is None for k in c.keys + [None] if k != key) and conf.under(c, nx, key) is not leaf(patom(a))}
    x = util.substdd(d, lambda a: ev[a].leaf if a in ev else None)
    if ini.var is None and isinstance(ini.leaf, Poly): x = util.substdd(x, lambda a: ini.leaf if cur.var is None and cur.leaf is patom(a) else None)
    ok = all(isinstance(l, Poly) and l.const() == dv for l in leaves(x))
    ctx.judge(ok, 'default', W, 'without "%s" the parameter %s is %s instead of %s' % (key, fld, util.short(x), dv), (x,), 'default', '%s = %s' % (fld, dv))
def upd_load(c, fld, ty='double'):
    p = conf.field(c, fld); k = c.I.cls_of(p, None)
    return c.I.loadc(c.I.chain(c.st, k), p, ty)
def flag(ctx, m, c, key):
    p = conf.field(c, FLAGS[key])
    ini = c.I.loadc(c.I.chain(c.r.pre, c.I.cls_of(p, None)), p, 'int')
    ok = ini is leaf(ZERO)
    if not ok and ini.var is None and isinstance(ini.leaf, Poly) and any(a.kind == 'ld' and a.args[0] == 'init' for a in ini.leaf.atoms()): ok = zeroed(m)
    ctx.judge(ok, 'default', m.where(c.f), 'the switch %s is not off before the configuration is read: %s' % (key, util.short(ini)), (ini,), 'default', key + ' = off')
_Z = {}
def zeroed(m):
    """does Initialize hand over a zero-initialised state?"""
    if m.m not in _Z:
        import bmi
        I = m.interp(cut={'lgar_initialize'}, log=('alloc', 'memset', 'cut'))
        p = Ptr(atom('param', 'cfg')); st = State({}, T)
        libmodel.sstore(I, st, leaf(p), leaf(Sx('sym', 'CFG')))
        I.call_function(m.fn('BmiLGAR::Initialize'), [leaf(bmi.THIS), leaf(p)], st)
        size = m.m.struct(upd.STATE).size
        ok = False
        for e in I.events:
            if e.kind == 'memset' and e.data[1] is leaf(ZERO) and e.data[2].var is None and isinstance(e.data[2].leaf, Poly) and e.data[2].leaf.const() == size: ok = True
        _Z[m.m] = ok
    return _Z[m.m]
def reached(ctx, m):
    """Initialize reads the configuration with the file it was given"""
    import bmi
    I = m.interp(cut={'InitFromConfigFile'}, log=('cut', 'throw', 'exit', 'abort')); I.logmem = {'cut'}
    p = Ptr(atom('param', 'cfg')); st = State({}, T); name = Sx('sym', 'CFG')
    libmodel.sstore(I, st, leaf(p), leaf(name))
    v, s = I.call_function(m.fn('BmiLGAR::Initialize'), [leaf(bmi.THIS), leaf(p)], st); m.use(I)
    ev = [e for e in I.events if e.kind == 'cut' and base(m.m.funcs[e.data[0]].dem) == 'InitFromConfigFile']
    f = m.fn('BmiLGAR::Initialize')
    ctx.judge(len(ev) >= 1, 'reached', m.where(f), 'Initialize does not read the configuration', (), 'reached')
    for e in ev:
        st2 = State(e.mem, T)
        nm = libmodel.sload(I, st2, e.data[1][0])
        ctx.judge(nm is leaf(name), 'reached', m.loc(e.inst), 'the configuration read is %s, not the file given' % util.short(nm), (nm,), 'reached')
        pc = I.fullpc(e.pc, e.path)
        extra = [a for a in pc.sup if not (a.kind == 'streq' and Str('') in a.args)]
        ctx.judge(not extra, 'reached', m.loc(e.inst), 'the configuration is only read when %s' % util.short(pc), (pc,), 'reached')
