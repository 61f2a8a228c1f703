import functools
from harness import *
import util, conf, upd, libmodel, c09

EXPLAIN = ('The configuration reader is analysed as a transfer function of one arbitrary line with symbolic text. For every documented key and unit spelling the parameter at the end of the line must be the number after the equals sign '
           'times the exact conversion factor; an undocumented unit or switch spelling must not survive the line; list entries must be stored in order into an array made for them, element by element over the whole list; every other parameter must be unchanged by the line and by what follows the reading loop. '
           'The list splitter and the columns of the soil file are analysed separately.')
ASSUME = ['std::string, std::vector and stream operations behave as documented; a line is KEY=VALUE[UNIT]', 'real-number arithmetic']

H = Fraction(1, 3600); M = Fraction(1, 60)
HOURS = {'': H, '[s]': H, '[sec]': H, '[min]': M, '[minute]': M, '[h]': 1, '[hr]': 1}
SECS = {'': 1, '[s]': 1, '[sec]': 1, '[min]': 60, '[minute]': 60, '[h]': 3600, '[hr]': 3600, '[d]': 86400, '[day]': 86400}
DUR = {'timestep': (('timestep_h', 'minimum_timestep_h'), HOURS), 'forcing_resolution': (('forcing_resolution_h',), HOURS), 'endtime': (('endtime_s',), SECS)}
NUM = {'initial_psi': 'initial_psi_cm', 'wilting_point_psi': 'wilting_point_psi_cm', 'field_capacity_psi': 'field_capacity_psi_cm'}
SW = {'use_closed_form_G': ('use_closed_form_G', {'true': 1, 'false': 0}), 'sft_coupled': ('sft_coupled', {'true': 1, 'false': 0}), 'calib_params': ('calib_params_flag', {'true': 1, 'false': 0}),
      'adaptive_timestep': ('adaptive_timestep', {'true': 1, '1': 1, 'false': 0, '0': 0})}
OWN = {'timestep': {'timestep_h', 'minimum_timestep_h'}, 'forcing_resolution': {'forcing_resolution_h'}, 'endtime': {'endtime_s'}, 'layer_thickness': {'layer_thickness_cm', 'cum_layer_thickness_cm', 'num_layers', 'soil_depth_cm'},
       'layer_soil_type': {'layer_soil_type'}, 'soil_z': {'soil_temperature_z', 'num_cells_temp'}, 'ponded_depth_max': {'ponded_depth_max_cm'}, 'max_valid_soil_types': {'num_soil_types'}, 'giuh_ordinates': set(), 'soil_params_file': set()}
OWN.update({k: {f} for k, f in NUM.items()}); OWN.update({k: {f} for k, (f, v) in SW.items()})
KEPT = ['layer_thickness_cm', 'cum_layer_thickness_cm', 'num_layers', 'soil_depth_cm', 'initial_psi_cm', 'timestep_h', 'minimum_timestep_h', 'forcing_resolution_h', 'endtime_s', 'layer_soil_type', 'wilting_point_psi_cm',
        'field_capacity_psi_cm', 'use_closed_form_G', 'adaptive_timestep', 'sft_coupled', 'calib_params_flag', 'num_soil_types', 'ponded_depth_max_cm']
PT = {'layer_thickness_cm', 'cum_layer_thickness_cm', 'layer_soil_type', 'soil_temperature_z'}
ty = lambda f: 'ptr' if f in PT else 'double'

def check(ctx):
    ctx.rule('a line with a documented key sets its parameter to the number after the equals sign times the factor of its unit')
    ctx.rule('the key is the text before the equals sign, the value the text between it and the bracket (or the end), the unit the bracketed text')
    ctx.rule('an undocumented unit or switch spelling does not survive the line')
    ctx.rule('lists are stored element by element, in order, completely, into a new array; layer depths accumulate the thicknesses')
    ctx.rule('GIUH ordinate i is spread evenly over the updates of hour i, in order')
    ctx.rule('no line changes a parameter that is not its own, and nothing after the reading loop changes a parameter that was read')
    ctx.rule('column k of a soil line reaches parameter k of the soil with that line number')
    for cf in ctx.configs():
        m = ctx.mod(cf)
        for form in ('K=V[U]', 'K=V'): ctx.guard('configuration', reader, ctx, m, form)
        if cf == 'STANDALONE':
            ctx.guard('splitter', splitter, ctx, m)
            ctx.guard('soil columns', columns, ctx, m)
            ctx.rule('every front of the initial column is at the configured head, with the moisture and conductivity its soil has at that head')
            ctx.guard('initial column', column_args, ctx, m)
            for L in range(1, 4): ctx.guard('initial column', column, ctx, m, L)

def reader(ctx, m, form):
    c = conf.run(m, form=form); groups(c)
    ctx.guard('parts', parts, ctx, m, c)
    for k in DUR: ctx.guard('durations', durations, ctx, m, c, k)
    for k in NUM: ctx.guard('numbers', numbers, ctx, m, c, k)
    for k in SW: ctx.guard('switches', switches, ctx, m, c, k)
    ctx.guard('limits', limits, ctx, m, c)
    for k in ('layer_thickness', 'layer_soil_type', 'soil_z'): ctx.guard('lists', lists, ctx, m, c, k)
    ctx.guard('ordinates', ordinates, ctx, m, c)
    ctx.guard('soil file name', soilfile, ctx, m, c)
    for k in c.keys + [None]: ctx.guard('other parameters', others, ctx, m, c, k)
    if form == 'K=V': ctx.guard('kept', kept, ctx, m, c)

# ------------------------------------------------------------------ scenarios
def groups(c):
    c.units = set(); c.values = set(); c.line = None
    for x, ys in c.groups.items():
        if x is c.key: continue
        if any(y.startswith('[') for y in ys): c.units.add(x)
        elif set(ys) & {'true', 'false'}: c.values.add(x)
    if isinstance(c.key, Sx) and c.key.kind == 'part': c.line = c.key.args[1]
    elif isinstance(c.key, Sx) and c.key.kind == 'substr': c.line = c.key.args[0]
    c.value = Sx('part', 'value', c.line) if isinstance(c.line, Sx) and c.line.kind == 'sline' else None
def truth(c, a, key, unit, value):
    """truth value of a gate in the scenario, or None"""
    if a.kind == 'streq':
        x, y = a.args[:2]
        if isinstance(x, Str): x, y = y, x
        if not isinstance(y, Str): return None
        if x is c.key: return key is not None and y.s == key
        if x in c.units: return unit is not None and y.s == unit
        if x in c.values: return value is not None and y.s == value
        return None
    return None
def scen(c, d, key, unit='?', value='?'):
    """cofactor by the scenario; '?' unit/value: left alone"""
    go = True
    while go:
        go = False
        for a in d.sup:
            if a.kind == 'streq':
                x = a.args[1] if isinstance(a.args[0], Str) else a.args[0]
                if unit == '?' and x in c.units: continue
                if value == '?' and x in c.values: continue
            elif unit == '?': continue
            t = truth(c, a, key, unit, value)
            if t is not None: d = util.cofactor(d, a, t); go = True; break
    return d
def alive(c):
    """what holds when a line has been read completely (aborts and exceptions inside excluded)"""
    if getattr(c, '_alive', None) is None:
        d = c.r.latch.pc
        for pc, live, cs, ls, inst in c.I.facts:
            if ls != (c.r.key,): continue
            d = band(d, bor(bnot(c.I.fullpc(pc, cs)), live))
        c._alive = d
    return c._alive
def parts(ctx, m, c):
    """what is compared with keys, spellings and units, and what numbers are read from, are the parts of the line"""
    ctx.need(c.line is not None and c.value is not None, 'the texts of a line')
    texts = [('key', c.key)] + [('value', x) for x in c.values] + [('unit', x) for x in c.units]
    for k, f in list(NUM.items()) + [(k, v[0][0]) for k, v in DUR.items()]:
        if k in c.keys:
            for a in util.atoms_of(conf.under(c, conf.after(c, f), k)):
                if a.kind == 'fn' and a.args[0] in ('stod', 'stof', 'stoi'): texts.append(('value', a.args[1]))
    for what, x in dict.fromkeys(texts):
        if x is Sx('part', what, c.line): ctx.ok('texts of a line', '%s of %s' % (what, c.form)); continue
        known = isinstance(x, Sx) and (x.kind == 'part' or x.kind == 'substr' and x.args[0] is c.line and all(isinstance(q, Poly) and all(a.kind == 'len' for a in q.atoms()) for q in x.args[1:3]))
        if not known: ctx.undecided('parts', 'how the %s is taken from a line: %s' % (what, util.short(x))); continue
        ctx.violation('parts', m.where(c.f), 'in a line %s the %s is %s' % (c.form, what, 'the ' + x.args[0] if x.kind == 'part' else 'taken from character %s on, %s characters' % (util.short(x.args[1]), util.short(x.args[2]))))
def stod(c, f='stod'): return fn(f, c.value)

def settle(d, ref):
    """drop the conditions every accepted line meets (that a line could be read at all): those without which no documented line survives either"""
    for a in list(ref.sup):
        if util.murky(a) is None: continue
        for b in (True, False):
            if util.cofactor(ref, a, not b) is F: d = util.cofactor(d, a, b)
    return d

def durations(ctx, m, c, key):
    flds, tab = DUR[key]; W = m.where(c.f)
    ctx.need(c.value is not None, 'the text of the value could not be identified')
    ctx.need(key in c.keys, 'key %s' % key)
    for u in [x for x in tab if x] + ['[other]'] if c.form == 'K=V[U]' else ['']:
        live = scen(c, alive(c), key, u)
        if u == '[other]':
            live = settle(live, scen(c, alive(c), key, '[s]'))
            ctx.judge(live is F, 'unit', W, 'a line "%s" with an undocumented unit is accepted' % key, (live,), 'units refused'); continue
        if live is F:
            ctx.judge(False, 'unit', W, 'a line "%s" with the documented unit "%s" is refused' % (key, u), ()); continue
        for f in flds:
            d = scen(c, conf.after(c, f), key, u)
            exp = leaf(pscale(stod(c), tab[u]))
            r = util.same(d, exp, live)
            ctx.judge(r is None, 'unit', W, r and '%s with unit "%s": %s becomes %s instead of value x %s' % (key, u, f, util.short(d, 120), tab[u]), (d,), 'durations', '%s%s -> %s' % (key, u, f))
def numbers(ctx, m, c, key):
    ctx.need(c.value is not None and key in c.keys, 'value text')
    d = conf.under(c, conf.after(c, NUM[key]), key); live = conf.under(c, c.r.latch.pc, key)
    r = util.same(d, leaf(stod(c)), live)
    ctx.judge(r is None, 'number', m.where(c.f), '%s becomes %s instead of the value given for %s' % (NUM[key], util.short(d, 160), key), (d,), 'numbers', '%s -> %s' % (key, NUM[key]))
def switches(ctx, m, c, key):
    fld, tab = SW[key]; W = m.where(c.f)
    ctx.need(key in c.keys, 'key %s' % key)
    for v in list(tab) + ['other', '']:
        live = scen(c, alive(c), key, '?', v)
        d = scen(c, conf.after(c, fld), key, '?', v)
        if v in tab:
            if live is F: ctx.judge(False, 'switch', W, '%s=%s is refused' % (key, v), ()); continue
            r = util.same(d, leaf(num(tab[v])), live)
            ctx.judge(r is None, 'switch', W, '%s=%s sets %s to %s' % (key, v, fld, util.short(d, 120)), (d,), 'switches', '%s=%s' % (key, v))
        else: live = settle(live, scen(c, alive(c), key, '?', next(iter(tab)))); ctx.judge(live is F, 'switch', W, '%s=%s (neither documented spelling) is accepted' % (key, v or '<nothing>'), (live,), 'switches')
def limits(ctx, m, c):
    W = m.where(c.f)
    for key, fld, exp in (('ponded_depth_max', 'ponded_depth_max_cm', lambda: upd.nonneg(leaf(stod(c)))), ('max_valid_soil_types', 'num_soil_types', lambda: minimum(stod(c, 'stoi'), num(15)))):
        ctx.need(key in c.keys and c.value is not None, key)
        d = conf.under(c, conf.after(c, fld), key)
        r = util.same(d, exp(), conf.under(c, c.r.latch.pc, key))
        ctx.judge(r is None, 'number', W, '%s becomes %s' % (fld, util.short(d, 160)), (d,), 'numbers', fld)
def minimum(a, b): return ite(cmp_lt(psub(a, b), True), leaf(a), leaf(b))

# ------------------------------------------------------------------ lists
def arrayof(c, key, fld):
    d = conf.under(c, conf.after(c, fld, 'ptr'), key)
    if d.var is not None or not isinstance(d.leaf, Ptr) or not isinstance(d.leaf.root, Obj) or d.leaf.root.kind != 'heap': raise AnalysisError('%s is not a new array under %s: %s' % (fld, key, util.short(d)))
    return d.leaf.root
def writes(c, obj):
    """stores into obj: (offset, value, pc, inner loop record or None, inst)"""
    recs = util.recs(c.I); out = []
    for p, v, pc, inst, cs, ls in c.I.stores:
        if p.root is not obj: continue
        inner = [k for k in ls if k != c.r.key]
        if len(inner) > 1: raise AnalysisError('nested loops fill the array')
        out.append((p.off, v, pc, recs[inner[0]] if inner else None, inst, cs))
    return out
def vector(c, key, ctx, m):
    """the list read for this key: (Sx, event)"""
    out = []
    for e in c.I.events:
        if e.kind == 'cut' and base(m.m.funcs[e.data[0]].dem) == 'ReadVectorData':
            pc = c.I.fullpc(e.pc, e.path)
            if conf.under(c, pc, key) is F or conf.under(c, pc, None) is not F: continue
            s = libmodel.sload(c.I, State(e.mem, T), e.data[1][1])
            out.append((e.data[1][0].leaf, conf.under(c, s, key), e))
    return out
def lists(ctx, m, c, key):
    W = m.where(c.f)
    ctx.need(key in c.keys, key)
    vs = vector(c, key, ctx, m)
    ctx.need(len(vs) == 1, 'list of %s' % key)
    dst, s, e = vs[0]
    ctx.need(c.value is not None, 'value text')
    ctx.judge(s is leaf(c.value), 'list', m.loc(e.inst), 'the list of %s is not read from the value given: %s' % (key, util.short(s)), (s,), 'lists')
    flds = {'layer_thickness': ('layer_thickness_cm', 'cum_layer_thickness_cm'), 'layer_soil_type': ('layer_soil_type',), 'soil_z': ('soil_temperature_z',)}[key]
    sz = None
    for f in flds:
        es = 4 if f == 'layer_soil_type' else 8; first = 0 if key == 'soil_z' else 1
        o = arrayof(c, key, f)
        loop = None; const = {}
        ws = writes(c, o)
        for off, v, pc, rec, inst, cs in ws:
            if rec is None:
                k = off.const()
                if k is None: raise AnalysisError('store at %s' % util.short(off))
                const[int(k)] = v
            elif loop is not None: raise AnalysisError('two loops fill %s' % f)
            else: loop = (off, v, pc, rec, inst, cs)
        if loop is None: ctx.judge(False, 'list', W, 'the values of %s never reach %s' % (key, f), ()); continue
        off, v, pc, rec, inst, cs = loop
        it = util.itatom(rec.key); w = m.loc(inst)
        k = util.coef(off, it)
        if k is not None and v.var is not None and all(isinstance(l, Poly) for l in leaves(v)) and util.murky(v) is None:
            # the value stored depends on the element alone: some elements are not stored as given
            els = {a for a in util.atoms_of(v) if a.kind == 'fn' and a.args[0] == 'elem'}
            if len(els) == 1 and all(it not in set(g.args[0].atoms()) if isinstance(g.args[0], Poly) else False for g in v.sup):
                e0 = patom(next(iter(els))); exp = fn('int', e0) if f == 'layer_soil_type' else e0
                if f != 'cum_layer_thickness_cm' and util.same(v, leaf(exp)) is not None: ctx.judge(False, 'list', w, 'an element of %s is stored as %s' % (key, util.short(v, 200)), ()); continue
        ctx.need(k is not None and v.var is None and isinstance(v.leaf, Poly), 'form of the store to %s: %s <- %s' % (f, util.short(off), util.short(v)))
        vec = [a for a in util.atoms_of(v.leaf) if a.kind == 'fn' and a.args[0] == 'elem']
        ctx.need(len(vec) == 1, 'elements in %s' % util.short(v))
        el = vec[0]; vx = el.args[1]; ix = util.coef(el.args[2], it)
        ctx.need(isinstance(vx, Sx) and vx.kind == 'vecof' and vx.args[0].args[2] is dst, 'the list stored in %s: %s' % (f, util.short(el)))
        ctx.need(ix is not None, 'index %s' % util.short(el.args[2]))
        # element j goes to position first+j:  off = es*(first + j)
        d = psub(off, pscale(padd(num(first), el.args[2]), es))
        ctx.judge(iszero(d), 'list', w, 'element %s of %s is stored at byte %s of %s' % (util.short(el.args[2]), key, util.short(off), f), (off, el.args[2]), 'lists', '%s[%d+j] = element j' % (f, first))
        N = fn('vsize', vx)
        cov = ix[0] == 1 and ix[1].const() == 0 and util.covers(rec, pc, N)
        if not cov and ix[0] == -1 and iszero(psub(ix[1], psub(N, ONE))): cov = util.covers(rec, pc, N)
        ctx.judge(cov, 'list', w, 'not every element of %s is stored in %s: executed while %s' % (key, f, util.short(pc, 120)), (pc,), 'lists', 'all elements of ' + key)
        if f == 'cum_layer_thickness_cm':
            prev = psub(v.leaf, patom(el)); at = list(prev.atoms())
            ok = len(at) == 1 and prev is patom(at[0]) and at[0].kind == 'ld' and at[0].args[2].root is o and iszero(psub(psub(off, num(8)), at[0].args[2].off)) and at[0].args[0] == ('mu', rec.key)
            if not ok and len(at) == 1 and prev is patom(at[0]) and at[0].kind == 'mu': raise AnalysisError('running sum')
            ctx.judge(ok, 'list', w, 'the depth of a layer is %s instead of the depth of the layer above plus its thickness' % util.short(v, 200), (v,), 'lists')
            z = const.get(0)
            ctx.judge(z is leaf(ZERO), 'list', w, 'the depth of the surface is %s' % (z and util.short(z)), (z,) if z else (), 'lists')
            sd = conf.under(c, conf.after(c, 'soil_depth_cm'), key)
            ok = sd.var is None and isinstance(sd.leaf, Poly) and [a.kind == 'ld' and a.args[2].root is o and iszero(psub(a.args[2].off, pscale(N, 8))) for a in sd.leaf.atoms()] == [True] and len(sd.leaf.t) == 1
            ctx.judge(ok, 'list', W, 'the soil depth is %s' % util.short(sd, 200), (sd,), 'lists', 'soil depth')
            n = conf.under(c, conf.after(c, 'num_layers'), key)
            ctx.judge(n is leaf(N), 'list', W, 'the number of layers is %s' % util.short(n), (n,), 'lists', 'number of layers')
        elif f == 'layer_soil_type': ctx.judge(v.leaf is fn('int', patom(el)), 'list', w, 'the soil type stored is %s' % util.short(v), (v,), 'lists')
        else: ctx.judge(v.leaf is patom(el), 'list', w, '%s stores %s' % (f, util.short(v)), (v,), 'lists')
        if key == 'soil_z':
            n = conf.under(c, conf.after(c, 'num_cells_temp'), key)
            ctx.judge(n is leaf(N), 'list', W, 'the number of temperature cells is %s' % util.short(n), (n,), 'lists')
        # size
        size = o.size
        ctx.need(size.var is None and isinstance(size.leaf, Poly), 'array size')
        d = psub(size.leaf, pscale(padd(N, num(first)), es)).const()
        ctx.judge(d is not None and d >= 0, 'list', W, '%s has room for %s bytes' % (f, util.short(size)), (size,), 'lists')

def ordinates(ctx, m, c):
    """reader: temp[1+j] = element j; afterwards ordinate[1 + j + i*factor] = temp[1+i]/factor"""
    key = 'giuh_ordinates'; ctx.need(key in c.keys, key)
    recs = util.recs(c.I); vs = vector(c, key, ctx, m)
    ctx.need(len(vs) == 1, 'list of ordinates')
    dst, s, e = vs[0]
    ctx.judge(s is leaf(c.value), 'ordinates', m.loc(e.inst), 'the ordinates are not read from the value given', (s,), 'ordinates')
    st = []
    for p, v, pc, inst, cs, ls in c.I.stores:
        inner = [k for k in ls if k != c.r.key]
        if c.r.key in ls and len(inner) == 1 and isinstance(p.root, Atom) and p.root.kind == 'vel' and conf.under(c, c.I.fullpc(pc, cs), key) is not F and conf.under(c, recs[inner[0]].outer_pc, key) is not F: st.append((p, v, pc, inst, recs[inner[0]]))
    st = [x for x in st if any(a.kind == 'fn' and a.args[0] == 'elem' and isinstance(a.args[1], Sx) and a.args[1].kind == 'vecof' and a.args[1].args[0].args[2] is dst for a in util.atoms_of(x[1]))]
    ctx.need(len(st) == 1, 'how the ordinates are kept')
    p, v, pc, inst, rec = st[0]; it = util.itatom(rec.key); w = m.loc(inst)
    ctx.need(v.var is None and isinstance(v.leaf, Poly), 'ordinate value')
    el = [a for a in util.atoms_of(v.leaf) if a.kind == 'fn' and a.args[0] == 'elem'][0]
    ctx.judge(v.leaf is patom(el), 'ordinates', w, 'an ordinate is stored as %s' % util.short(v), (v,), 'ordinates')
    shift = psub(p.root.args[1], el.args[2])
    ctx.need(shift.const() is not None, 'order of the ordinates')
    N = fn('vsize', el.args[1])
    ctx.judge(el.args[2] is patom(it) and util.covers(rec, pc, N), 'ordinates', w, 'not every ordinate is kept: element %s while %s' % (util.short(el.args[2]), util.short(pc)), (pc,), 'ordinates')
    shift = shift.const()
    # after the loop
    res = conf.before(c, 'forcing_resolution_h')
    o = None
    d = c09.upd_load(c, 'giuh_ordinates', 'ptr')
    ctx.need(d.var is None and isinstance(d.leaf, Ptr) and isinstance(d.leaf.root, Obj), 'ordinate array')
    o = d.leaf.root
    ws = [(p, v, pc, inst, ls) for p, v, pc, inst, cs, ls in c.I.stores if p.root is o]
    ctx.need(ws and all(len(x[4]) == 2 and x[4] == ws[0][4] for x in ws), 'how the ordinates are scaled')
    ro, ri = recs[ws[0][4][0]], recs[ws[0][4][1]]
    gates = {a for x in ws for d in (x[1], x[2]) for a in d.sup if not ({ro.key, ri.key} & deps(a))}
    for ls in assignments(sorted(gates, key=lambda a: a.id)):
        cf = lambda d: cofs(d, ls)
        mine = [(p, cf(v), cf(pc), inst) for p, v, pc, inst, _ in ws]
        mine = [x for x in mine if x[2] is not F]
        ctx.need(len(mine) == 1, 'how the ordinates are scaled')
        scaled(ctx, m, c, mine[0], ro, ri, shift, res, cf, ls)
def assignments(gs, ls=()):
    if util.contradict(ls): return
    if not gs: yield ls; return
    for b in (True, False): yield from assignments(gs[1:], ls + ((gs[0], b),))
def cofs(d, ls):
    for a, b in ls: d = util.cofactor(d, a, b)
    return d
from interp import deps
def scaled(ctx, m, c, st, ro, ri, shift, res, cf, lits):
    p, v, pc, inst = st; io, ii = util.itatom(ro.key), util.itatom(ri.key); w = m.loc(inst)
    ctx.need(v.var is None and isinstance(v.leaf, Poly), 'scaled ordinate: %s' % util.short(v))
    els = [a for a in v.leaf.atoms() if a.kind == 'fn' and a.args[0] == 'elem']
    ctx.need(len(els) == 1, 'scaled ordinate')
    el = els[0]
    f = pdiv(patom(el), v.leaf)                  # the factor
    ctx.judge(iszero(psub(pmul(v.leaf, f), patom(el))) and el not in f.atoms(), 'ordinates', w, 'a scaled ordinate is %s' % util.short(v), (v,), 'ordinates')
    size = fn('vsize', el.args[1])
    ctx.judge(el.args[2] is padd(patom(io), num(shift)), 'ordinates', w, 'the ordinate used for hour i is element %s' % util.short(el.args[2]), (el.args[2],), 'ordinates')
    off = pscale(padd(num(1), padd(patom(ii), pmul(f, patom(io)))), 8)
    if any(i.ty.k == 'int' and ii in util.atoms_of(nx) for i, nx in ro.next.items()):
        # a running index that the inner loop advances: after a complete inner loop it has advanced by the factor
        got = p.off; t = got.t.get(tuple(sorted(((ii, 1), (io, 1)), key=lambda q: q[0].id))) or got.t.get(((io, 1), (ii, 1))) or got.t.get(((ii, 1), (io, 1)))
        if t is not None: p = Ptr(p.root, padd(got, pscale(psub(pmul(f, patom(io)), pmul(patom(ii), patom(io))), t)), p.tag)
    ctx.judge(iszero(psub(p.off, off)), 'ordinates', w, 'ordinate %s of hour %s is stored at byte %s' % (util.short(patom(ii)), util.short(patom(io)), util.short(p.off)), (p.off,), 'ordinates', util.short(p.off))
    ctx.judge(util._bound(pc, ii) is not None and iszero(psub(util._bound(pc, ii), f)), 'ordinates', w, 'the ordinates of an hour are not filled %s times but while %s' % (util.short(f), util.short(pc)), (pc,), 'ordinates')
    n = util._bound(cf(ro.latch.pc), io)
    ctx.need(n is not None, 'hours')
    ctx.judge(iszero(psub(n, psub(size, num(shift)))), 'ordinates', w, 'the number of hours is %s' % util.short(n), (n,), 'ordinates')
    cnt = cf(c09.upd_load(c, 'num_giuh_ordinates'))
    r = util.same(cnt, leaf(pmul(f, psub(size, num(shift)))))
    ctx.judge(r is None, 'ordinates', w, 'the number of ordinates is %s' % util.short(cnt), (cnt,), 'ordinates')
    # the factor: updates per hour, at least one
    q = pdiv(ONE, res.leaf); k = f.const()
    at = list(f.atoms())
    per = [a for a in util.atoms_of(lits) if a.kind == 'fn' and a.args[0] == 'int']
    if k is not None:
        # only when the updates per hour are not more than one
        good = k == 1 and len(per) == 1 and near(per[0], q) and util.contradict(lits + tuple(util.forced(cmp_lt(psub(num(Fraction(3, 2)), patom(per[0])), True))))
    else: good = len(at) == 1 and f is patom(at[0]) and near(at[0], q)
    ctx.judge(good, 'ordinates', w, 'updates per hour are %s when %s instead of 1/forcing resolution' % (util.short(f), util.showlits(lits)), (f,), 'ordinates', 'updates per hour ' + util.short(f))
def near(a, q):
    if not (a.kind == 'fn' and a.args[0] == 'int' and isinstance(a.args[1], Poly)): return False
    k = psub(a.args[1], q).const()
    return k is not None and 0 <= k <= Fraction(1, 1000)
def soilfile(ctx, m, c):
    ev = [e for e in c.I.events if e.kind == 'cut' and base(m.m.funcs[e.data[0]].dem) == 'lgar_read_vG_param_file']
    ctx.need(len(ev) == 1, 'one call reads the soil parameters')
    e = ev[0]; a0 = e.data[1][0]; w = m.loc(e.inst)
    ctx.need(a0.var is None and isinstance(a0.leaf, Ptr) and isinstance(a0.leaf.root, Atom) and a0.leaf.root.kind == 'cstr', 'file name')
    s = a0.leaf.root.args[0]
    ctx.need(isinstance(s, Sx) and s.kind == 'strof' and s.args[0].kind == 'ld' and s.args[0].args[0] == ('mu', c.r.key), 'file name %s' % util.short(s))
    p = s.args[0].args[2]; k = s.args[0].args[1]
    nx = c.I.loadc(c.I.chain(c.r.latch, k), p, 'str')
    for key in c.keys + [None]:
        d = conf.under(c, nx, key)
        if key == 'soil_params_file': ctx.judge(d is leaf(c.value), 'soil file name', w, 'the soil file read is %s, not the value given' % util.short(d), (d,), 'soil file name')
        else: ctx.judge(d is leaf(s), 'soil file name', w, 'a line with key "%s" changes the soil file name' % key, (d,), 'soil file name')
    for i, (f, n) in enumerate((('num_soil_types', 1), ('wilting_point_psi_cm', 2))):
        d = e.data[1][n]
        if f == 'num_soil_types': ctx.judge(d is c09.upd_load(c, f), 'soil file name', w, 'the number of soils read is %s' % util.short(d), (d,), 'soil file arguments')
        else: ctx.judge(d is conf.before(c, f), 'soil file name', w, 'the wilting point given to the soils is %s' % util.short(d), (d,), 'soil file arguments')

# ------------------------------------------------------------------ others
def others(ctx, m, c, key):
    own = OWN.get(key, set()); W = m.where(c.f)
    live = conf.under(c, c.r.latch.pc, key)
    for f in KEPT + ['soil_temperature_z', 'num_cells_temp']:
        if f in own: continue
        a, b = conf.before(c, f, ty(f)), conf.under(c, conf.after(c, f, ty(f)), key)
        if f in PT: ok = a is b or all(x is y for x, y in zip(leaves(restrict(b, live)), leaves(a)))
        else: ok = util.same(a, b, live) is None
        ctx.judge(ok, 'other parameters', W, 'a line with %s changes %s to %s' % ('key "%s"' % key if key else 'another key', f, util.short(b, 160)), (b,), 'other parameters')
    ctx.count('keys')
DEFAULT = {'num_soil_types': 15, 'ponded_depth_max_cm': 0}
def kept(ctx, m, c):
    W = m.where(c.f)
    for f in KEPT:
        cur = conf.before(c, f, ty(f)); d = c09.upd_load(c, f, ty(f))
        ok = d is cur or (f in DEFAULT and set(leaves(d)) == {cur.leaf, num(DEFAULT[f])})
        ctx.judge(ok, 'kept', W, '%s is changed after the configuration has been read: %s' % (f, util.short(d, 200)), (d,), 'kept after reading', f)
    # and by what follows the reader
    import bmi
    I = m.interp(cut={'InitFromConfigFile'}, log=('cut',)); p = Ptr(atom('param', 'cfg')); st = State({}, T)
    libmodel.sstore(I, st, leaf(p), leaf(Sx('sym', 'CFG')))
    v, s = I.call_function(m.fn('BmiLGAR::Initialize'), [leaf(bmi.THIS), leaf(p)], st)
    ctx.need(s is not None, 'Initialize')
    S = I.loadc(I.chain(s, I.cls_of(m.lv(bmi.THIS, 'BmiLGAR', 'state'), None)), m.lv(bmi.THIS, 'BmiLGAR', 'state'), 'ptr')
    ctx.need(S.var is None, 'state')
    for f in KEPT + ['giuh_ordinates', 'num_giuh_ordinates']:
        q = m.lv(S.leaf, upd.STATE, conf.P + f)
        d = I.loadc(I.chain(s, I.cls_of(q, None)), q, 'double')
        ok = d.var is None and isinstance(d.leaf, Poly) and [a.kind == 'ld' and a.args[0][0] == 'call' for a in d.leaf.atoms()] == [True] and d.leaf is patom(next(iter(d.leaf.atoms())))
        ctx.judge(ok, 'kept', m.where(m.fn('BmiLGAR::Initialize')), '%s is changed after the configuration has been read: %s' % (f, util.short(d, 200)), (d,), 'kept after reading')

# ------------------------------------------------------------------ initial column
def column_args(ctx, m):
    """the column is built from the configured values"""
    import initial
    r = initial.run(m); R = 'initial column'; g = m.fn('InitializeWettingFronts')
    ev = [e for e in r.I.events if e.kind == 'cut' and e.data[0] == g.name]
    ctx.need(len(ev) == 1 and len(g.params) == 7, 'one call builds the initial column')
    e = ev[0]; a = e.data[1]; G = lambda f, t='double': initial.get(r, f, t); P = conf.P
    for k, (what, exp) in enumerate((('number of layers', G(P + 'num_layers')), ('initial head', G(P + 'initial_psi_cm')), ('soil types', G(P + 'layer_soil_type', 'ptr')), ('layer depths', G(P + 'cum_layer_thickness_cm', 'ptr')),
                                     ('freeze factors', G(P + 'frozen_factor', 'ptr')), ('list', leaf(m.lv(r.S, upd.STATE, 'head'))), ('soils', G('soil_properties', 'ptr')))):
        same = a[k] is exp or (a[k].var is None and exp.var is None and isinstance(exp.leaf, Ptr) and isinstance(a[k].leaf, Ptr) and a[k].leaf.root is exp.leaf.root and iszero(psub(a[k].leaf.off, exp.leaf.off))) or (isinstance(leaves(exp)[0], Poly) and util.same(a[k], exp, r.st.pc) is None)
        ctx.judge(same, R, m.loc(e.inst), 'the initial column is built with %s as %s' % (util.short(a[k], 100), what), (a[k],), R, what)
def column(ctx, m, L):
    import hyd, c17
    from c12 import get, walk
    r = hyd.setup(m, list(range(1, L + 1)), ()); I = r.I; I.hooks.clear(); I.cut = set(); R = 'initial column'; I.store(r.st, leaf(r.head), leaf(NULL))
    hyd.go(r, 'InitializeWettingFronts', [leaf(num(L)), leaf(sym('psi0')), leaf(r.types), leaf(r.cum), leaf(r.ff), leaf(r.head), leaf(r.soils)]); W = m.where(r.f)
    ctx.need(r.s is not None, 'initial column')
    p = I.load(r.s, leaf(r.head), 'ptr')
    for k in range(1, L + 1):
        ctx.need(p.var is None and isinstance(p.leaf, Ptr) and p.leaf.root is not None, 'front %d of the initial column' % k)
        q = p.leaf; s = hyd.soilof(r.L, k); S = lambda x: leaf(sym('%s.%d' % (x, s)))
        th = c17.hyd(m, 'calc_theta_from_h', [leaf(sym('psi0')), S('vg_alpha_per_cm'), S('vg_m'), S('vg_n'), S('theta_e'), S('theta_r')])
        K = c17.hyd(m, 'calc_K_from_Se', [c17.hyd(m, 'calc_Se_from_theta', [th, S('theta_e'), S('theta_r')]), I.ap2(pmul, S('Ksat_cm_per_h'), leaf(sym('ff%d' % k))), S('vg_m')])
        for f, exp, what in (('psi_cm', leaf(sym('psi0')), 'head'), ('theta', th, 'moisture'), ('K_cm_per_h', K, 'conductivity')):
            d = I.load(r.s, leaf(m.lv(q, 'wetting_front', f)), 'double')
            ctx.judge(d is exp or util.same(d, exp, r.s.pc) is None, R, W, '%d layers: %s of the front of layer %d is %s instead of %s' % (L, what, k, util.short(d, 100), util.short(exp, 100)), (d,), R, '%s of layer %d of %d' % (what, k, L))
        p = I.load(r.s, leaf(m.lv(q, 'wetting_front', 'next')), 'ptr')

# ------------------------------------------------------------------ list splitter
def splitter(ctx, m):
    """without a comma: one number, the whole text; otherwise a number per comma from the text before it, and the rest once no comma is left"""
    f = m.fn('ReadVectorData')
    import csplit
    csplit.run(ctx, m, f)

# ------------------------------------------------------------------ soil file
COL = {1: 'theta_r', 2: 'theta_e', 3: 'vg_alpha_per_cm', 4: 'vg_n', 5: 'Ksat_cm_per_h'}
def columns(ctx, m):
    f = m.fn('lgar_read_vG_param_file')
    I = m.interp(cut={'lgar_derived_soil_parameters'}, log=('cut', 'ioin')); I.track_stores = True
    args = [leaf(Ptr(atom('param', 'name'))), leaf(sym('numsoils')), leaf(sym('wp')), leaf(Ptr(atom('param', 'soils')))]
    v, s = I.call_function(f, args, State({}, T)); m.use(I)
    sc = [e for e in I.events if e.kind == 'ioin' and e.data[0] in ('sscanf',)]
    ctx.need(len(sc) == 1 and s is not None, 'one sscanf per soil line')
    e = sc[0]; w = m.loc(e.inst)
    fmt = libmodel.cstr(I, e.data[1][1].leaf)
    ctx.need(isinstance(fmt, Str), 'format')
    items = re.findall(r'%(\*?)\d*([a-z]+)', fmt.s)
    ctx.judge([b for a, b in items] == ['s'] + ['lf'] * 5 and not any(a for a, b in items), 'soil columns', w, 'a soil line is read with format "%s" instead of a name and five numbers' % fmt.s, (), 'soil columns', fmt.s)
    got = {}; idx = None
    for p, v, pc, inst, cs, ls in I.stores:
        if p.tag is None or p.tag[0] != 'soil_properties_' or not ls: continue
        n = m.fields('soil_properties_').get(p.tag[1])
        got.setdefault(n, []).append((p, v, inst))
    sp = m.m.struct('soil_properties_').size
    for k, n in COL.items():
        st = got.get(n, [])
        if not st: ctx.judge(False, 'soil columns', w, 'column %d of the soil file does not reach %s' % (k + 1, n), ()); continue
        for p, v, inst in st:
            ok = v.var is None and isinstance(v.leaf, Poly) and len(v.leaf.t) == 1
            a = next(iter(v.leaf.atoms())) if ok and v.leaf.atoms() else None
            ok = a is not None and v.leaf is patom(a) and a.kind == 'input' and a.args[-1] == k + 2
            if not ok and (a is None or a.kind != 'input'): ctx.undecided('soil columns', '%s = %s' % (n, util.short(v))); continue
            if ok: ctx.ok('soil columns', '%s <- column %d' % (n, k + 1))
            else: ctx.violation('soil columns', m.loc(inst), '%s is set to %s instead of column %d of the soil line' % (n, util.short(v), k + 1))
            rec = util.recs(I).get(e.loops[-1]) if e.loops else None
            ctx.need(rec is not None, 'reading loop')
            it = patom(util.itatom(rec.key)); base_ = psub(p.off, num(p.tag[1]))
            d = psub(base_, pscale(padd(it, ONE), sp))
            ctx.judge(iszero(d), 'soil columns', m.loc(inst), 'soil line i is stored in soil %s / %d' % (util.short(base_), sp), (base_,), 'soil columns')
    cs_ = [e2 for e2 in I.events if e2.kind == 'cut' and e2.loops]
    ctx.judge(len(cs_) == 1, 'soil columns', m.where(f), 'the derived parameters are not computed for every soil read', (), 'derived parameters')
    for e2 in cs_:
        q = e2.data[1][1]
        ok = q.var is None and isinstance(q.leaf, Ptr) and q.leaf.root is args[3].leaf.root and any(iszero(psub(psub(p.off, num(p.tag[1])), q.leaf.off)) for x in got.values() for p, v, i in x) and e2.data[1][0] is leaf(sym('wp'))
        ctx.judge(ok, 'soil columns', m.loc(e2.inst), 'derived parameters are computed for %s with wilting point %s' % (util.short(q), util.short(e2.data[1][0])), (q,), 'derived parameters')
