from harness import *
import bmi, util, upd, c01, c02

EXPLAIN = ('The update is analysed as a transfer function: after the sub-step loop every flux output must be 0.01 x one loop variable that starts at zero, whose increment is the amount of the sub-step; '
           'the amounts are pinned by the rain and demand rates, by the split of the surface water and by the sub-step balance. The cumulative record and the printed global balance are polynomials compared exactly.')
ASSUME = ['real-number arithmetic', 'an update with valid soils (unsupported soils: C20)']

# output -> (step record, cumulative record)
FLUX = {'precipitation': ('volprecip_timestep_cm', 'volprecip_cm'), 'potential_evapotranspiration': ('volPET_timestep_cm', 'volPET_cm'),
        'actual_evapotranspiration': ('volAET_timestep_cm', 'volAET_cm'), 'infiltration': ('volin_timestep_cm', 'volin_cm'),
        'surface_runoff': ('volrunoff_timestep_cm', 'volrunoff_cm'), 'percolation': ('volrech_timestep_cm', 'volrech_cm'),
        'groundwater_to_stream_recharge': ('volQ_gw_timestep_cm', 'volQ_gw_cm'), 'giuh_runoff': ('volrunoff_giuh_timestep_cm', 'volrunoff_giuh_cm'),
        'total_discharge': ('volQ_timestep_cm', 'volQ_cm')}
KEY = {'precipitation': 'P', 'potential_evapotranspiration': 'E', 'actual_evapotranspiration': 'A', 'infiltration': 'I', 'surface_runoff': 'R', 'percolation': 'G'}
M = Fraction(1, 100)

def check(ctx):
    ctx.rule('flux output = 0.01 x (loop variable that starts the update at 0 and grows by the amount of the sub-step)')
    ctx.rule('amounts of a sub-step: rain and demand = rate x sub-step length; infiltration from the surface split; runoff, AET, percolation from the sub-step balance')
    ctx.rule('routed runoff and discharge = 0.01 x result of the routing of the total runoff of the update, routed exactly once')
    ctx.rule('soil_storage = 0.01 x column integral after the last change of the fronts')
    ctx.rule('cumulative record grows by exactly the step totals; ponded and soil water in it are the end-of-update values')
    ctx.rule('global balance = initial + rain + calibration change - runoff - AET - ponded - percolation - final water, each from the cumulative record')
    for cf in ctx.configs():
        m = ctx.mod(cf)
        scs = c01.scenarios(ctx) if cf == 'STANDALONE' or ctx.tier == 'thorough' else c01.scenarios(ctx)[:1]
        for sc in scs: ctx.guard('totals', one, ctx, m, sc)
    m = ctx.mod()
    ctx.guard('calibration change', calib, ctx, m)
    ctx.guard('global balance', glob, ctx, m)
    ctx.guard('initial water', start, ctx, m)
    ctx.rule('after Initialize every cumulative quantity is zero and the initial water is the integral of the initial column')
    ctx.guard('initial record', initial_record, ctx, m)

def rec(m, u, name): return m.lv(u.S, upd.STATE, 'lgar_mass_balance.' + name)

def one(ctx, m, sc):
    u = upd.run(m, **sc); sub = upd.Sub(u); I = u.I; W = m.where(u.f)
    q = {}; tot = {}
    for name in FLUX:
        d = upd.load(u, u.st, upd.outptr(m, name))
        tot[name] = apply1(lambda x: pscale(x, 100), d)
        if name not in KEY: continue
        try: a = upd.final(u, sub, d, M, name)
        except upd.Mismatch as e: ctx.judge(False, 'flux output', W, str(e), (d,)); continue
        i = sub.init(a)
        ctx.judge(i is leaf(ZERO), 'flux output', W, '%s starts the update from %s instead of zero' % (name, util.short(i, 120)), (i,), 'accumulators start at zero')
        q[KEY[name]] = a; q['d' + KEY[name]] = sub.inc(a)
        ctx.ok('flux outputs', '%s <- %s' % (name, util.short(sub.cur(a))))
    if len({id(q[k]) for k in q if len(k) == 1}) < sum(1 for k in q if len(k) == 1):
        ctx.judge(False, 'flux output', W, 'two outputs report the same accumulated quantity')
    # recharge: constant zero or an accumulator fed with zero
    gw = tot['groundwater_to_stream_recharge']
    if gw is not leaf(ZERO):
        try:
            a = upd.final(u, sub, apply1(lambda x: pscale(x, M), gw), M, 'groundwater_to_stream_recharge')
            z = sub.inc(a)
            ctx.judge(sub.init(a) is leaf(ZERO) and util.same(z, leaf(ZERO), sub.r.latch.pc) is None, 'groundwater recharge', W, 'groundwater_to_stream_recharge is not the sum over the sub-steps', (z,), 'flux outputs')
        except upd.Mismatch as e: ctx.judge(False, 'flux output', W, str(e), (gw,))
    else: ctx.ok('flux outputs', 'groundwater recharge: constant zero')
    vp = rec(m, u, 'volon_timestep_cm')
    try: q['v'] = upd.final(u, sub, upd.load(u, u.st, vp), Fraction(1), 'volon_timestep_cm')
    except upd.Mismatch as e: ctx.judge(False, 'ponded water', W, str(e), (upd.load(u, u.st, vp),)); return
    if any(k not in q for k in ('P', 'E', 'A', 'I', 'R', 'G')): return
    care = sub.r.latch.pc
    # amounts of the sub-step
    dt = sub.step_length()
    for k, fld, n in (('P', 'precipitation_mm_per_h', 'precipitation'), ('E', 'PET_mm_per_h', 'potential_evapotranspiration')):
        rate = upd.nonneg(sub.rate(fld))
        exp = I.arith('fmul', apply1(lambda x: pscale(x, Fraction(1, 10)), rate), dt)
        r = util.same(util.positive(q['d' + k], dt.leaf.atoms()), exp, care)
        ctx.judge(r is None, 'amount of a sub-step', W, r and '%s of a sub-step is not rate x sub-step length: differs by %s when %s' % (n, util.short(r[1]), util.showlits(r[0])), (r[1],) if r else (), 'sub-step amounts')
    v = leaf(sub.cur(q['v'])); vn = sub.next(q['v'])
    r = util.same(util.adddd(q['dP'], v), util.adddd(q['dI'], util.adddd(q['dR'], vn)), care)
    ctx.judge(r is None, 'amount of a sub-step', W, r and 'infiltration added to the total is not rain + ponded before - runoff - ponded after: differs by %s on the path %s' % (util.short(r[1], 200), util.showlits(r[0], 8)), (r[1],) if r else (), 'sub-step amounts')
    res, pair, r = c02.residual(m, u, sub, q)
    ctx.judge(pair is not None, 'amount of a sub-step', W, 'runoff, AET and percolation added to the totals are not those of the sub-step balance%s' % (r and ': differ by %s on the path %s' % (util.short(r[1], 200), util.showlits(r[0], 8)) or ''), (r[1],) if r else (res,), 'sub-step amounts')
    # routing
    evs = [e for e in I.events if e.kind == 'cut' and base(m.m.funcs[e.data[0]].dem) == 'giuh_convolution_integral']
    g = [e for e in evs if not e.loops]
    if len(evs) != 1 or len(g) != 1: ctx.judge(False, 'routing', W, 'the runoff is routed at %d places (%d inside a loop), not once per update' % (len(evs), len(evs) - len(g)))
    else:
        e = g[0]
        done = F
        for _, _, s in sub.exits(): done = bor(done, s.pc)
        ctx.judge(band(done, bnot(e.pc)) is F, 'routing', m.loc(e.inst), 'routing is skipped under some condition', (e.pc,), 'routing')
        ctx.judge(sub.same(e.data[1][0], tot['surface_runoff']) is None, 'routing', m.loc(e.inst), 'what is routed is not the surface runoff of the update: %s' % util.short(e.data[1][0]), (e.data[1][0],), 'routing')
        rv = leaf(patom(atom('res', e.data[2])))
        for n in ('giuh_runoff', 'total_discharge'):
            ctx.judge(sub.same(tot[n], rv) is None, 'routing', W, '%s is not the routed runoff: %s' % (n, util.short(tot[n])), (tot[n],), 'routing')
    # soil storage
    sp = upd.load(u, u.st, upd.outptr(m, 'soil_storage'))
    soil(ctx, m, u, sub, sp, pair, W)
    # records
    for name, (ts, cu) in FLUX.items():
        a = upd.load(u, u.st, rec(m, u, ts))
        r = sub.same(a, tot[name])
        ctx.judge(r is None, 'step record', W, '%s of the step record is not the reported %s: %s' % (ts, name, util.short(a, 200)), (a,), 'step records')
        c0 = upd.load(u, State({}, T), rec(m, u, cu)); c1 = upd.load(u, u.st, rec(m, u, cu))
        r = sub.same(util.difdd(c1, c0), tot[name])
        ctx.judge(r is None, 'cumulative record', W, r and '%s does not grow by the reported %s: it becomes %s' % (cu, name, util.short(c1, 200)), (c1,), 'cumulative records')
    for cu, ts in (('volon_cm', 'volon_timestep_cm'), ('volend_cm', None)):
        c1 = upd.load(u, u.st, rec(m, u, cu))
        exp = upd.load(u, u.st, rec(m, u, ts)) if ts else apply1(lambda x: pscale(x, 100), sp)
        r = sub.same(c1, exp)
        ctx.judge(r is None, 'cumulative record', W, '%s is not the value at the end of the update: %s' % (cu, util.short(c1, 200)), (c1,), 'cumulative records')
    c1 = upd.load(u, u.st, rec(m, u, 'volend_timestep_cm'))
    ctx.judge(sub.same(c1, apply1(lambda x: pscale(x, 100), sp)) is None, 'step record', W, 'volend_timestep_cm is not the reported soil storage', (c1,), 'step records')
    # ponded water carried from update to update
    i = sub.init(q['v'])
    v0 = upd.load(u, State({}, T), vp)
    ctx.judge(sub.same(i, v0) is None, 'ponded water', W, 'the ponded water of the update does not start from the one left by the previous update: %s' % util.short(i), (i,), 'ponded water')

def soil(ctx, m, u, sub, sp, pair, W):
    I = u.I
    ev = [e for e in I.events if e.kind == 'cut' and e.loops and e.loops[0] == sub.key]
    writers = [k for k, e in enumerate(ev) if c02.front_writes(m, e.data[0]) and base(m.m.funcs[e.data[0]].dem) not in ('listCopy', 'listDelete', 'lgar_dzdt_calc')]
    ints = [e for e in ev[max(writers) + 1:] if base(m.m.funcs[e.data[0]].dem) == 'lgar_calc_mass_bal'] if writers else []
    head = m.lv(u.S, upd.STATE, 'head')
    res = {atom('res', e.data[2]) for e in ints}
    # loop variable behind soil_storage
    try: a = upd.final(u, sub, sp, M, 'soil_storage')
    except upd.Mismatch as e: ctx.judge(False, 'soil storage', W, str(e), (sp,)); return
    nx = sub.next(a)
    r = None
    for ls, x in util.nonzero_paths(apply1(lambda x: ZERO if any(x is patom(y) for y in res) else ONE, nx), sub.r.latch.pc): r = ls; break
    ctx.judge(r is None and res, 'soil storage', W, 'soil_storage is not the column integral after the last change of the fronts: %s' % util.short(nx, 200), (nx,), 'soil storage')
    i = sub.init(a)
    ok = i.var is None and isinstance(i.leaf, Poly) and len(i.leaf.t) == 1 and all(x.kind == 'res' and x.args[0].args[0].startswith('') for x in i.leaf.atoms())
    ctx.judge(ok, 'soil storage', W, 'without a sub-step soil_storage would be %s' % util.short(i), (i,), 'soil storage')

def calib(ctx, m):
    u = upd.run(m, adaptive=0, calib=1, sft=0, invalid=0); I = u.I; W = m.where(u.f)
    p = rec(m, u, 'volchange_calib_cm')
    d = util.difdd(upd.load(u, u.st, p), upd.load(u, State({}, T), p))
    ev = [e for e in I.events if e.kind == 'cut' and base(m.m.funcs[e.data[0]].dem).endswith('update_calibratable_parameters')]
    ok = len(ev) == 1 and d is leaf(patom(atom('res', ev[0].data[2])))
    ctx.judge(ok, 'calibration change', W, 'the change of soil water by calibration is not added to the record: %s' % util.short(d), (d,), 'calibration change')
    u = upd.run(m, adaptive=0, calib=0, sft=0, invalid=0)
    d = util.difdd(upd.load(u, u.st, p), upd.load(u, State({}, T), p))
    ctx.judge(d is leaf(ZERO), 'calibration change', W, 'the calibration change grows without calibration: %s' % util.short(d), (d,), 'calibration change')

def glob(ctx, m):
    f = m.fn('lgar_global_mass_balance')
    I = m.interp(log=('io', 'call', 'cut'))
    S = Ptr(atom('param', 'state'))
    st = State({}, T)
    I.call_function(f, [leaf(S), leaf(Ptr(atom('param', 'queue')))], st); m.use(I)
    g = lambda n: I.loadc(I.chain(st, ('S',) + m.lv(S, upd.STATE, 'lgar_mass_balance.' + n).tag), m.lv(S, upd.STATE, 'lgar_mass_balance.' + n), 'double').leaf
    exp = ZERO
    for n, s in (('volstart_cm', 1), ('volprecip_cm', 1), ('volchange_calib_cm', 1), ('volrunoff_cm', -1), ('volAET_cm', -1), ('volon_cm', -1), ('volrech_cm', -1), ('volend_cm', -1)):
        exp = padd(exp, pscale(g(n), s))
    vals = [a for e in I.events if e.kind == 'io' for a in flat(e.data) if isinstance(a, DD)]
    polys = [a for a in vals if a.var is None and isinstance(a.leaf, Poly) and len(a.leaf.t) >= 4]
    ctx.need(polys, 'the printed global balance was not found')
    W = m.where(f)
    ctx.judge(any(p.leaf is exp for p in polys), 'global balance', W, 'the global balance printed is %s' % ', '.join(util.short(p, 300) for p in polys), polys, 'global balance', util.short(exp, 200))
    # the single totals next to it
    for n in ('volprecip_cm', 'volstart_cm', 'volend_cm', 'volrunoff_cm', 'volAET_cm', 'volrech_cm', 'volon_cm', 'volin_cm', 'volrunoff_giuh_cm', 'volPET_cm', 'volQ_cm'):
        ctx.judge(any(a.var is None and a.leaf is g(n) for a in vals), 'global balance', W, 'the summary does not report %s' % n, vals, 'summary totals')

    for n in (1, 2, 3): ctx.guard('routing queue', left, ctx, m, n)
def ended(m, n):
    """the end-of-run report with n ordinates"""
    f = m.fn('lgar_global_mass_balance')
    I = m.interp(log=('io', 'call', 'cut')); I.unroll = n + 3; S = Ptr(atom('param', 'state')); st = State({}, T)
    I.store(st, leaf(m.lv(S, upd.STATE, 'lgar_bmi_params.num_giuh_ordinates')), leaf(num(n)))
    q = Ptr(atom('param', 'queue')); old = [I.load(st, leaf(Ptr(q.root, num(8 * i), None)), 'double').leaf for i in range(n + 1)]
    I.call_function(f, [leaf(S), leaf(q)], st); m.use(I)
    if any(not r.unrolled for r in I.loops): raise AnalysisError('loop over the routing queue')
    return f, [a for e in I.events if e.kind == 'io' for a in flat(e.data) if isinstance(a, DD)], old
def left(ctx, m, n):
    f, vals, old = ended(m, n); W = m.where(f); s = ZERO
    for x in old[:-1]: s = padd(s, x)
    def agree(a, x):
        for ls, l in util.nonzero_paths(util.difdd(a, leaf(x)), T):
            z = {y.args[0] for y, v in ls if y.kind == 'eq0' and v}       # entries found empty count for nothing
            if psubst(l, lambda y: ZERO if patom(y) in z or y in z else None) is not ZERO: return False
        return True
    ok = any(agree(a, x) for a in vals if all(isinstance(l, Poly) for l in leaves(a)) for x in (s, padd(s, old[-1])))      # the last entry is always empty
    ctx.judge(ok, 'global balance', W, 'with %d ordinates the summary does not report the water in the routing queue' % n, vals, 'summary totals')

def flat(x):
    if isinstance(x, (tuple, list)):
        for y in x: yield from flat(y)
    else: yield x

def start(ctx, m):
    """initial water is set by the initialisation only, from the column integral"""
    t = m.tag('lgar_mass_balance_variables', 'volstart_cm')
    ws = [n for n, (stores, loads, calls) in m.eff.local.items() if any(s[0] == t if isinstance(s, tuple) else False for s in stores)]
    for n in ws:
        f = m.m.funcs[n]
        ok = reach_init(m, n)
        ctx.judge(ok, 'initial water', m.where(f), 'the initial water is changed outside initialisation', (), 'initial water', base(f.dem))
ZEROED = ('volprecip_cm', 'volin_cm', 'volAET_cm', 'volPET_cm', 'volrech_cm', 'volrunoff_cm', 'volrunoff_giuh_cm', 'volQ_cm', 'volon_cm', 'volon_timestep_cm', 'volchange_calib_cm')
def initial_record(ctx, m):
    """after Initialize every cumulative quantity is zero and the initial water is the integral of the initial column"""
    import initial
    r = initial.run(m); W = m.where(r.f); R = 'initial record'
    for n in ZEROED:
        d = initial.get(r, 'lgar_mass_balance.' + n)
        ctx.judge(d is leaf(ZERO) or util.same(d, leaf(ZERO), r.st.pc) is None, R, W, '%s starts at %s' % (n, util.short(d, 100)), (d,), R, n)
    d = initial.get(r, 'lgar_mass_balance.volstart_cm'); g = m.fn('lgar_calc_mass_bal', False)
    ctx.need(g is not None, 'water integral')
    ev = [e for e in r.I.events if e.kind == 'cut' and e.data[0] == g.name]
    mine = [e for e in ev if d is leaf(patom(e.data[2])) or d is leaf(patom(atom('res', e.data[2])))]
    known = {patom(e.data[2]) for e in ev}
    rest = [a for a in util.atoms_of(d) if a.kind in ('mu', 'ld', 'callv') and patom(a) not in known and not any(a in set(util.atoms_of(k)) for k in known)]
    if not mine and rest: ctx.undecided(R, 'the initial water is computed as %s' % util.short(d, 200)); return
    if not ctx.judge(bool(mine), R, W, 'the initial water is %s, not the water of the initial column' % util.short(d, 100), (), R, 'initial water'): return
    e = mine[0]; h, c = initial.get(r, 'head', 'ptr'), initial.get(r, 'lgar_bmi_params.cum_layer_thickness_cm', 'ptr')
    ctx.judge(e.data[1][-1] is h and e.data[1][0] is c, R, m.loc(e.inst), 'the initial water is integrated over %s with depths %s' % (util.short(e.data[1][-1], 80), util.short(e.data[1][0], 80)), (), R, 'initial column')

def reach_init(m, n):
    """n is not reachable from Update"""
    seen = set(); st = [f for f in m.m.funcs if base(m.m.funcs[f].dem) in ('BmiLGAR::Update', 'BmiLGAR::UpdateUntil', 'BmiLGAR::Finalize')]
    while st:
        x = st.pop()
        if x in seen or x not in m.eff.local: continue
        seen.add(x); st += [c[0] for c in m.eff.local[x][2] if c[0]]
    return n not in seen
