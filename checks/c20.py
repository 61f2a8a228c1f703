from harness import *
import bmi, util, upd, conf, c09

EXPLAIN = ('The update is analysed with the unsupported-soil flag set (everything else symbolic): each output must be the stated polynomial of the input rate and the forcing interval, time must advance by it, no wetting front may be touched. With the flag clear the sub-step loop must be reached unconditionally. '
           'The flag itself is decided from the loop over the layers in the configuration reader: it must be set exactly when some layer has a type above the number of supported types, by induction over an arbitrary iteration.')
ASSUME = ['real-number arithmetic']
OUT = {'precipitation': 1, 'surface_runoff': 1, 'total_discharge': 1, 'potential_evapotranspiration': 0, 'actual_evapotranspiration': 0, 'infiltration': 0, 'percolation': 0, 'groundwater_to_stream_recharge': 0, 'giuh_runoff': 0, 'soil_storage': 0, 'mass_balance': 0}
CUM = {'volprecip_cm': 1, 'volrunoff_cm': 1, 'volQ_cm': 1}

def check(ctx):
    ctx.rule('with an unsupported soil, precipitation, surface runoff and discharge are rate x interval and every other flux output is zero')
    ctx.rule('with an unsupported soil, the time advances by the interval and no wetting front is written, created or freed')
    ctx.rule('with supported soils the sub-steps are always executed')
    ctx.rule('the flag is set exactly when a layer 1..n has a soil type above the number of supported types')
    for cf in ctx.configs():
        m = ctx.mod(cf)
        ctx.guard('pass through', through, ctx, m)
        ctx.guard('supported soils', supported, ctx, m)
        ctx.guard('flag', flag, ctx, m)

def through(ctx, m):
    u = upd.run(m, invalid=1); W = m.where(u.f)
    if u.loop is not None:
        ctx.judge(u.loop.outer_pc is F, 'pass through', W, 'sub-steps are executed for an unsupported soil when %s' % util.short(u.loop.outer_pc), (u.loop.outer_pc,)); return
    L = lambda n, f: upd.load(u, State({}, T), m.lv(u.S, upd.STATE, n))
    ip = upd.load(u, State({}, T), m.lv(u.S, upd.STATE, 'lgar_bmi_input_params'), 'ptr')
    P = upd.load(u, State({}, T), m.lv(ip.leaf, 'lgar_bmi_input_parameters', 'precipitation_mm_per_h'))
    res = L('lgar_bmi_params.forcing_resolution_h', 0)
    depth = pmul(P.leaf, res.leaf)            # mm
    care = bnot(cmp_lt(P.leaf, True))
    for n, k in OUT.items():
        d = upd.load(u, u.st, upd.outptr(m, n))
        exp = leaf(pscale(depth, Fraction(k, 1000)))
        r = util.same(d, exp, care)
        ctx.judge(r is None, 'pass through', W, r and 'for an unsupported soil %s is %s instead of %s' % (n, util.short(d, 160), util.short(exp)), (d,), 'outputs', n)
    t = m.lv(u.S, upd.STATE, 'lgar_bmi_params.time_s')
    r = util.same(upd.load(u, u.st, t), I_add(upd.load(u, State({}, T), t), pscale(res.leaf, 3600)))
    ctx.judge(r is None, 'pass through', W, 'time does not advance by the forcing interval for an unsupported soil: %s' % util.short(upd.load(u, u.st, t)), (upd.load(u, u.st, t),), 'time')
    for n, k in CUM.items():
        p = m.lv(u.S, upd.STATE, 'lgar_mass_balance.' + n)
        a, b = upd.load(u, State({}, T), p), upd.load(u, u.st, p)
        r = util.same(b, I_add(a, pscale(depth, Fraction(1, 10))), care)
        ctx.judge(r is None, 'pass through', W, 'the cumulative %s becomes %s' % (n, util.short(b, 160)), (b,), 'cumulative record')
    # fronts
    bad = [(p, inst) for p, v, pc, inst, cs, ls in u.I.stores if p.tag and p.tag[0] == 'wetting_front']
    ctx.judge(not bad, 'pass through', m.loc(bad[0][1]) if bad else W, 'a wetting front is changed although the soil is unsupported', (), 'fronts untouched')
    for n in ('head', 'state_previous'):
        p = m.lv(u.S, upd.STATE, n)
        ctx.judge(upd.load(u, u.st, p, 'ptr') is upd.load(u, State({}, T), p, 'ptr'), 'pass through', W, 'the wetting-front list %s is replaced although the soil is unsupported' % n, (), 'fronts untouched')
    wr = []
    for e in u.I.events:
        if e.kind == 'cut':
            Ws, R, E = m.eff.summary(e.data[0])
            if any(t and t[0] == 'wetting_front' for t, o in Ws): wr.append(e)
    ctx.judge(not wr, 'pass through', m.loc(wr[0].inst) if wr else W, 'wetting fronts are processed although the soil is unsupported', (), 'fronts untouched')
    ab = [e for e in u.I.events if e.kind in ('abort', 'exit', 'throw')]
    ctx.judge(not ab, 'pass through', m.loc(ab[0].inst) if ab else W, 'the update of an unsupported soil can fail', (), 'no failure')
def I_add(a, p): return util.adddd(a, leaf(p))

def supported(ctx, m):
    u = upd.run(m, adaptive=0, calib=0, sft=0, invalid=0); W = m.where(u.f)
    ctx.need(u.loop is not None, 'sub-step loop')
    pc = u.loop.outer_pc
    bad = None
    if pc is not T:
        for ls, l in util.nonzero_paths(ite(pc, leaf(ZERO), leaf(ONE))): bad = ls; break
    ctx.judge(bad is None, 'supported soils', W, bad and 'with supported soils the sub-steps are skipped when %s' % util.showlits(bad), (pc,), 'supported soils')
    # the flag is not changed by the update
    p = m.lv(u.S, upd.STATE, 'lgar_bmi_params.is_invalid_soil_type')
    d = upd.load(u, u.st, p)
    ctx.judge(d is leaf(ZERO), 'supported soils', W, 'an update changes the unsupported-soil flag to %s' % util.short(d), (d,), 'supported soils')

def flag(ctx, m):
    c = conf.run(m); I = c.I; W = m.where(c.f); R = 'flag'
    p = conf.field(c, 'is_invalid_soil_type')
    lp = None
    for r in I.loops:
        if r.loopstack or r.key == c.r.key or r.latch is None: continue
        t, n = soil(c, m, r); b = badcond(I, t, n)
        mine = [x.pc for s, d, x in r.exits] + [r.latch.pc] + list(r.next.values()) + [load(I, r.latch, p)]
        if b.sup & set().union(*[x.sup for x in mine]): lp = (r, b)
    ctx.need(lp is not None, 'loop over the soil types of the layers')
    r, bad = lp
    w = m.loc(r.loop.header.insts[-1])
    cur = load(I, State(r.head, T), p); ini = load(I, r.pre, p); nx = load(I, r.latch, p)
    ctx.judge(ini is leaf(ZERO), R, w, 'the flag is %s before the layers are looked at' % util.short(ini), (ini,), R)
    N = load(I, r.pre, conf.field(c, 'num_layers'))
    hd = F; inner = []
    nr = I.noret(r.loop.header.fn)
    for src, dst, s in r.exits:
        if dst in nr: continue
        if src is r.loop.header: hd = bor(hd, s.pc)
        else: inner.append(s)
    n = util._bound(bnot(hd), util.itatom(r.key)) if hd is not F else None
    ctx.need(n is not None and N.var is None, 'number of layers looked at')
    ctx.judge(iszero(psub(n, N.leaf)), R, w, '%s layers are looked at instead of all' % util.short(n), (n,), R)
    lt = r.latch.pc
    x = util.same(nx, leaf(ONE), band(lt, bad)) if band(lt, bad) is not F else None
    ctx.judge(x is None, R, w, x and 'a layer with an unsupported soil does not set the flag when %s' % util.showlits(x[0]), (nx,), R, util.short(bad))
    x = util.same(nx, cur, band(lt, bnot(bad)))
    ctx.judge(x is None, R, w, x and 'a layer with a supported soil changes the flag when %s' % util.showlits(x[0]), (nx,), R)
    fin = load(I, c.st, p)
    for s in inner:
        ok = band(s.pc, bnot(bad))
        z = None if ok is F else next(iter(util.nonzero_paths(ite(ok, leaf(ONE), leaf(ZERO)))), None)
        ctx.judge(z is None, R, w, z and 'the search for unsupported soils ends early when %s' % util.showlits(z[0]), (s.pc,), R)
        x = util.same(fin, leaf(ONE), s.pc)
        ctx.judge(x is None, R, w, 'the flag is %s at the end although a layer has an unsupported soil' % util.short(fin), (fin,), R)
    if not inner:
        x = util.same(fin, cur, hd)
        ctx.judge(x is None, R, w, 'the flag is changed after the layers were looked at: %s' % util.short(fin), (fin,), R)
    else:
        x = util.same(fin, cur, hd)
        ctx.judge(x is None, R, w, 'the flag is %s at the end although every layer has a supported soil' % util.short(fin), (fin,), R)
    # Initialize does not change it afterwards: see kept values of C10
def load(I, st, p, ty='double'): return I.loadc(I.chain(st, I.cls_of(p, None)), p, ty)
def soil(c, m, r):
    lst = load(c.I, r.pre, conf.field(c, 'layer_soil_type'), 'ptr')
    if lst.var is not None: raise AnalysisError('soil types')
    q = Ptr(lst.leaf.root, padd(lst.leaf.off, pscale(padd(ONE, patom(util.itatom(r.key))), 4)))
    return c.I.load(State(r.head, T), leaf(q), 'int'), load(c.I, r.pre, conf.field(c, 'num_soil_types'))
def badcond(I, t, n): return I.ap2(lambda a, b: cmp_lt(psub(b, a), True), t, n)
