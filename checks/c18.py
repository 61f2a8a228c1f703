from harness import *
import bmi, util, upd, c01

EXPLAIN = ('The update is analysed as a transfer function. The advance of the model time in one arbitrary sub-step is a loop-invariant polynomial; multiplied by the number of iterations read off the loop test it must be the forcing interval, symbolically. '
           'Rain and demand of a sub-step must be the rates times that advance, the rates may only be clamped at zero, every other way out of the loop must be the standalone end-time test, and the division of the interval under adaptive stepping must be the documented case distinction.')
ASSUME = ['real-number arithmetic', 'positive time step and forcing interval, and the run asserts non-negative rates']

def check(ctx):
    ctx.rule('advance of time per sub-step x number of sub-steps = forcing interval')
    ctx.rule('at least one sub-step, so that none is longer than the forcing interval')
    ctx.rule('rain and demand of a sub-step = non-negative rate x sub-step length')
    ctx.rule('Update changes an input rate at most by clamping it at zero')
    ctx.rule('the loop over sub-steps is left early only in a standalone run at or after the end time')
    ctx.rule('adaptive stepping: the interval is divided by the forcing interval when dry, the minimum step for rain above 10 mm/h or ponding, twice the minimum for other rain, never more than the forcing interval')
    ctx.rule('GetCurrentTime, GetTimeStep, GetStartTime, GetEndTime report model time, forcing interval, zero, end time in seconds')
    for cf in ctx.configs():
        m = ctx.mod(cf)
        for sc in [dict(adaptive=0), dict(adaptive=1)] + ([dict(adaptive=0, calib=1, sft=1), dict(adaptive=1, calib=1, sft=1)] if ctx.tier == 'thorough' else []):
            sc = dict(dict(calib=0, sft=0, invalid=0), **sc)
            ctx.guard('time', one, ctx, m, cf, sc)
        ctx.guard('time queries', queries, ctx, m)
        ctx.rule('after Initialize the model time is the start time')
        ctx.guard('start time', started, ctx, m)
        ctx.guard('unsupported soil', unsupported, ctx, m)

def noeps(d):
    """int(x + eps) -> int(x) for the guard against truncation"""
    def f(a):
        if a.kind == 'fn' and a.args[0] == 'int' and isinstance(a.args[1], Poly):
            c = a.args[1].t.get((), 0)
            if 0 < c <= Fraction(1, 1000): return fn('int', psub(a.args[1], num(c)))
        return None
    return util.substdd(d, f)

def one(ctx, m, cf, sc):
    u = upd.run(m, **sc); sub = upd.Sub(u); I = u.I; W = m.where(u.f)
    L = lambda n: upd.load(u, State({}, T), m.lv(u.S, upd.STATE, 'lgar_bmi_params.' + n))
    res = L('forcing_resolution_h')
    care = sub.r.latch.pc
    dt = sub.step_length()
    ctx.need(not util.murky(dt), 'advance of time')
    var = [a for a in util.atoms_of(dt) if sub.isvar(a)]
    ctx.judge(not var, 'equal sub-steps', W, 'the length of a sub-step changes from one to the next: %s' % util.short(dt), (dt,), 'equal sub-steps')
    if var: return
    # number of iterations
    it = util.itatom(sub.key)
    hd = F; early = []
    for src, dst, s in sub.exits():
        if src in sub.tests(): hd = bor(hd, s.pc)
        else: early.append((src, dst, s.pc, s.mem))
    for a, nx in sub.flags(hd).items():
        # left at the loop test because the iteration before asked for it: an early end of that iteration
        lt = sub.r.latch
        early.append((lt_block(sub), None, band(lt.pc, truth(nx)), lt.mem))
        hd = util.substdd(hd, lambda b: ZERO if b is a else None)
    N = util._bound(bnot(hd), it) if hd is not F else None
    ctx.need(N is not None, 'the number of sub-steps could not be read off the loop')
    N = noeps(sub.expand(leaf(N))); D = noeps(sub.expand(dt))
    prod = I.arith('fmul', D, N)
    r = util.same(prod, res)
    ctx.judge(r is None, 'forcing interval', W, r and 'sub-step length x number of sub-steps is not the forcing interval: differs by %s when %s' % (util.short(r[1]), util.showlits(r[0])), (r[1],) if r else (), 'forcing interval', '%s x %s' % (util.short(D, 120), util.short(N, 120)))
    # at least one
    bad = None
    for ls, x in paths(N):
        c = x.const()
        if c is not None and c >= 1: continue
        lt = cmp_lt(psub(x, ONE), True)
        if lt is F or (lt is not T and util.contradict(tuple(ls) + tuple(util.forced(lt)))): continue
        bad = (ls, x); break
    ctx.judge(bad is None, 'at least one sub-step', W, bad and 'the number of sub-steps %s may be zero or negative when %s' % (util.short(bad[1]), util.showlits(bad[0])), (N,), 'at least one sub-step')
    # time outside the loop
    t = m.lv(u.S, upd.STATE, 'lgar_bmi_params.time_s')
    t0 = upd.load(u, State({}, T), t); pre = upd.load(u, sub.r.pre, t)
    ctx.judge(pre is t0, 'time', W, 'time is changed before the sub-steps: %s' % util.short(pre), (pre,), 'time outside the loop')
    fin = upd.load(u, u.st, t)
    try: upd.final(u, sub, fin, Fraction(1), 'time_s'); ctx.ok('time outside the loop')
    except upd.Mismatch as e: ctx.judge(False, 'time', W, 'time after the update: ' + str(e), (fin,))
    # early exits
    end = upd.load(u, sub.r.pre, m.lv(u.S, upd.STATE, 'lgar_bmi_params.endtime_s'))
    for src, dst, spc, smem in early:
        if spc is F: continue
        if cf == 'NGEN': ctx.judge(False, 'early end', m.loc(src.insts[-1]), 'the update can end before the forcing interval is over when %s' % util.short(spc), (spc,)); continue
        tn = sub.at(smem, t)
        before = I.ap2(lambda a, b: cmp_lt(psub(a, b), True), tn, end)         # time < end
        x = band(spc, before)
        bad = None if x is F else c01.first(util.nonzero_paths(ite(x, leaf(ONE), leaf(ZERO))))
        ctx.judge(bad is None, 'early end', m.loc(src.insts[-1]), bad and 'the update can end early before the end time when %s' % util.showlits(bad[0]), (x,), 'early end')
    if not early: ctx.ok('early end', cf + ': none')
    # amounts
    for name, fld in (('precipitation', 'precipitation_mm_per_h'), ('potential_evapotranspiration', 'PET_mm_per_h')):
        a = upd.accumulator(u, sub, name)
        exp = I.arith('fmul', apply1(lambda x: pscale(x, Fraction(1, 10)), upd.nonneg(sub.rate(fld))), dt)
        r = util.same(util.positive(sub.inc(a), dt.leaf.atoms() if dt.var is None else ()), exp, care)
        ctx.judge(r is None, 'amount', W, r and '%s of a sub-step is not rate x sub-step length: differs by %s when %s' % (name, util.short(r[1]), util.showlits(r[0])), (r[1],) if r else (), 'amounts')
        i = sub.init(a)
        ctx.judge(i is leaf(ZERO), 'amount', W, '%s of the update does not start from zero' % name, (i,), 'amounts')
        tag = m.tag('lgar_bmi_input_parameters', fld)
        # the rate at the head of a sub-step is the one given, clamped
        ip = upd.load(u, sub.r.pre, m.lv(u.S, upd.STATE, 'lgar_bmi_input_params'), 'ptr')
        given = upd.load(u, State({}, T), m.lv(ip.leaf, 'lgar_bmi_input_parameters', fld))
        pre = upd.load(u, sub.r.pre, m.lv(ip.leaf, 'lgar_bmi_input_parameters', fld))
        ok = util.same(upd.nonneg(pre), upd.nonneg(given)) is None
        nx = sub.at_latch(m.lv(ip.leaf, 'lgar_bmi_input_parameters', fld)); hd2 = sub.rate(fld)
        ok2 = util.same(upd.nonneg(nx), upd.nonneg(hd2), care) is None
        ctx.judge(ok, 'input rate', W, 'the update changes the %s it was given before using it: %s' % (fld, util.short(pre)), (pre,), 'input rates')
        ctx.judge(ok2, 'input rate', W, 'a sub-step changes the %s used by the next one: %s' % (fld, util.short(nx)), (nx,), 'input rates')
    # division of the interval
    if sc['adaptive']:
        P = upd.load(u, State({}, T), m.lv(upd.load(u, State({}, T), m.lv(u.S, upd.STATE, 'lgar_bmi_input_params'), 'ptr').leaf, 'lgar_bmi_input_parameters', 'precipitation_mm_per_h'))
        v = upd.load(u, State({}, T), m.lv(u.S, upd.STATE, 'lgar_mass_balance.volon_timestep_cm'))
        mn = L('minimum_timestep_h')
        gt = lambda d, k: cmp_lt(psub(num(k), d.leaf), True)
        two = apply1(lambda x: pscale(x, 2), mn)
        mi = lambda d: ite(cmp_lt(psub(res.leaf, d.leaf), True), res, d)
        ts = ite(bor(gt(P, 10), gt(v, 0)), mi(mn), ite(gt(P, 0), mi(two), res))
    else: ts = L('timestep_h')
    q = apply1(lambda x: fn('int', pmul(res.leaf, ppow(x, num(-1)))), ts)
    q = apply1(lambda x: ONE if x is fn('int', ONE) else x, q)
    exp = atleast1(q)
    form = [a for l in leaves(N) if isinstance(l, Poly) for a in l.atoms()]
    if any(not (a.kind == 'fn' and a.args[0] == 'int') for a in form): ctx.undecided('sub-step division', 'number of sub-steps: %s' % util.short(N, 200)); return
    r = util.same(N, exp)
    ctx.judge(r is None, 'sub-step division', W, r and 'the forcing interval is not divided by the %s: the number of sub-steps differs by %s when %s' % ('documented adaptive step' if sc['adaptive'] else 'configured time step', util.short(r[1]), util.showlits(r[0])), (N,), 'sub-step division', util.short(N, 200))

def lt_block(sub): return next(iter(sub.r.loop.latches), sub.r.loop.header) if getattr(sub.r.loop, 'latches', None) else sub.r.loop.header
def truth(d):
    if d.var is None: return F if d.leaf is ZERO else T
    return ite(bvar(d.var), truth(d.hi), truth(d.lo))
def atleast1(d):
    if d.var is None: return ite(cmp_lt(psub(d.leaf, ONE), True), leaf(ONE), d)
    return ite(bvar(d.var), atleast1(d.hi), atleast1(d.lo))
def paths(d): return util.nonzero_paths(d, zero=lambda l: False)

def unsupported(ctx, m):
    u = upd.run(m, invalid=1)
    ctx.need(u.loop is None, 'no sub-steps for unsupported soils')
    t = m.lv(u.S, upd.STATE, 'lgar_bmi_params.time_s'); a, b = upd.load(u, State({}, T), t), upd.load(u, u.st, t)
    res = upd.load(u, State({}, T), m.lv(u.S, upd.STATE, 'lgar_bmi_params.forcing_resolution_h'))
    r = util.same(b, util.adddd(a, leaf(pscale(res.leaf, 3600))))
    ctx.judge(r is None, 'unsupported soil', m.where(u.f), 'with an unsupported soil time becomes %s' % util.short(b), (b,), 'unsupported soil')

def queries(ctx, m):
    S = upd.state_ptr(m)
    I = m.interp()
    ld = lambda n: I.loadc(I.initnode(I.cls_of(m.lv(S, upd.STATE, 'lgar_bmi_params.' + n), None)), m.lv(S, upd.STATE, 'lgar_bmi_params.' + n), 'double').leaf
    k = {'GetCurrentTime': ld('time_s'), 'GetEndTime': ld('endtime_s'), 'GetStartTime': ZERO, 'GetTimeStep': pscale(ld('forcing_resolution_h'), 3600)}
    for n, exp in k.items():
        J = m.interp(log=()); st = State({}, T); upd.preset_units(m, J, st, S)
        r = bmi.call(m, n, [], st=st, I=J)
        ctx.judge(r.ret is leaf(exp), 'time queries', m.where(r.f), '%s returns %s' % (n, util.short(r.ret)), (r.ret,), 'time queries')
    r = bmi.call(m, 'GetTimeUnits', [])
    ctx.judge(r.ret is leaf(Str('s')), 'time queries', m.where(r.f), 'GetTimeUnits returns %s' % util.short(r.ret), (r.ret,), 'time queries')

def started(ctx, m):
    import initial
    r = initial.run(m); d = initial.get(r, 'lgar_bmi_params.time_s')
    ctx.judge(d is leaf(ZERO) or util.same(d, leaf(ZERO), r.st.pc) is None, 'start time', m.where(r.f), 'the model time after Initialize is %s, the start time is 0' % util.short(d, 100), (d,), 'start time')
