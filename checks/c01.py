from harness import *
import bmi, util, upd

EXPLAIN = ('The transfer function of one arbitrary sub-step (loop body of the update, infiltration and front creation expanded in place) is computed as a gated polynomial over the state at its start. '
           'The split of surface water is then an identity between polynomials, checked on every feasible combination of branch conditions, for all inputs at once; the runoff rules are decided on the same diagrams.')
ASSUME = ['real-number arithmetic (rounding is what the 1e-12 cm guard in the balance absorbs)', 'an update with valid soils']

def scenarios(ctx):
    out = [dict(adaptive=0, calib=0, sft=0, invalid=0), dict(adaptive=1, calib=0, sft=0, invalid=0)]
    if ctx.tier == 'thorough': out += [dict(adaptive=0, calib=1, sft=1, invalid=0), dict(adaptive=1, calib=1, sft=1, invalid=0)]
    return out

def check(ctx):
    ctx.rule('rain of the sub-step + water ponded before = infiltration + surface runoff + water ponded after, as polynomials, on every path of the sub-step')
    ctx.rule('on every path either runoff is zero or the water left ponded is the configured maximum')
    ctx.rule('the water left ponded never exceeds the configured maximum')
    ctx.rule('runoff is zero, a difference the path condition makes non-negative, or checked: a negative value stops the run')
    for cf in ctx.configs():
        m = ctx.mod(cf)
        for sc in scenarios(ctx): ctx.guard('surface split', one, ctx, m, sc)

def quantities(ctx, u, sub):
    """loop variables behind the outputs"""
    q = {}
    for k, n in (('P', 'precipitation'), ('I', 'infiltration'), ('R', 'surface_runoff')):
        a = upd.accumulator(u, sub, n); q[k] = a
        q['d' + k] = sub.inc(a)
    p = u.m.lv(u.S, upd.STATE, 'lgar_mass_balance.volon_timestep_cm')
    q['v'] = upd.final(u, sub, upd.load(u, u.st, p), Fraction(1), 'volon_timestep_cm')
    return q

def one(ctx, m, sc):
    u = upd.run(m, **sc); sub = upd.Sub(u)
    W = m.where(u.f)
    try: q = quantities(ctx, u, sub)
    except upd.Mismatch as e: ctx.undecided('surface split', e); return
    v = leaf(sub.cur(q['v'])); vn = sub.next(q['v'])
    care = sub.r.latch.pc; dt = sub.step_length()
    if dt.var is None: care = band(care, cmp_lt(pneg(dt.leaf)))
    total = util.adddd(q['dI'], util.adddd(q['dR'], vn))
    r = util.same(util.adddd(q['dP'], v), total, care)
    ctx.judge(r is None, 'surface split', W, r and 'on the path %s the water at the surface exceeds infiltration + runoff + ponding by %s' % (util.showlits(r[0], 12), util.short(r[1], 300)), (r[1],) if r else (), 'sub-step identities', 'P + v = I + R + v\' over %d decision nodes' % val.ddsize(total))
    # runoff only above the maximum
    mx = upd.load(u, sub.r.pre, m.lv(u.S, upd.STATE, 'lgar_bmi_params.ponded_depth_max_cm'))
    dif = util.difdd(vn, mx); z = apply2(lambda R, d: pmul(R, d), q['dR'], dif)
    n = 0
    for ls, d in util.nonzero_paths(z, care):
        e = dif
        for a, b in ls: e = util.cofactor(e, a, b)
        if e.var is None: d = e.leaf
        # no ponding allowed: maximum <= 0 and nothing left ponded
        if nomax(ls, mx) and d_is(d, mx): n += 1; continue
        ctx.judge(False, 'runoff threshold', W, 'runoff is produced while the water left ponded is not the maximum (difference %s) on the path %s' % (util.short(d, 200), util.showlits(ls, 8)), (d,)); break
    else: ctx.ok('runoff only above maximum ponding', '%d no-ponding paths' % n)
    # ponding never above the maximum
    ex = util.difdd(vn, mx)
    def fine(ls, x):
        if nomax(ls, mx) and d_is(x, mx): return True
        lt = cmp_lt(pneg(x), True)              # vn > mx
        return lt is F or (lt is not T and util.contradict(tuple(ls) + tuple(util.forced(lt)), 3))
    bad = first(util.nonzero_paths(apply1(lambda d: ZERO if d.const() is not None and d.const() <= 0 else d, ex), care, skip=fine))
    ctx.judge(bad is None, 'ponding limit', W, bad and 'the water left ponded exceeds the maximum by %s on the path %s' % (util.short(bad[1], 200), util.showlits(bad[0], 8)), (bad[1],) if bad else (), 'ponding limit')
    # negative runoff
    R = q['dR']
    neg = apply1(lambda x: ZERO if x.const() is not None and x.const() >= 0 else x, R)
    facts = [(pc, c) for pc, c, cs, ls, inst in u.I.facts if ls and ls[0] == sub.key and len(cs) == 1]
    def fine(ls, x):
        if provably_nonneg(x, ls): return True
        lt = cmp_lt(x, True)
        # a fact established on this path that excludes x < 0
        return any(implied(ls, pc) and util.contradict(tuple(util.forced(c)) + tuple(util.forced(lt))) for pc, c in facts)
    bad = first(util.nonzero_paths(neg, care, skip=fine))
    ctx.judge(bad is None, 'negative runoff', W, bad and 'runoff %s may be negative without stopping the run on the path %s' % (util.short(bad[1], 200), util.showlits(bad[0], 8)), (bad[1],) if bad else (), 'runoff sign')

def first(g):
    for x in g: return x
def d_is(d, mx): return mx.var is None and iszero(padd(d, mx.leaf))
def nomax(ls, mx): return mx.var is None and any(a.kind == 'le0' and v and a.args[0] is mx.leaf for a, v in ls)
def implied(ls, pc):
    for a, v in ls: pc = util.cofactor(pc, a, v)
    return pc is T
def provably_nonneg(x, ls):
    lt = cmp_lt(x, True)
    if lt is F: return True
    if lt is T: return False
    return util.contradict(tuple(ls) + tuple(util.forced(lt)))
