from harness import *
import bmi, util, libmodel

EXPLAIN = ('GetValuePtr, GetValue, SetValue and the at-indices variants are evaluated on the gated value graph for every advertised name, for a symbolic name and for every other '
           'string the interface compares names with; designated storage, bytes copied, items touched and the behaviour for unknown names are compared with the specification.')
ASSUME = ['a destination/source buffer handed in by the caller does not overlap model storage', 'names are the constant tables the constructor fills in']
TABLE = {'precipitation_rate': 'lgar_bmi_input_params->precipitation_mm_per_h', 'potential_evapotranspiration_rate': 'lgar_bmi_input_params->PET_mm_per_h',
         'soil_temperature_profile': '*lgar_bmi_params.soil_temperature', 'soil_moisture_wetting_fronts': '*lgar_bmi_params.soil_moisture_wetting_fronts',
         'soil_depth_wetting_fronts': '*lgar_bmi_params.soil_depth_wetting_fronts', 'soil_depth_layers': '*lgar_bmi_params.cum_layer_thickness_cm',
         'soil_num_wetting_fronts': 'lgar_bmi_params.num_wetting_fronts',
         'smcmax': '*lgar_calib_params.theta_e', 'smcmin': '*lgar_calib_params.theta_r', 'van_genuchten_n': '*lgar_calib_params.vg_n', 'van_genuchten_alpha': '*lgar_calib_params.vg_alpha',
         'hydraulic_conductivity': '*lgar_calib_params.Ksat', 'field_capacity': 'lgar_calib_params.field_capacity_psi', 'ponded_depth_max': 'lgar_calib_params.ponded_depth_max'}
CONV = {'precipitation': 'volprecip_timestep_m', 'potential_evapotranspiration': 'volPET_timestep_m', 'actual_evapotranspiration': 'volAET_timestep_m', 'surface_runoff': 'volrunoff_timestep_m',
        'giuh_runoff': 'volrunoff_giuh_timestep_m', 'soil_storage': 'volend_timestep_m', 'total_discharge': 'volQ_timestep_m', 'infiltration': 'volin_timestep_m', 'percolation': 'volrech_timestep_m',
        'groundwater_to_stream_recharge': 'volQ_gw_timestep_m', 'mass_balance': 'mass_balance_m'}

def check(ctx):
    for cf in (ctx.configs() if ctx.tier == 'thorough' else ('STANDALONE',)): one(ctx, ctx.mod(cf))

def designated(m, n):
    """(member tag, is the member the value itself?, byte offset into what it points to)"""
    if n in CONV:
        st = [s for s in m.m.di_structs if any(f == CONV[n] for f in m.m.di_structs[s].values())]
        if len(st) != 1: raise AnalysisError('output record of %s not found' % n)
        return (st[0], m.off(st[0], CONV[n])), True, 0
    path = TABLE[n]; ind = path.startswith('*'); s = path.lstrip('*').replace('->', '.').split('.')
    holder = {'lgar_bmi_input_params': 'lgar_bmi_input_parameters', 'lgar_bmi_params': 'lgar_bmi_parameters', 'lgar_calib_params': 'lgar_calib_parameters'}[s[0]]
    if holder not in m.m.di_structs:
        c = [x for x in m.m.di_structs if s[1] in m.m.di_structs[x].values()]
        if len(c) != 1: raise AnalysisError('record holding %s not found' % s[1])
        holder = c[0]
    return (holder, m.off(holder, s[1])), not ind, (8 if n == 'soil_depth_layers' else 0)

def copies(m, r, outside):
    """copy operations performed: (dst Ptr, src Ptr, nbytes Poly, pc, loops, inst)"""
    out = []; other = []; seen = set()
    for e in r.events:
        if e.kind != 'memcpy': continue
        seen.add(e.inst)
        d, s, n = e.data
        if d.var is None and isinstance(d.leaf, Ptr) and isinstance(d.leaf.root, Obj) and d.leaf.root.kind == 'alloca': continue
        if d.var is not None or s.var is not None or n.var is not None: raise AnalysisError('gated copy at ' + m.loc(e.inst))
        out.append((d.leaf, s.leaf, n.leaf, r.I.fullpc(e.pc, e.path), e.loops, e.inst))
    for p, v, pc, inst, path, loops in r.stores:
        if inst in seen: continue
        if isinstance(p.root, Obj) and p.root.kind == 'alloca': continue
        l = v.leaf if v.var is None else None
        if isinstance(l, Poly) and len(l.t) == 1:
            (mm, c), = l.t.items()
            if c == 1 and len(mm) == 1 and mm[0][1] == 1 and mm[0][0].kind == 'ld' and inst is not None and inst.op == 'store':
                out.append((p, mm[0][0].args[2], num(inst.ops[0].ty.size), r.I.fullpc(pc, path), loops, inst)); continue
        other.append((p, v, inst))
    return out, other

def one(ctx, m):
    I, st = bmi.ctor_state(m)
    names = bmi.vec_result(bmi.call(m, 'GetInputVarNames', [], st=st, I=I)) + bmi.vec_result(bmi.call(m, 'GetOutputVarNames', [], st=st, I=I)) + [n for n in (bmi.string_array(m, I, st, 'calib_var_names') or bmi.CALIB) if n]
    names = list(dict.fromkeys(names + bmi.INPUTS + bmi.OUTPUTS + bmi.CALIB))
    ctx.rule('each name designates the storage of the quantity it is named after; no two names share storage')
    where = {}
    for n in names: ctx.guard('designated storage', storage, ctx, m, n, where)
    seen = {}
    for n, (p, f) in where.items():
        k = (p.root, p.off)
        if k in seen: ctx.violation('shared storage', '%s %s' % (m.where(f), n), '%s and %s designate the same storage %r' % (seen[k], n, p))
        else: ctx.ok('distinct storage'); seen[k] = n
    ctx.rule('GetValue/SetValue perform exactly one copy of exactly the bytes of the variable and no other write')
    ctx.rule('the at-indices variants copy, for i = 0..len-1, exactly item inds[i] <-> i-th buffer item and write nothing else')
    for n in names:
        if n in where:
            ctx.guard('whole copy', whole, ctx, m, n, where[n][0])
            ctx.guard('items copy', items, ctx, m, n, where[n][0])
    ctx.rule('a name that is none of the advertised ones raises an exception in every value access, before any write')
    ctx.guard('unknown name', unknown, ctx, m, names)

def storage(ctx, m, n, where):
    r = bmi.call(m, 'GetValuePtr', [('str', leaf(Str(n)))])
    if r.st is None or r.ret is None: ctx.violation('designated storage', '%s %s' % (m.where(r.f), n), 'known variable %s raises an exception' % n); return
    if r.ret.var is not None or not isinstance(r.ret.leaf, Ptr) or r.ret.leaf.root is None: ctx.violation('designated storage', '%s %s' % (m.where(r.f), n), 'no unique value pointer for %s: %s' % (n, util.short(r.ret))); return
    p = r.ret.leaf
    if util.murky(p): raise AnalysisError('storage of %s is not understood: %s' % (n, util.short(p)))
    where[n] = (p, r.f)
    tag, direct, off = designated(m, n)
    if direct: ok = p.tag is not None and m.fname(p.tag) == m.fname(tag)
    else: ok = isinstance(p.root, Atom) and p.root.kind == 'ld' and p.root.args[1] == ('S',) + tag and p.off.const() == off
    got = m.fname(p.tag) if p.tag else (m.fname(p.root.args[1][1:]) + '[+%r bytes]' % p.off if isinstance(p.root, Atom) and p.root.kind == 'ld' else repr(p))
    if not ok: ctx.violation('designated storage', '%s %s' % (m.where(r.f), n), 'variable %s designates %s, expected %s' % (n, got, m.fname(tag)))
    else: ctx.ok('designated', '%s -> %s' % (n, got))

BUF = Ptr(atom('param', 'buffer')); INDS = Ptr(atom('param', 'inds')); LEN = sym('len')

def same(p, q): return p.root is q.root and iszero(psub(p.off, q.off))

def nonnull(p, pc):
    return restrict(pc, bnot(bvar(atom('eqp', Ptr(p.root, p.off), NULL))))

def whole(ctx, m, n, p):
    nb = bmi.call(m, 'GetVarNbytes', [('str', leaf(Str(n)))]).ret
    for meth in ('GetValue', 'SetValue'):
        r = bmi.call(m, meth, [('str', leaf(Str(n))), leaf(BUF)], track=True)
        w = '%s %s' % (m.where(r.f), n)
        cp, other = copies(m, r, None)
        dst, src = (BUF, p) if meth == 'GetValue' else (p, BUF)
        if other: ctx.violation('whole copy', w, '%s(%s) also writes %s at %s' % (meth, n, m.fname(other[0][0].tag), m.loc(other[0][2]))); continue
        if nb.var is not None: raise AnalysisError('size of %s is gated' % n)
        N = util.canon(nb).leaf; done = F; bad = None
        def live(pc): return any(util.intfeasible(c) is not False for c, l in paths(nonnull(p, pc)) if l is True)
        for d, s, sz, pc, loops, inst in cp:
            if not live(pc): continue
            pc = nonnull(p, pc)
            if len(loops) == 1:
                rec = util.recs(r.I).get(loops[0])
                if rec is None: raise AnalysisError('loop not recorded')
                st = pmul(sz, patom(util.itatom(rec.key)))
                rev = psub(N, padd(st, sz))
                off = psub(d.off, dst.off); cnt = pdiv(N, sz)
                if d.root is not dst.root or s.root is not src.root or not iszero(psub(off, psub(s.off, src.off))) or not (iszero(psub(off, st)) or iszero(psub(off, rev))): bad = 'copies %r <- %r in iteration i, expected %r <- %r' % (d, s, dst, src)
                elif not util.covers(rec, pc, cnt): bad = 'copies %r bytes per iteration under %s, the variable has %s bytes' % (sz, util.short(pc), util.short(nb))
                else: done = bor(done, nonnull(p, rec.outer_pc))
            elif loops: raise AnalysisError('nested copy loops')
            elif not same(d, dst) or not same(s, src): bad = 'copies %r <- %r, expected %r <- %r' % (d, s, dst, src)
            elif not iszero(psub(util.canon(leaf(sz)).leaf, N)): bad = 'copies %r bytes, the variable has %s' % (sz, util.short(nb))
            else: done = bor(done, pc)
            if bad: break
        if not bad and not cp: bad = 'copies nothing'
        if not bad:
            for c, l in paths(bnot(done)):
                if l is True and util.intfeasible(c) is not False: bad = 'copies nothing when %s' % util.showlits(c)
        if bad: ctx.violation('whole copy', w, '%s(%s) %s' % (meth, n, bad))
        else: ctx.ok('whole copies', '%s(%s): %r bytes' % (meth, n, N))

def items(ctx, m, n, p):
    iz = bmi.call(m, 'GetVarItemsize', [('str', leaf(Str(n)))]).ret.leaf.const()
    for meth in ('GetValueAtIndices', 'SetValueAtIndices'):
        a = [('str', leaf(Str(n))), leaf(BUF), leaf(INDS), leaf(LEN)] if meth.startswith('Get') else [('str', leaf(Str(n))), leaf(INDS), leaf(LEN), leaf(BUF)]
        r = bmi.call(m, meth, a, track=True); w = '%s %s' % (m.where(r.f), n)
        cp, other = copies(m, r, None)
        if other: ctx.violation('items copy', w, '%s(%s) also writes %s at %s' % (meth, n, m.fname(other[0][0].tag), m.loc(other[0][2]))); continue
        if len(cp) != 1 or len(cp[0][4]) != 1: ctx.violation('items copy', w, '%s(%s): expected one copy per requested item, found %s' % (meth, n, [(m.loc(c[5]), len(c[4])) for c in cp])); continue
        d, s, sz, pc, loops, inst = cp[0]
        buf, mod = (d, s) if meth.startswith('Get') else (s, d)
        rec = util.recs(r.I).get(loops[0])
        if rec is None: raise AnalysisError('loop not recorded')
        it = util.itatom(rec.key)
        if buf.root is not BUF.root or mod.root is not p.root: ctx.violation('items copy', w, '%s(%s) copies %r <- %r' % (meth, n, d, s)); continue
        g = pscale(buf.off, Fraction(1) / int(iz))           # item index in the buffer
        idx = patom(atom('ld', 'init', ('E', INDS.root), Ptr(INDS.root, pscale(g, 4))))
        okidx = iszero(psub(mod.off, padd(p.off, pscale(idx, int(iz)))))
        up, dn = patom(it), psub(psub(LEN, ONE), patom(it))
        okg = iszero(psub(g, up)) or iszero(psub(g, dn))
        okr = util.covers(rec, nonnull(p, pc), LEN)
        okp = nonnull(p, rec.outer_pc) is T or nonnull(p, rec.outer_pc) is cmp_lt(pneg(LEN), True)
        if sz.const() != iz: ctx.violation('items copy', w, '%s(%s) copies %r bytes per item of %s bytes' % (meth, n, sz, iz))
        elif not okg or not okidx: ctx.violation('items copy', w, '%s(%s): in iteration i buffer offset %r pairs with model offset %r; expected i*%s and inds[i]*%s' % (meth, n, buf.off, psub(mod.off, p.off), iz, iz))
        elif not okr or not okp: ctx.violation('items copy', w, '%s(%s): items are copied under %s, expected for every i in [0,len)' % (meth, n, util.short(pc)))
        else: ctx.ok('item copies', '%s(%s)' % (meth, n))

def unknown(ctx, m, names):
    X = Sx('strof', atom('param', 'name'))
    lits = set()
    for meth in ('GetValuePtr', 'GetVarGrid', 'GetVarUnits', 'GetVarLocation', 'GetVarType', 'GetVarItemsize'):
        r = bmi.call(m, meth, [('str', leaf(X))])
        dds = [e.pc for e in r.events] + ([r.ret] if r.ret is not None and isinstance(r.ret, DD) else [])
        for d in dds:
            for a in d.sup:
                if a.kind == 'streq': lits |= {x.s for x in a.args if isinstance(x, Str)}
        if meth == 'GetValuePtr':
            unk = T
            for n in names: unk = band(unk, bnot(bvar(atom('streq', X, Str(n)))))
            thr = F
            for e in r.events:
                if e.kind == 'throw': thr = bor(thr, e.pc)
            miss = band(unk, bnot(thr))
            if miss is not F: ctx.violation('unknown name', m.where(r.f), 'GetValuePtr returns %s for a name that is not advertised' % util.short(restrict(r.ret, miss) if r.ret is not None else None))
            else: ctx.ok('unknown names', 'symbolic name, GetValuePtr throws exactly when no advertised name matches')
            wr = bmi.call(m, meth, [('str', leaf(X))], track=True)
    for n in sorted((lits | {'no such variable', ''}) - set(names)):
        for meth, extra in (('GetValue', [leaf(BUF)]), ('SetValue', [leaf(BUF)]), ('GetValuePtr', []), ('GetValueAtIndices', [leaf(BUF), leaf(INDS), leaf(LEN)]), ('SetValueAtIndices', [leaf(INDS), leaf(LEN), leaf(BUF)])):
            r = bmi.call(m, meth, [('str', leaf(Str(n)))] + extra, track=True)
            cp, other = copies(m, r, None)
            other = [o for o in other if not (isinstance(o[0].root, Obj) and o[0].root.kind == 'heap') and not (isinstance(o[0].root, Atom) and o[0].root.kind == 'ret')]
            if r.st is not None or not any(e.kind == 'throw' for e in r.events) or cp or other: ctx.violation('unknown name', m.where(r.f), '%s("%s"): %s' % (meth, n, 'returns normally' if r.st is not None else 'writes %s before failing' % m.fname(other[0][0].tag) if other else 'copies before failing' if cp else 'does not raise an exception'))
            else: ctx.ok('unknown names', '%s("%s") throws' % (meth, n))
