from harness import *
import bmi, util, libmodel

EXPLAIN = ('Every BMI metadata method is evaluated on the gated value graph for every advertised name (constant string), for symbolic model sizes; the results are '
           'compared with each other, with the storage behind GetValuePtr and with every allocation stored into that storage.')
ASSUME = ['variable names are the constant tables the constructor fills in', 'unit of each named quantity as documented for the BMI variables (mm h^-1 rates in, m amounts and front depths out, K temperatures, cm layer depths)']
UNITS = {'precipitation_rate': {'mm h^-1'}, 'potential_evapotranspiration_rate': {'mm h^-1'}, 'soil_temperature_profile': {'K'},
         'soil_moisture_wetting_fronts': {'none', '1', '', 'm m^-1'}, 'soil_num_wetting_fronts': {'none', '1', ''}, 'soil_depth_wetting_fronts': {'m'}}
SZ = {'double': 8, 'int': 4, 'float': 4, 'long': 8}

def const(d):
    if d is None or d.var is not None: return None
    if isinstance(d.leaf, Poly): return d.leaf.const()
    if isinstance(d.leaf, Str): return d.leaf.s
    return None

def check(ctx):
    for cf in ctx.configs(): one(ctx, ctx.mod(cf))

def one(ctx, m):
    I, st = bmi.ctor_state(m)
    ins = bmi.vec_result(bmi.call(m, 'GetInputVarNames', [], st=st, I=I))
    outs = bmi.vec_result(bmi.call(m, 'GetOutputVarNames', [], st=st, I=I))
    cal = bmi.string_array(m, I, st, 'calib_var_names') or list(bmi.CALIB)
    R = 'counts'; ctx.rule('advertised item counts equal the number of advertised names and names are distinct')
    for what, lst in (('GetInputItemCount', ins), ('GetOutputItemCount', outs)):
        r = bmi.call(m, what, [], st=st, I=I)
        if const(r.ret) != len(lst): ctx.violation(R, m.where(r.f), '%s returns %r but %d names are advertised' % (what, r.ret, len(lst)))
        else: ctx.ok('count', '%s == %d' % (what, len(lst)))
    cal = [c for c in cal]
    allnames = ins + outs + cal
    dup = {n for n in allnames if allnames.count(n) > 1}
    if dup or None in allnames or '' in allnames: ctx.violation(R, m.where(m.fn('BmiLGAR::BmiLGAR')), 'names not distinct or empty: %s' % sorted(map(str, dup or {''})))
    else: ctx.ok('distinct', ', '.join(allnames))
    for docd, got, k in ((bmi.INPUTS, ins, 'input'), (bmi.OUTPUTS, outs, 'output'), (bmi.CALIB, cal, 'calibratable')):
        for n in docd:
            if n not in got: ctx.violation('documented names', m.where(m.fn('BmiLGAR::BmiLGAR')), 'documented %s variable %s is not advertised' % (k, n))
            else: ctx.ok('documented')
    ctx.rule('type, item size, byte count, grid, location and value storage of each name agree')
    grids = {}
    for n in allnames:
        if not n: continue
        S = ('str', leaf(Str(n)))
        g = bmi.call(m, 'GetVarGrid', [S]); gv = const(g.ret)
        if gv is None or gv < 0: ctx.violation('grid', m.where(g.f), 'variable %s has no valid grid (%r)' % (n, g.ret)); continue
        ty = bmi.call(m, 'GetVarType', [S]); tv = const(ty.ret)
        it = bmi.call(m, 'GetVarItemsize', [S]); iv = const(it.ret)
        if tv not in SZ: ctx.violation('type', m.where(ty.f), 'variable %s has type %r' % (n, ty.ret)); continue
        if iv != SZ[tv]: ctx.violation('itemsize', m.where(it.f), 'variable %s: type %s but item size %r' % (n, tv, it.ret)); continue
        ctx.ok('type', '%s: grid %s type %s' % (n, gv, tv))
        gs = bmi.call(m, 'GetGridSize', [g.ret]); grids[gv] = gs
        nb = bmi.call(m, 'GetVarNbytes', [S])
        want = I.ap1(lambda x: pscale(x, int(iv)), gs.ret) if gs.ret is not None else None
        okb = nb.ret is not None and want is not None and util.eqdd(util.canon(nb.ret), util.canon(want))
        ctx.judge(okb, 'nbytes', m.where(nb.f), 'variable %s: byte count %s is not item size x grid size %s' % (n, util.short(nb.ret), util.short(want)), [x for x in (nb.ret, want) if x is not None])
        if n in ins or n in outs:
            lo = bmi.call(m, 'GetVarLocation', [S]); lv = const(lo.ret)
            if lv not in ('node', 'edge', 'face'): ctx.violation('location', m.where(lo.f), 'variable %s has location %r' % (n, lo.ret))
            else: ctx.ok('location')
        un = bmi.call(m, 'GetVarUnits', [S]); uv = const(un.ret)
        storage(ctx, m, I, n, g.ret, gs.ret, tv, int(iv), uv, un.f)
    if not grids: raise AnalysisError('no grids')
    ctx.rule('every grid in use has rank 1, a size, and a shape query that writes exactly shape[0] = size')
    for gv, gs in sorted(grids.items()):
        rk = bmi.call(m, 'GetGridRank', [leaf(num(gv))])
        if const(rk.ret) != 1: ctx.violation('rank', m.where(rk.f), 'grid %s has rank %r' % (gv, rk.ret))
        else: ctx.ok('rank')
        shp = Ptr(atom('param', 'shape'))
        sh = bmi.call(m, 'GetGridShape', [leaf(num(gv)), leaf(shp)], track=True)
        w = [s for s in sh.stores if s[0].root is shp.root]
        oth = [s for s in sh.stores if not (isinstance(s[0].root, Obj) and s[0].root.kind == 'alloca') and s[0].root is not shp.root]
        offs = {s[0].off for s in w}
        ok = sh.st is not None and not oth and offs == {ZERO} and util.eqdd(util.canon(sh.I.load(sh.st, leaf(shp), 'int')), util.canon(gs.ret))
        if not ok: ctx.violation('shape', '%s grid %s' % (m.where(sh.f), gv), 'GetGridShape(%s) writes entries at byte offsets %s; expected exactly shape[0] = %s' % (gv, sorted(map(repr, offs)), util.short(gs.ret)))
        else: ctx.ok('shape', 'grid %s' % gv)

def storage(ctx, m, I, n, grid, gsize, ty, isz, unit, uf):
    r = bmi.call(m, 'GetValuePtr', [('str', leaf(Str(n)))])
    if r.ret is None or r.ret.var is not None or not isinstance(r.ret.leaf, Ptr) or r.ret.leaf.root is None:
        ctx.violation('storage', m.where(r.f), 'variable %s has no value pointer (%s)' % (n, util.short(r.ret))); return
    p = r.ret.leaf
    isfloat = ty in ('double', 'float')
    unitname = None
    if p.tag is not None:
        # storage is a member itself
        t = m.m.struct(p.tag[0]); ft = None
        for f, o in zip(t.fields, t.offs):
            if o == p.tag[1]: ft = f
        unitname = m.fname(p.tag)
        nel = 1
        if ft is not None and ft.k == 'array': nel = ft.n; ft = ft.elem
        c = gsize.leaf.const() if gsize.var is None else None
        if ft is None or ft.size != isz or (ft.k == 'double') != (ty == 'double') or c is None or c > nel:
            ctx.violation('storage', '%s %s' % (m.where(r.f), n), 'variable %s: member %s cannot hold %s item(s) of type %s' % (n, m.fname(p.tag), util.short(gsize), ty))
        else: ctx.ok('storage', '%s -> %s' % (n, m.fname(p.tag)))
    else:
        a = p.root
        if not (isinstance(a, Atom) and a.kind == 'ld' and a.args[1][0] == 'S'): raise AnalysisError('storage of %s not understood: %r' % (n, p))
        tag = a.args[1][1:]; unitname = m.fname(tag)
        allocs = allocations(ctx, m, tag)
        if not allocs: raise AnalysisError('no allocation found for ' + m.fname(tag))
        for f, I2, obj, end, sp, off, pc in allocs:
            # bytes needed from the pointer, with the element count as it stands at the end of the iteration / function that stores the allocation
            need = count_at(m, I2, end, gsize, a.args[2], sp)
            have = I2.ap1(lambda x: psub(x, padd(p.off, off)), obj.size)
            d = restrict(util.difdd(have, I2.ap1(lambda x: pscale(x, isz), need)), pc)
            bad = [x for x in leaves(d) if not (isinstance(x, Poly) and x.const() is not None and x.const() >= 0)]
            loads = elemtype(m, tag)
            if bad and any(a.kind in ('mu', 'callv', 'trips') for x in (gsize, obj.size) for a in util.atoms_of(x)): ctx.undecided('storage', 'variable %s: the number of items is counted by a loop' % n)
            elif bad: ctx.violation('storage', '%s %s' % (m.where(f), n), 'variable %s: %s is allocated with %s bytes at %s, %s items of %d bytes needed from offset %r' % (n, m.fname(tag), util.short(obj.size), m.loc(obj.info), util.short(need), isz, p.off))
            elif loads and loads != {'double' if isfloat else 'int'}: ctx.violation('storage', '%s %s' % (m.where(r.f), n), 'variable %s of type %s: %s holds %s' % (n, ty, m.fname(tag), sorted(loads)))
            else: ctx.ok('storage', '%s -> %s (allocated at %s)' % (n, m.fname(tag), m.loc(obj.info)))
    # units
    ctx.rule('declared unit is the unit of the designated quantity')
    exp = UNITS.get(n)
    if exp is None and n == 'soil_depth_layers': exp = {'cm'} if (unitname or '').endswith('_cm') else {'m'}
    if exp is None and n in bmi.OUTPUTS: exp = {'m'}
    if exp is None: return
    if unit not in exp: ctx.violation('units', '%s %s' % (m.where(uf), n), 'variable %s (stored in %s) is declared in %r, expected %s' % (n, unitname, unit, '/'.join(sorted(exp))))
    else: ctx.ok('units', '%s [%s]' % (n, unit))

def elemtype(m, tag):
    """LLVM types loaded/stored through a pointer held in this member"""
    out = set()
    for name, (w, r, calls) in m.eff.local.items():
        if not irload.is_own(m.m.funcs[name]): continue
        for lst in (w, r):
            for t, og, i in lst:
                if t is None and any(o == ('load', tag) for o in og): out.add((i.ops[0].ty if i.op == 'store' else i.ty).k)
    return {x for x in out if x in ('double', 'int', 'float')}

_cache = {}
def allocations(ctx, m, tag):
    """(function, interp, heap object, final state, offset) for every allocation stored in the member"""
    return _allocations(ctx, m, tag, True) or _allocations(ctx, m, tag, False)

def escapes(f, tag):
    """the function takes the address of the member for something other than an access in place"""
    import effects
    for b in f.blocks:
        for i in b.insts:
            for k, o in enumerate(i.ops):
                if o is None or getattr(o, 'op', None) != 'getelementptr' or effects.gep_tag(o.gty, o.ops[1:]) != tag: continue
                if i.op == 'load' or i.op == 'store' and k == 1: continue
                return True
    return False

def _allocations(ctx, m, tag, direct):
    out = []
    for name, (w, r, calls) in m.eff.local.items():
        f = m.m.funcs[name]
        if not irload.is_own(f): continue
        if direct and not any(t == tag and i.op == 'store' and i.ops[0].ty.k == 'ptr' for t, og, i in w): continue
        if not direct and not (any(c[0] == '_Znam' for c in calls) and escapes(f, tag)): continue      # stored through a pointer to the member
        k = (m.m.config, name)
        if k not in _cache:
            cut = {'lgar_read_vG_param_file', 'InitializeWettingFronts', 'lgar_calc_mass_bal', 'listLength', 'ReadVectorData', 'InitFromConfigFile', 'lgar_initialize'} - {base(f.dem)}
            I = m.interp(cut=cut, log=()); I.track_stores = True
            args = [leaf(Ptr(atom('param', base(f.dem), k2))) if p.ty.k == 'ptr' else leaf(sym('arg%d' % k2)) for k2, p in enumerate(f.params)]
            if base(f.dem).startswith('BmiLGAR::'): args[0] = leaf(bmi.THIS)
            v, st = I.call_function(f, args, State({}, T)); m.use(I)
            _cache[k] = (I, st)
        I, st = _cache[k]
        if st is None: continue
        recs = {r.key: r for r in I.loops}
        for p, v, pc, inst, path, loops in I.stores:
            if p.tag == tag:
                end = st
                if loops and loops[-1] in recs and recs[loops[-1]].latch is not None: end = recs[loops[-1]].latch
                for l in leaves(v):
                    if isinstance(l, Ptr) and isinstance(l.root, Obj) and l.root.kind == 'heap': out.append((f, I, l.root, end, p, l.off, pc))
    return out

def count_at(m, I, st, d, valptr, sp):
    """the element count d (over loads relative to the object holding the value pointer at `valptr`) as loaded in state st of a function that sees the same member at `sp`"""
    def conv(p):
        r = leaf(p)
        for a in p.atoms():
            if a.kind != 'ld' or a.args[1][0] != 'S': continue
            q = a.args[2]
            if q.root is not valptr.root: raise AnalysisError('element count lives in another object than the array pointer')
            val = I.load(st, leaf(Ptr(sp.root, padd(sp.off, psub(q.off, valptr.off)), q.tag)), 'int')
            r = apply2(lambda x, y, a=a: psubst(x, lambda b: y if b is a else None), r, val)
        return r
    return joinconv(d, conv)
def joinconv(d, conv):
    if d.var is None: return conv(d.leaf)
    return ite(bvar(d.var), joinconv(d.hi, conv), joinconv(d.lo, conv))
