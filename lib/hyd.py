"""Physics of fronts on fixed arrangements: opaque hydraulic relations with provenance of their arguments, and runs of the
functions that evaluate them.  Fronts, soils and layers carry symbols: theta1, psi1, K1 ... of front 1; theta_e.2, vg_n.2 ... of soil 2; cum1, ff1 of layer 1."""
import re
from harness import *
import util, upd
import c13
from c13 import setup, shapes, bottom, soilof
from c23 import fronts, install
from c12 import get, headof, WF

SIG = {'calc_theta_from_h': ('h', 'vg_alpha_per_cm', 'vg_m', 'vg_n', 'theta_e', 'theta_r'), 'calc_Se_from_theta': ('theta', 'theta_e', 'theta_r'),
       'calc_K_from_Se': ('Se', 'Ksat_cm_per_h', 'vg_m'), 'calc_Se_from_h': ('h', 'vg_alpha_per_cm', 'vg_m', 'vg_n'), 'calc_h_from_Se': ('Se', 'vg_alpha_per_cm', 'vg_m', 'vg_n'),
       'calc_Geff': ('closed', 'theta', 'theta', 'theta_e', 'theta_r', 'vg_alpha_per_cm', 'vg_n', 'vg_m', 'h_min_cm', 'Ksat', 'nint', 'bc_lambda', 'bc_psib_cm')}
PRE = 'hyd.'
def val(name, *a):
    """the relation as an opaque function of its arguments (those its value depends on)"""
    if name == 'calc_Geff': a = a[1:8] + a[11:]
    # inverse pairs (C14)
    if name == 'calc_Se_from_theta':
        q = rel(a[0], 'calc_theta_from_h')
        if q and q[4] is a[1] and q[5] is a[2]: return val('calc_Se_from_h', *q[:4])
    if name == 'calc_h_from_Se':
        q = rel(a[0], 'calc_Se_from_h')
        if q and q[1:] == a[1:]: return q[0]
    return fn(PRE + name, *a)
def rel(x, name):
    """arguments of relation `name` if x is exactly one evaluation of it"""
    if isinstance(x, Poly) and len(x.t) == 1:
        a = next(iter(x.atoms()), None)
        if a is not None and a.kind == 'fn' and a.args[0] == PRE + name and x is patom(a): return a.args[1:]
def dd(name, *args): return applyn(lambda *a: val(name, *a), [x if isinstance(x, DD) else leaf(x) for x in args])
def P(n): return Ptr(Obj('heap', n, None))
CLOSED = atom('sym', 'closed')
def arm(m, I, seen=None):
    """opaque relations; seen(name, inst, args, pc) is told about every evaluation"""
    for name, sg in SIG.items():
        f = m.fn(name, False)
        if f is None: continue
        if len(f.params) != len(sg): raise AnalysisError('signature of ' + name)
        def hook(I, inst, args, st, env, name=name):
            if seen: seen(name, inst, args, I.fullpc(st.pc, I.callstack))
            if name == 'calc_theta_from_h' and getattr(I, 'onehead', False): args = [I.freeze(args[0], 1)] + list(args[1:])      # the trial head as one value
            return dd(name, *[I.freeze(a) if a is not args[0] or name != 'calc_Geff' else a for a in args])
        I.hooks[f.name] = hook
def soils_of(x, lay, L, memo=None):
    """the soils whose moisture scale the value x is expressed in"""
    memo = {} if memo is None else memo; out = set()
    def at(a):
        if a in memo: return memo[a]
        memo[a] = set(); o = set()
        if a.kind == 'sym':
            s = a.args[0]; q = re.match(r'^(.*)\.(\d+)$', s)
            if q: o.add(int(q.group(2)))
            else:
                q = re.match(r'^(?:old)?theta(\d+)$', s)
                if q: o.add(soilof(L, lay[int(q.group(1)) - 1]))
        elif a.kind == 'fn' and a.args[0] == PRE + 'calc_h_from_Se': pass
        else:
            xs = a.args[2:] if a.kind == 'fn' and a.args[0] in (PRE + 'calc_theta_from_h', PRE + 'calc_Se_from_h') else a.args
            for y in xs: o |= any_(y)
        memo[a] = o
        return o
    def any_(y):
        if isinstance(y, Poly): return set().union(*[at(a) for a in y.atoms()]) if y.t else set()
        if isinstance(y, Atom): return at(y)
        if isinstance(y, DD): return set().union(*[any_(l) for l in leaves(y)])
        if isinstance(y, (tuple, list)): return set().union(set(), *[any_(z) for z in y])
        return set()
    return any_(x)
def unresolved(*vals):
    """a memory cell the analysis could not resolve"""
    for v in vals:
        for a in util.atoms_of(v):
            if a.kind in ('ld', 'any', 'out', 'res', 'ret', 'callv', 'elemp'): return a
# ------------------------------------------------------------------ runs
class R: pass
def base(m, lay, seen=None, cuts=()):
    r = setup(m, lay, cuts); arm(m, r.I, seen); r.lay = lay; r.I.hooks.pop(None, None)
    g = m.fn('lgar_calc_mass_bal', False); r.n = len(lay)
    return r
def go(r, name, args):
    f = r.f = r.m.fn(name)
    if len(args) != len(f.params): raise AnalysisError('signature of ' + name)
    for a, p in zip(args, f.params):
        want = 'ptr' if a.var is None and isinstance(a.leaf, Ptr) else None
        if (want == 'ptr') != (p.ty.k == 'ptr'): raise AnalysisError('signature of ' + name)
    r.ret, r.s = r.I.call_function(f, args, r.st); r.m.use(r.I)
    return r
def dzdt(m, lay, seen=None, geff=None):
    r = base(m, lay, seen)
    return go(r, 'lgar_dzdt_calc', [bvar(CLOSED), leaf(sym('nint')), leaf(sym('hp')), leaf(r.types), leaf(r.cum), leaf(r.ff), leaf(r.nodes[0]), leaf(r.soils)])
def drydepth(m, lay, seen=None):
    r = base(m, lay, seen); r.delta = P('delta')
    return go(r, 'lgar_calc_dry_depth', [bvar(CLOSED), leaf(sym('nint')), leaf(sym('dt')), leaf(r.delta), leaf(r.types), leaf(r.cum), leaf(r.ff), leaf(r.nodes[0]), leaf(r.soils)])
def mass(r):
    f = r.m.fn('lgar_calc_mass_bal', False)
    if f is not None: r.I.hooks[f.name] = lambda I, inst, args, st, env: leaf(sym('mass'))
def insert(m, lay, wfd, seen=None):
    r = base(m, lay, seen); mass(r); r.pond, r.vin = P('pond'), P('vin'); r.I.store(r.st, leaf(r.pond), leaf(sym('pond'))); r.I.store(r.st, leaf(r.vin), leaf(sym('vin')))
    return go(r, 'lgar_insert_water', [bvar(CLOSED), leaf(sym('nint')), leaf(sym('dt')), leaf(sym('aet')), leaf(r.pond), leaf(r.vin), leaf(sym('rain')), leaf(num(wfd)), leaf(num(r.L)), leaf(sym('pondmax')),
              leaf(r.types), leaf(r.cum), leaf(r.ff), leaf(r.nodes[0]), leaf(r.soils)])
def quiet(r, names):
    for nm in names:
        g = r.m.fn(nm, False)
        if g is not None: r.I.hooks[g.name] = lambda I, inst, args, st, env: leaf(sym('flux')) if inst.ty.k != 'void' else None
PHYS = ('lgar_merge_wetting_fronts', 'lgar_wetting_fronts_cross_layer_boundary', 'lgar_wetting_front_cross_domain_boundary', 'lgar_fix_dry_over_wet_wetting_fronts')
def surficial(m, lay, seen=None):
    r = base(m, lay, seen); quiet(r, PHYS); r.pond, r.vin = P('pond'), P('vin'); r.I.store(r.st, leaf(r.pond), leaf(sym('pond'))); r.I.store(r.st, leaf(r.vin), leaf(sym('vin')))
    return go(r, 'lgar_create_surficial_front', [leaf(num(r.L)), leaf(r.pond), leaf(r.vin), leaf(sym('dry')), leaf(sym('theta1')), leaf(r.types), leaf(r.cum), leaf(r.ff), leaf(r.head), leaf(r.soils)])
def initial(m, L, seen=None):
    r = base(m, list(range(1, L + 1)), seen); r.I.store(r.st, leaf(r.head), leaf(NULL))
    return go(r, 'InitializeWettingFronts', [leaf(num(L)), leaf(sym('psi0')), leaf(r.types), leaf(r.cum), leaf(r.ff), leaf(r.head), leaf(r.soils)])
def aet(m, lay, seen=None):
    r = base(m, lay, seen)
    return go(r, 'calc_aet', [leaf(sym('pet')), leaf(sym('dt')), leaf(sym('wp')), leaf(sym('fc')), leaf(r.types), leaf(sym('x')), leaf(sym('y')), leaf(r.nodes[0]), leaf(r.soils)])
def solve(m, lay, k, seen=None, pre=None):
    """the moisture search for a front in layer k"""
    r = base(m, lay, seen); r.dth, r.dz, r.aet = P('dth'), P('dz'), P('aet'); r.I.store(r.st, leaf(r.aet), leaf(sym('aet')))
    for j in range(k + 1):
        r.I.store(r.st, leaf(Ptr(r.dth.root, num(8 * j))), leaf(sym('dth%d' % j))); r.I.store(r.st, leaf(Ptr(r.dz.root, num(8 * j))), leaf(sym('dz%d' % j)))
    r.I.onehead = True
    if pre: pre(r)
    return go(r, 'lgar_theta_mass_balance', [leaf(num(k)), leaf(num(soilof(r.L, k))), leaf(sym('psi')), leaf(sym('newmass')), leaf(sym('prior')), leaf(r.aet), leaf(r.dth), leaf(r.dz), leaf(r.types), leaf(r.soils)])
def move(m, lay, wfd, seen=None, on=None, drop=0, pre=None):
    """movement with the reorganisation of the list opaque; only front `drop` may be deleted on the way (drop=0: none, None: any); r.calls lists (name, inst, args, state) of the calls made"""
    r = base(m, lay, seen); I = r.I; n = len(lay); r.calls = []; r.wfd = wfd; ids = {}; r.cut = False
    S2 = P('state2'); r.old = fronts(m, n, 'old'); install(m, I, r.st, S2, r.old, layers=lay)
    for k, p in enumerate(r.old):
        for fld in ('depth_cm', 'theta', 'psi_cm', 'K_cm_per_h', 'dzdt_cm_per_h'):
            I.store(r.st, leaf(m.lv(p, WF, fld)), leaf(sym('old%s%d' % (fld.split('_')[0], k + 1))))
        if bottom(lay, k): I.store(r.st, leaf(m.lv(p, WF, 'depth_cm')), r.depth[lay[k]])
    dl = m.fn('listDeleteFront')
    if drop is not None: I.hooks[dl.name] = lambda I, inst, args, st, env: NotImplemented if args[0] is leaf(num(drop)) else False
    r.vol, r.aet = P('vol'), P('aet'); I.store(r.st, leaf(r.vol), leaf(sym('precip'))); I.store(r.st, leaf(r.aet), leaf(sym('aet')))
    for nm in PHYS + ('lgar_check_dry_over_wet_wetting_fronts', 'lgar_calc_mass_bal', 'lgar_theta_mass_balance', 'wetting_front_free_drainage'):
        g = m.fn(nm, False)
        if g is None: continue
        def h(I, inst, args, st, env, nm=nm):
            c = len(r.calls); r.calls.append((nm, inst, args, st.copy(), I.fullpc(st.pc, I.callstack)))
            if drop and nm == PHYS[1] and not r.cut:
                # the arrangement without the deleted front, whatever happened to its values
                r.cut = True; ns = [p for k, p in enumerate(r.nodes) if k + 1 != drop]
                for k, p in enumerate(ns):
                    I.store(st, leaf(m.lv(p, WF, 'front_num')), leaf(num(k + 1))); I.store(st, leaf(m.lv(p, WF, 'next')), leaf(ns[k + 1] if k + 1 < len(ns) else NULL))
                I.store(st, leaf(r.head), leaf(ns[0]))
            if on:
                v = on(r, nm, inst, args, st, c)
                if v is not None: return v
            if nm == 'lgar_check_dry_over_wet_wetting_fronts': return bvar(atom('sym', 'dry%d' % inst.idx))
            if nm == 'wetting_front_free_drainage': return leaf(num(wfd))
            return leaf(sym('%s#%d' % (nm, ids.setdefault((nm, inst.idx, I.callstack), len(ids))))) if inst.ty.k != 'void' else None
        I.hooks[g.name] = h
    if pre: pre(r)
    return go(r, 'lgar_move_wetting_fronts', [leaf(sym('dt')), leaf(r.vol), leaf(num(wfd)), leaf(sym('oldmass')), leaf(num(r.L)), leaf(r.aet), leaf(r.cum), leaf(r.types), leaf(r.ff), leaf(r.head), leaf(r.old[0]), leaf(r.soils)])
