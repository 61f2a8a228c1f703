"""Evaluating BMI entry points on the value graph, for a given variable name."""
import re
from val import *
from interp import State, Mem
import libmodel
from irload import AnalysisError

THIS = Ptr(atom('param', 'this'))
INPUTS = ['precipitation_rate', 'potential_evapotranspiration_rate', 'soil_temperature_profile']
OUTPUTS = ['soil_moisture_wetting_fronts', 'soil_depth_layers', 'soil_depth_wetting_fronts', 'soil_num_wetting_fronts', 'precipitation',
           'potential_evapotranspiration', 'actual_evapotranspiration', 'surface_runoff', 'giuh_runoff', 'soil_storage', 'total_discharge',
           'infiltration', 'percolation', 'groundwater_to_stream_recharge', 'mass_balance']
CALIB = ['smcmax', 'smcmin', 'van_genuchten_n', 'van_genuchten_alpha', 'hydraulic_conductivity', 'field_capacity', 'ponded_depth_max']

class Res: pass

def ctor_state(m):
    """abstract state after the constructor"""
    I = m.interp(log=())
    f = m.fn('BmiLGAR::BmiLGAR')
    v, st = I.call_function(f, [leaf(THIS)], State({}, T))
    if st is None: raise AnalysisError('constructor does not return')
    return I, st

def call(m, method, args, st=None, strs=(), log=('throw', 'abort', 'exit', 'assert', 'memcpy', 'memset'), track=False, I=None):
    """args: list of DD / ('str', value DD) ; returns Res(ret, st, I, events); ret is the string value for string-returning methods"""
    I = I or m.interp(log=log)
    I.track_stores = track
    f = m.fn('BmiLGAR::' + method)
    st = st.copy() if st is not None else State({}, T)
    av = [leaf(THIS)]; sret = None
    for k, a in enumerate(args):
        if isinstance(a, tuple) and a[0] == 'str':
            p = Ptr(atom('param', 'str%d' % k)); libmodel.sstore(I, st, leaf(p), a[1]); av.append(leaf(p))
        else: av.append(a)
    if len(f.params) == len(av) + 1:
        sret = Ptr(atom('param', 'sret')); av.insert(0, leaf(sret))
    if len(f.params) != len(av): raise AnalysisError('unexpected signature of ' + f.dem)
    mark = len(I.stores)
    v, s = I.call_function(f, av, st)
    r = Res(); r.I = I; r.st = s; r.ret = v; r.events = I.events; r.f = f; r.stores = I.stores[mark:]; r.pre = st
    m.use(I)
    if sret is not None and s is not None: r.sret = sret; r.ret = libmodel.sload(I, s, leaf(sret))
    return r

def vec_result(r):
    v = libmodel.vload(r.I, r.st, leaf(r.sret))
    if v.var is not None or v.leaf.kind != 'vec': raise AnalysisError('name list is not a constant table: %r' % v)
    out = []
    for a in v.leaf.args:
        if isinstance(a, DD):
            if a.var is not None: raise AnalysisError('gated name')
            a = a.leaf
        if not isinstance(a, Str): raise AnalysisError('name is not constant: %r' % (a,))
        out.append(a.s)
    return out

def string_array(m, I, st, field):
    """contents of a std::string member array after the constructor"""
    o = m.off('BmiLGAR', field, must=False)
    if o is None: return None
    t = m.m.struct('BmiLGAR'); ft = None
    for f, oo in zip(t.fields, t.offs):
        if oo == o: ft = f
    if ft is None or ft.k != 'array': return None
    out = []
    for k in range(ft.n):
        found = None
        for tag in (None, ('BmiLGAR', o)):
            d = libmodel.sload(I, st, leaf(Ptr(THIS.root, num(o + k * ft.elem.size), None)))
            if d.var is None and isinstance(d.leaf, Str): found = d.leaf.s
        out.append(found)
    return out
