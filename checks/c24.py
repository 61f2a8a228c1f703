from harness import *
import bmi, util, libmodel
from c23 import fronts, install
from irload import FRef

EXPLAIN = ('The driver (main and the functions it calls, up to the BMI methods) is analysed on the value graph over a set of configuration/forcing shapes: the configuration is a list of lines with the forcing entry at different places, the forcing file has a fixed number of records '
           'whose cells are unknown strings. The sequence of BMI calls with the values passed, and the texts written to the output files with the values printed, are compared with the prescribed ones as expressions over the unknown cells and BMI outputs.')
ASSUME = ['file streams, getline, stod, fprintf and std::vector behave as specified by their standards', 'the forcing reader is analysed for files of up to 300 records (thorough: 2000), the time loop for any number of steps']
FORC = 'forcing_data.csv'

def check(ctx):
    ctx.rule('k-th update: precipitation_rate and potential_evapotranspiration_rate are set to the 2nd and 3rd cell of the k-th record after the header, then exactly one update')
    ctx.rule('number of updates = whole number of forcing intervals in the end time; fewer forcing records than that do not run normally; the model is initialised once before and finalised once after')
    ctx.rule('data_variables.csv: header, then one row per update: record time, then the BMI value of each name of the header after that update')
    ctx.rule('data_layers.csv: per update the fronts from the surface down')
    m = ctx.mod('STANDALONE')
    confs = [['verbosity=none', 'forcing_file=' + FORC, 'timestep=300[s]', 'forcing_resolution=3600[s]'],
             ['forcing_file=' + FORC, 'soil_params_file=a=b.txt'],
             ['forcing_resolution=3600[s]', 'timestep=300[s]', 'use_forcing_file=no', 'soil_params_file=x.dat', 'forcing_file=' + FORC]]
    n = 0
    for cl in confs:
        for rec, end, eol in ((3, Fraction(3), 1), (4, Fraction(5, 2), 1), (3, Fraction(3), 0), (1, Fraction(1), 1)):
            if n and ctx.tier != 'thorough' and cl is not confs[0] and rec != 4: continue
            n += 1
            ctx.guard('driver', one, ctx, m, cl, rec, end, eol)
    ctx.guard('driver', one, ctx, m, confs[0], 300 if ctx.tier != 'thorough' else 2000, Fraction(299 if ctx.tier != 'thorough' else 1999), 1)
    ctx.guard('driver', one, ctx, m, confs[0], 3, Fraction(3), 1, 5)
    ctx.guard('any number of steps', generic, ctx, m)
    ctx.guard('short forcing', short, ctx, m, confs[0])
    ctx.guard('no forcing entry', noentry, ctx, m)

from fractions import Fraction
class D: pass
def drive(ctx, m, lines, rec, end, eol, track=False, cells=3):
    d = D(); d.trace = []; d.files = {}; d.updates = 0
    I = m.interp(log=()); d.I = I; I.unroll = rec + 24; I.skippable = lambda f: False
    if track: I.log = ('alloc', 'free'); I.track_free()
    st = State({}, T)
    S = Ptr(Obj('heap', 'state', None, None, None)); nodes = fronts(m, 2); install(m, I, st, S, nodes, (1, 1))
    d.nodes = nodes; d.S = S
    I.store(st, leaf(m.lv(S, 'model_state', 'lgar_bmi_params.num_wetting_fronts')), leaf(num(2)))
    streams = {}
    def root(a):
        p = a.leaf if a.var is None else None
        if not isinstance(p, Ptr): raise AnalysisError('stream')
        return p.root
    def sure(I, st):
        if I.fullpc(st.pc, I.callstack) is not T: raise AnalysisError('an interface call depends on a condition the analysis cannot decide')
    def content(I, name):
        if isinstance(name, Str): return FORC if name.s == FORC else None
        return 'config' if isinstance(name, Sx) and name.kind == 'sptr' else None
    def opn(I, i, a, st, env):
        nm = libmodel.sload(I, st, a[1]) if 'basic_string' in i.callee_dem else I.ap1(lambda p: leaf(libmodel.cstr(I, p)), a[1])
        if nm.var is not None: raise AnalysisError('file name')
        c = content(I, nm.leaf)
        d.trace.append(('open', nm.leaf, c))
        if c == 'config': L = [leaf(Str(x)) for x in lines]; e = 1
        elif c == FORC: L = [leaf(Str('Time,P(mm/h),PET(mm/h)' + ',more' * (cells - 3)))] + [leaf(Sx('row', num(k))) for k in range(rec)]; e = eol
        else: L = None; e = 0
        streams[root(a[0])] = [L, 0, e, L is None, False]
        return None
    def nop(I, i, a, st, env): return None
    def newf(I, i, a, st, env):
        streams[root(a[0])] = [[], 0, 0, False, False]; return None
    def good(I, i, a, st, env):
        s = streams.get(root(a[0]))
        if s is None: return NotImplemented
        return F if s[3] else T
    def bad(I, i, a, st, env):
        s = streams.get(root(a[0]))
        if s is None: return NotImplemented
        return T if s[3] else F
    def eof(I, i, a, st, env):
        s = streams.get(root(a[0]))
        if s is None: return NotImplemented
        return T if s[4] else F
    def peek(I, i, a, st, env):
        s = streams.get(root(a[0]))
        if s is None: return NotImplemented
        if s[1] >= len(s[0]): s[4] = True; return leaf(num(-1))
        return NotImplemented
    def getl(I, i, a, st, env):
        s = streams.get(root(a[0]))
        if s is None: return NotImplemented
        sure(I, st)
        if s[1] >= len(s[0]) or s[3]:
            s[3] = True; s[4] = True; libmodel.sstore(I, st, a[1], leaf(Str(''))); return a[0]
        libmodel.sstore(I, st, a[1], s[0][s[1]]); s[1] += 1
        if s[1] == len(s[0]) and not s[2]: s[4] = True
        return a[0]
    def ssnew(I, i, a, st, env):
        v = libmodel.sload(I, st, a[1])
        v = v.leaf if v.var is None else None
        if isinstance(v, Sx) and v.kind == 'row': streams[root(a[0])] = [[leaf(Sx('cell', v.args[0], num(c))) for c in range(cells)], 0, 0, False, False]
        elif isinstance(v, Str): streams[root(a[0])] = [[leaf(Str(x)) for x in v.s.split(',')] if v.s else [], 0, 0, False, False]
        else: return NotImplemented
        return None
    def ssstr(I, i, a, st, env): return ssnew(I, i, a, st, env)
    H = I.hooks
    for n, g in m.m.funcs.items():
        x = g.dem
        if re.search(r'^std::basic_ifstream<[^()]*>::basic_ifstream\(\)$', x): H[n] = newf
        elif re.search(r'^std::basic_ifstream<[^()]*>::(basic_ifstream|open)\((std::|char)', x): H[n] = wrap(opn, x)
        elif re.search(r'^std::basic_ifstream<[^()]*>::(close|~basic_ifstream)\(', x): H[n] = nop
        elif re.search(r'^std::basic_ios<[^()]*>::(operator bool|good)\(|^std::basic_ifstream<.*>::is_open\(', x): H[n] = good
        elif re.search(r'^std::basic_ios<[^()]*>::(operator!|fail)\(', x): H[n] = bad
        elif re.search(r'^std::basic_ios<[^()]*>::eof\(', x): H[n] = eof
        elif 'std::getline<' in x: H[n] = getl
        elif re.search(r'^std::__cxx11::basic_i?stringstream<[^()]*>::basic_i?stringstream\(std::__cxx11', x): H[n] = ssnew
        elif re.search(r'^std::basic_istream<.*>::peek\(', x): H[n] = peek
        elif re.search(r'^std::__cxx11::basic_i?stringstream<[^()]*>::~', x): H[n] = nop
    # ---- BMI methods
    def name_of(I, st, a):
        v = libmodel.sload(I, st, a)
        if v.var is not None or not isinstance(v.leaf, Str): raise AnalysisError('variable name')
        return v.leaf.s
    def meth(k):
        def g(I, i, a, st, env):
            if k == 'ctor' or k == 'dtor': return None
            if k == 'get_model': return leaf(S)
            if k in ('GetEndTime',): return leaf(num(end * 3600))
            if k in ('GetTimeStep',): return leaf(num(3600))
            if k in ('GetStartTime',): return leaf(ZERO)
            sure(I, st)
            if k == 'Initialize':
                v = libmodel.sload(I, st, a[1]); d.trace.append((k, v.leaf if v.var is None else None))
            elif k == 'SetValue':
                nm = name_of(I, st, a[1]); d.trace.append((k, nm, I.load(st, a[2], 'double')))
            elif k == 'Update': d.trace.append((k,)); d.updates += 1
            elif k == 'Finalize': d.trace.append((k,))
            elif k == 'GetValue':
                nm = name_of(I, st, a[1]); I.store(st, a[2], leaf(out(nm, d.updates)), i); d.trace.append((k, nm))
            return None
        return g
    for k, nm in [('ctor', 'BmiLGAR::BmiLGAR'), ('dtor', 'BmiLGAR::~BmiLGAR')] + [(x, 'BmiLGAR::' + x) for x in ('get_model', 'GetEndTime', 'GetTimeStep', 'GetStartTime', 'Initialize', 'SetValue', 'Update', 'Finalize', 'GetValue')]:
        for n, g in m.m.funcs.items():
            if base(g.dem) == nm: H[n] = meth(k)
    # ---- output files
    def fop(I, i, a, st, env):
        nm = [libmodel.cstr(I, x.leaf) if x.var is None else None for x in a[:2]]
        if not all(isinstance(x, Str) for x in nm): raise AnalysisError('output file name')
        sure(I, st)
        o = Obj('heap', 'file:' + nm[0].s, None, None, None); d.files.setdefault(nm[0].s, [o, nm[1].s, [], 0, False]); d.files[nm[0].s][3] += 1; d.files[nm[0].s][0] = o
        return leaf(Ptr(o))
    def fil(a):
        p = a.leaf if a.var is None else None
        for n, x in d.files.items():
            if isinstance(p, Ptr) and p.root is x[0]: return n, x
        return None, None
    def put(I, st, f, toks):
        sure(I, st); f[2].extend(toks)
    def fpr(I, i, a, st, env):
        n, f = fil(a[0])
        if f is None: return leaf(ZERO)
        fm = libmodel.cstr(I, a[1].leaf) if a[1].var is None else None
        if not isinstance(fm, Str): raise AnalysisError('format')
        toks = []; k = 2
        for t in re.split(r'(%[-+ #0-9.]*(?:hh|h|ll|l|L|z)?[a-zA-Z%])', fm.s):
            if not t.startswith('%'): toks.append(t); continue
            if t == '%%': toks.append('%'); continue
            if k >= len(a): raise AnalysisError('format with missing arguments')
            v = a[k]; k += 1
            if t[-1] == 's': 
                q = I.ap1(lambda p: leaf(libmodel.cstr(I, p)), v)
                toks.append(q.leaf.s if q.var is None and isinstance(q.leaf, Str) else ('s', q))
            else: toks.append((t, v))
        put(I, st, f, toks); return leaf(ZERO)
    def fps(I, i, a, st, env):
        n, f = fil(a[1])
        if f is None: return leaf(ZERO)
        q = I.ap1(lambda p: leaf(libmodel.cstr(I, p)), a[0])
        put(I, st, f, [q.leaf.s if q.var is None and isinstance(q.leaf, Str) else ('s', q)]); return leaf(ZERO)
    def fpc(I, i, a, st, env):
        n, f = fil(a[1])
        if f is None: return leaf(ZERO)
        c = a[0].leaf.const() if a[0].var is None and isinstance(a[0].leaf, Poly) else None
        if c is None: raise AnalysisError('character')
        put(I, st, f, [chr(int(c))]); return leaf(ZERO)
    def fwr(I, i, a, st, env):
        n, f = fil(a[3])
        if f is None: return leaf(ZERO)
        q = libmodel.cstr(I, a[0].leaf) if a[0].var is None else None
        w = [x.leaf.const() if x.var is None and isinstance(x.leaf, Poly) else None for x in a[1:3]]
        if not isinstance(q, Str) or None in w: raise AnalysisError('fwrite')
        put(I, st, f, [q.s[:int(w[0] * w[1])]]); return a[2]
    def fcl(I, i, a, st, env):
        n, f = fil(a[0])
        if f is not None: f[4] = True
        return leaf(ZERO)
    H.update({'fopen': fop, 'fopen64': fop, 'fprintf': fpr, 'fputs': fps, 'fputc': fpc, 'putc': fpc, 'fwrite': fwr, 'fclose': fcl, 'clock': lambda I, i, a, st, env: leaf(sym('clock'))})
    f = m.fn('main'); ctx.need(len(f.params) == 2, 'signature of main')
    argv = Ptr(Obj('heap', 'argv', None, None, None)); cfgp = Ptr(Obj('heap', 'argv1', None, None, None))
    I.store(st, leaf(argv), leaf(Ptr(Obj('heap', 'argv0', None, None, None)))); I.store(st, leaf(Ptr(argv.root, num(8))), leaf(cfgp))
    d.cfg = Sx('sptr', cfgp)
    v, s = I.call_function(f, [leaf(num(2)), leaf(argv)], st); m.use(I)
    d.st = s; d.ret = v; d.f = f
    return d
def wrap(h, x):
    def g(I, i, a, st, env):
        i.callee_dem = x if '(std::__cxx11' in x else x.replace('basic_string', '')
        return h(I, i, a, st, env)
    return g
def out(nm, k): return sym('out[%s]@%d' % (nm, k))
def cell(k, c): return Sx('cell', num(k), num(c))
def is_cell(v, k, c):
    return v.var is None and v.leaf is fn('stod', cell(k, c))

def one(ctx, m, lines, rec, end, eol, cells=3):
    d = drive(ctx, m, lines, rec, end, eol, cells=cells); W = m.where(d.f); n = int(end)
    ctx.count('shapes')
    if d.st is None: ctx.judge(False, 'run', W, 'the driver never returns normally with %d records and an end time of %s forcing intervals (configuration %s)' % (rec, end, lines)); return
    for nm, f in d.files.items():
        pass
    tr = d.trace
    opens = [t for t in tr if t[0] == 'open']
    ctx.judge(any(t[2] == FORC for t in opens) and all(t[2] for t in opens), 'forcing file', W, 'the file opened for the forcing is %s, not the one named in the configuration (%s)' % ([util.short(t[1]) for t in opens], lines), (), 'forcing file')
    tr = [t for t in tr if t[0] != 'open']
    calls = [t for t in tr if t[0] != 'GetValue']
    ok = bool(calls) and calls[0][0] == 'Initialize' and calls[0][1] is d.cfg and sum(t[0] == 'Initialize' for t in calls) == 1
    ctx.judge(ok, 'initialise', W, 'the model is not initialised exactly once, first, with the configuration file', (), 'initialise')
    ctx.judge(calls and calls[-1][0] == 'Finalize' and sum(t[0] == 'Finalize' for t in calls) == 1, 'finalise', W, 'the model is not finalised exactly once, last', (), 'finalise')
    nu = sum(t[0] == 'Update' for t in calls)
    if not ctx.judge(nu == n, 'number of updates', W, '%d updates for an end time of %s forcing intervals and %d records' % (nu, end, rec), (), 'number of updates', '%s intervals -> %d updates' % (end, nu)): return
    cur = {}; k = 0
    for t in calls:
        if t[0] == 'SetValue': cur[t[1]] = t[2]; ctx.judge(t[1] in ('precipitation_rate', 'potential_evapotranspiration_rate'), 'forcing', W, 'the driver sets %s' % t[1], (), 'forcing')
        elif t[0] == 'Update':
            for nm, c in (('precipitation_rate', 1), ('potential_evapotranspiration_rate', 2)):
                v = cur.get(nm)
                ctx.judge(v is not None and is_cell(v, k, c), 'forcing', W, 'update %d runs with %s = %s instead of column %d of record %d' % (k + 1, nm, util.short(v) if v is not None else 'unset', c + 1, k + 1), (v,) if v is not None else (), 'forcing', 'update %d: %s is column %d of record %d' % (k + 1, nm, c + 1, k + 1))
            k += 1
    variables(ctx, m, d, n, W); layers(ctx, m, d, n, W)

def foreign(m):
    return any(i.op in ('call', 'invoke') and isinstance(i.callee, FRef) and (lambda g: g is not None and 'basic_ofstream' in g.dem)(m.m.funcs.get(i.callee.name)) for g in m.own() for b in g.blocks for i in b.insts)
def rows(ctx, f):
    """text as rows of cells; a cell is a str or one token"""
    rs = [[['']]]; 
    for t in f[2]:
        if isinstance(t, str):
            for ch in t:
                if ch == '\n': rs.append([['']])
                elif ch == ',': rs[-1].append([''])
                elif isinstance(rs[-1][-1][-1], str): rs[-1][-1][-1] += ch
                else: rs[-1][-1].append(ch)
        else: rs[-1][-1].append(t)
    if rs and rs[-1] == [['']]: rs.pop()
    return [[[x for x in c if x != ''] for c in r] for r in rs]
def variables(ctx, m, d, n, W):
    f = d.files.get('data_variables.csv')
    ctx.need(f is not None or not foreign(m), 'output files written by other means')
    if not ctx.judge(f is not None and f[3] == 1 and f[1].startswith('w'), 'variables file', W, 'data_variables.csv is not opened once for writing', (), 'variables file'): return
    R = rows(ctx, f)
    if not ctx.judge(len(R) == n + 1, 'rows', W, 'data_variables.csv has %d lines for %d updates' % (len(R), n), (), 'rows'): return
    names = []
    for c in R[0]:
        ctx.need(all(isinstance(x, str) for x in c), 'header text'); names.append(''.join(c).strip())
    ctx.judge(names and all(x in bmi.OUTPUTS for x in names[1:]) and len(set(names)) == len(names) and len(names) > 1, 'header', W, 'the header names %s' % names, (), 'header', ','.join(names))
    for k in range(n):
        r = R[k + 1]
        if not ctx.judge(len(r) == len(names), 'columns', W, 'row %d has %d columns, the header %d' % (k + 1, len(r), len(names)), (), 'columns'): continue
        t = r[0]
        ok = len(t) == 1 and isinstance(t[0], tuple) and t[0][0] == 's' and t[0][1].var is None and t[0][1].leaf is cell(k, 0)
        ctx.judge(ok, 'columns', W, 'row %d does not start with the time of record %d' % (k + 1, k + 1), (), 'columns')
        for j in range(1, len(names)):
            c = r[j]
            ok = len(c) == 1 and isinstance(c[0], tuple) and c[0][0][-1] in 'fFeEgGaA' and c[0][1] is leaf(out(names[j], k + 1))
            ctx.judge(ok, 'columns', W, 'row %d, column %s holds %s' % (k + 1, names[j], ' '.join(x if isinstance(x, str) else '%s:%s' % (x[0], util.short(x[1])) for x in c)), tuple(x[1] for x in c if not isinstance(x, str)), 'columns', '%s = BMI value after update %d' % (names[j], k + 1))
def layers(ctx, m, d, n, W):
    f = d.files.get('data_layers.csv')
    ctx.need(f is not None or not foreign(m), 'output files written by other means')
    if not ctx.judge(f is not None and f[3] == 1 and f[1].startswith('w'), 'layers file', W, 'data_layers.csv is not opened once for writing', (), 'layers file'): return
    vals = [x for x in f[2] if not isinstance(x, str)]
    want = []
    I = d.I
    for k in range(n):
        for p in d.nodes:
            for fld, ty, sc in (('depth_cm', 'double', 10), ('theta', 'double', 1), ('layer_num', 'int', 1), ('front_num', 'int', 1), ('psi_cm', 'double', 10)):
                v = I.load(d.st, leaf(m.lv(p, 'wetting_front', fld)), ty)
                want.append((fld, k, apply1(lambda x: pscale(x, Fraction(sc)), v)))
    # drop per-row heading values (step number, time): integers constant or cells
    txt = ''.join(x if isinstance(x, str) else '\x00' for x in f[2])
    lines = txt.split('\n'); it = iter(vals); got = []
    for ln in lines:
        c = ln.count('\x00'); vs = [next(it) for _ in range(c)]
        if '[' in ln and '(' in ln: got.append([v for v in vs])
    if not ctx.judge(len(got) == n, 'layers rows', W, 'data_layers.csv has %d front lines for %d updates' % (len(got), n), (), 'layers rows'): return
    for k in range(n):
        w = [x for x in want if x[1] == k]
        if not ctx.judge(len(got[k]) == len(w), 'layers rows', W, 'front line %d has %d values for %d fronts' % (k + 1, len(got[k]), len(d.nodes)), (), 'layers rows'): continue
        for (fld, _, v), g in zip(w, got[k]):
            ctx.judge(g[1] is v and (g[0][-1] in 'di') == (fld in ('layer_num', 'front_num')), 'layers values', W, 'front line %d: %s printed as %s with %s' % (k + 1, fld, util.short(g[1]), g[0]), (g[1],), 'layers values')

def short(ctx, m, lines):
    d = drive(ctx, m, lines, 2, Fraction(3), 1)
    ctx.judge(d.st is None, 'short forcing', m.where(d.f), 'with 2 forcing records and an end time of 3 forcing intervals the driver ends normally', (), 'short forcing')
def noentry(ctx, m):
    d = drive(ctx, m, ['timestep=300[s]', 'forcing_resolution=3600[s]'], 2, Fraction(2), 1)
    ctx.judge(d.st is None, 'no forcing entry', m.where(d.f), 'without a forcing_file entry the driver ends normally', (), 'no forcing entry')

def generic(ctx, m):
    """the time loop with an unknown end time, step and forcing"""
    rd = m.fn('ReadForcingData'); ctx.need(len(rd.params) == 4, 'forcing reader')
    I = m.interp(log=()); st = State({}, T); calls = []; S = Ptr(Obj('heap', 'state', None, None, None)); H = I.hooks
    vecs = [Sx('fvec', x) for x in ('time', 'rain', 'pet')]
    def read(I, i, a, st, env):
        for p, v in zip(a[1:], vecs): libmodel.vstore(I, st, p, leaf(v))
        return None
    H[rd.name] = read
    def meth(k):
        def g(I, i, a, st, env):
            if k == 'get_model': return leaf(S)
            if k == 'GetEndTime': return leaf(sym('end'))
            if k == 'GetTimeStep': return leaf(sym('step'))
            if k in ('SetValue', 'GetValue'):
                nm = libmodel.sload(I, st, a[1])
                calls.append((k, nm.leaf.s if nm.var is None and isinstance(nm.leaf, Str) else None, I.load(st, a[2], 'double') if k == 'SetValue' else None, I.loopstack, I.fullpc(st.pc, I.callstack)))
            elif k in ('Update', 'Finalize', 'Initialize'): calls.append((k, None, None, I.loopstack, I.fullpc(st.pc, I.callstack)))
            return None
        return g
    for k, nm in [('ctor', 'BmiLGAR::BmiLGAR'), ('dtor', 'BmiLGAR::~BmiLGAR')] + [(x, 'BmiLGAR::' + x) for x in ('get_model', 'GetEndTime', 'GetTimeStep', 'Initialize', 'SetValue', 'Update', 'Finalize', 'GetValue')]:
        for n, g in m.m.funcs.items():
            if base(g.dem) == nm: H[n] = meth(k)
    H['fopen'] = lambda I, i, a, st, env: leaf(Ptr(Obj('heap', 'file', None, None, None)))
    f = m.fn('main')
    v, s = I.call_function(f, [leaf(num(2)), leaf(Ptr(atom('param', 'argv')))], st); m.use(I)
    W = m.where(f); ctx.need(s is not None, 'main returns')
    ups = [c for c in calls if c[0] == 'Update']
    ctx.need(ups and len({c[3] for c in ups}) == 1 and len(ups[-1][3]) == 1, 'one time loop')
    ls, pc = ups[-1][3:]; key = ls[0]
    r = [x for x in I.loops if x.key == key and not x.unrolled]; ctx.need(len(r) >= 1, 'loop record'); r = r[-1]
    for nm, vc in (('precipitation_rate', vecs[1]), ('potential_evapotranspiration_rate', vecs[2])):
        cs = [c for c in calls if c[0] == 'SetValue' and c[1] == nm and c[3] == ls]
        ctx.need(cs, 'value of %s in the loop' % nm)
        c = cs[-1]
        want = leaf(fn('elem', vc, patom(util.itatom(key))))
        ctx.judge(c[2] is want and c[4] is pc, 'forcing at any step', W, 'the %s fed at an arbitrary step is %s' % (nm, util.short(c[2], 120)), (c[2],), 'forcing at any step', '%s = element k of the column in update k' % nm)
    N = pdiv(sym('end'), sym('step'))
    t = util.trip(r, pc if pc is not T else None)
    ctx.need(t is not None, 'trip count')
    ctx.judge(t in (fn('int', N), fn('floor', N), fn('int', fn('floor', N))), 'number of steps', W, 'the time loop makes %s steps' % util.short(t), (leaf(t),), 'number of steps', 'int(end time / forcing interval) steps')
