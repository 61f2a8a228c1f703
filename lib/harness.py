"""Check driver: context passed to every check, verdict, evidence and replay files."""
import os, sys, time, json, re, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import irload
from irload import AnalysisError
from val import *
import val, cfg
from interp import Interp, State, Mem
from effects import Effects

TITLE = {}
class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.viol = []; self.counts = {}; self.samples = []; self.known = []; self.assume = []; self.rules = []; self._mods = {}; self.analysed = set(); self.undec = []
        self.findings = load_findings(pid); self.t0 = time.time()
    def mod(self, config='STANDALONE'):
        m = self._mods.get(config)
        if m is None: m = self._mods[config] = Model(self, irload.load(config))
        return m
    def configs(self): return ('STANDALONE', 'NGEN')
    def rule(self, text): 
        if text not in self.rules: self.rules.append(text)
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def sample(self, s):
        if len(self.samples) < 60: self.samples.append(str(s)[:300])
    def ok(self, what, s=None):
        """one discharged obligation"""
        self.count('obligations'); self.count(what)
        if s is not None: self.sample('%s: %s' % (what, s))
    def violation(self, rule, where, msg):
        self.count('obligations')
        key = (rule, str(where), msg)
        for f in self.findings:
            if f.get('rule') == rule and f.get('where') == strip_line(where) and (not f.get('match') or f['match'] in msg):
                if f not in self.known: self.known.append(f)
                return
        if key not in self.viol: self.viol.append(key)
    def judge(self, ok, rule, where, msg, vals=(), what=None, sample=None):
        """obligation `ok`; when it fails on values the analysis could not interpret it is undecided, not violated"""
        if ok: self.ok(what or rule, sample); return True
        import util
        a = util.murky(*vals)
        if a is not None: self.undecided(rule, '%s: %s involves an uninterpreted construct %s' % (where, msg[:160], util.short(a, 100)))
        else: self.violation(rule, where, msg)
        return False
    def undecided(self, rule, msg):
        if (rule, str(msg)) not in self.undec: self.undec.append((rule, str(msg)))
    def guard(self, rule, f, *a):
        """run one rule; a construct the analysis does not understand leaves that rule (only) undecided, and is reported as such"""
        val.BUDGET['deadline'] = min(time.time() + (120 if self.tier != 'thorough' else 600), self.t0 + (600 if self.tier != 'thorough' else 3000))
        try: return f(*a)
        except MemoryError: self.undecided(rule, 'value graph too large')
        except AnalysisError as e: self.undecided(rule, e)
        except val.TooBig: self.undecided(rule, 'value graph too large')
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, RecursionError) as e:
            self.undecided(rule, 'unsupported construct: %s: %s' % (type(e).__name__, e))
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
    def need(self, cond, msg):
        if not cond: raise AnalysisError(msg)

def strip_line(w): return re.sub(r':\d+(?=\b)', '', str(w))

def load_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p)).get('findings', []) if f['property'] == pid]

class Model:
    """a loaded configuration with lookups by source-level names"""
    def __init__(self, ctx, m):
        self.ctx = ctx; self.m = m; self.eff = Effects(m); self._fn = {}
        import util
        for t, fs in m.di_structs.items():
            for o, n in fs.items(): util.NAMES[(t, o)] = n
        for f in m.funcs.values():
            if irload.is_own(f):
                b = base(f.dem)
                if b not in self._fn or f.blocks: self._fn.setdefault(b, f)
    def own(self): return [f for f in self.m.funcs.values() if irload.is_own(f)]
    def fn(self, name, must=True):
        f = self._fn.get(name)
        if f is None and must: raise AnalysisError('anchor function %s not found' % name)
        return f
    # ---- struct layout by name
    def fields(self, struct):
        d = self.m.di_structs.get(struct) or self.m.di_structs.get(struct.split('::')[-1])
        if d is None: raise AnalysisError('struct %s not found' % struct)
        return d
    def off(self, struct, field, must=True):
        for o, n in self.fields(struct).items():
            if n == field: return o
        if must: raise AnalysisError('field %s.%s not found' % (struct, field))
        return None
    def tag(self, struct, field): return (struct, self.off(struct, field))
    def fname(self, tag):
        if not tag: return '?'
        try: return '%s.%s' % (tag[0].split('::')[-1], self.fields(tag[0]).get(tag[1], '+%d' % tag[1]))
        except AnalysisError: return '%s+%d' % tag
    def lv(self, ptr, struct, path):
        """Ptr of member path 'a.b.c' of a struct object at ptr"""
        off = ptr.off; s = struct; tag = None
        for f in path.split('.'):
            o = self.off(s, f); tag = (s, o); off = padd(off, num(o))
            t = self.m.struct(s)
            ft = t.fields[t.offs.index(o)] if t is not None and o in t.offs else None
            if ft is not None and ft.k == 'struct': s = irload.sname(ft)
        return Ptr(ptr.root, off, tag)
    def interp(self, **kw):
        I = Interp(self.m, self.eff, **kw)
        return I
    def loc(self, inst):
        if inst is None: return '?'
        return '%s:%s (%s)' % (inst.file, inst.line, base(inst.block.fn.dem))
    def where(self, f): return '%s:%s (%s)' % (f.file, f.line, base(f.dem))
    def use(self, I):
        for n in I.analysed: self.ctx.analysed.add(base(self.m.funcs[n].dem))

def base(dem):
    d = re.sub(r'\[abi:cxx11\]', '', dem)
    d = d.split('(')[0]
    return d

def this_state(m, I, st=None):
    st = st or State({}, T)
    return st, Ptr(atom('param', 'this'))

def main(argv):
    pid = argv[0]; tier = 'thorough' if '--thorough' in argv else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    ctx = Ctx(pid, tier)
    sys.path.insert(0, os.path.join(HERE, 'checks'))
    try:
        mod = __import__(pid.lower())
        try: mod.check(ctx)
        except (val.TooBig, MemoryError, RuntimeError, AnalysisError) as e:
            if not ctx.counts.get('obligations'): raise
            ctx.undecided('analysis', e) if isinstance(e, AnalysisError) else ctx.undecided('resources', 'the analysis ran out of memory or time: %s' % e)
        if not ctx.counts.get('obligations') and ctx.undec: raise AnalysisError('nothing could be decided: %s' % (ctx.undec[:3],))
        if not ctx.counts.get('obligations'): raise AnalysisError('no obligation was generated')
    except AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (pid, e)); 
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        return 2
    except (val.TooBig, MemoryError):
        traceback.print_exc(); print('ANALYSIS-ERROR property=%s value graph too large' % pid); return 2
    rep = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rep, exist_ok=True)
    rp = os.path.join(rep, pid + '.txt')
    with open(rp, 'w') as fh:
        for r, w, msg in ctx.viol: fh.write('rule: %s\nat: %s\n%s\n\n' % (r, w, msg))
        fh.write('re-run: %s %s\n' % (os.path.join(HERE, 'check.sh'), pid))
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': getattr(mod, 'LEVEL', 'other'),
          'coverage': {'explanation': mod.EXPLAIN, 'technique': 'static analysis of the LLVM IR compiled from /repo on this run (no execution)', 'rules': ctx.rules, 'counts': ctx.counts,
                       'functions_analysed': sorted(ctx.analysed), 'configurations': sorted(ctx._mods), 'samples': ctx.samples},
          'wall_s': round(time.time() - t0, 2), 'violations': len(ctx.viol),
          'assumptions': getattr(mod, 'ASSUME', []) + ctx.assume,
          'undecided': ['%s: %s' % u for u in ctx.undec],
          'known_findings': [f['what'] for f in ctx.known]}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh: json.dump(ev, fh, indent=1)
    for f in ctx.known: print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    for r, msg in ctx.undec: print('UNDECIDED property=%s rule "%s": %s' % (pid, r, msg))
    for r, w, msg in ctx.viol: print('%s: rule "%s": %s' % (w, r, msg))
    if ctx.viol:
        print('VIOLATION property=%s replay=%s' % (pid, rp)); return 1
    print('OK property=%s obligations=%d functions=%d wall=%.1fs' % (pid, ctx.counts['obligations'], len(ctx.analysed), time.time() - t0))
    return 0
