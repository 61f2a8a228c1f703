"""Compile /repo's current sources to LLVM IR (never executed) and load the IR into Python objects.

Sources and defines are taken from the project's own CMakeLists (compile_commands of a configure run in a scratch
directory), so a file added to or moved within the build is analysed too.
"""
import ctypes as C, os, re, subprocess, sys, tempfile, shutil, json, atexit
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
_scratch = None

class AnalysisError(Exception):
    """The analysis could not be carried out (not a verdict)."""

def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='lgarv.')
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def build_units(config):
    """[(source, [flags])] of a cmake configuration: STANDALONE or NGEN."""
    d = os.path.join(scratch(), 'cm_' + config)
    env = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++', LC_ALL='C.UTF-8')
    r = subprocess.run(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-D%s=ON' % config,
                        '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True)
    cc = os.path.join(d, 'compile_commands.json')
    if not os.path.exists(cc):
        raise AnalysisError('cmake configure failed for %s:\n%s' % (config, r.stdout[-2000:]))
    units = {}
    for e in json.load(open(cc)):
        if config == 'STANDALONE' and 'lasambmi' in e.get('output', ''):
            continue
        src = os.path.realpath(e['file'])
        cmd = e.get('command') or ' '.join(e['arguments'])
        flags = [t for t in cmd.split() if re.match(r'-(D|I|std=|U)', t)]
        fl = []
        for t in flags:
            if t.startswith('-Dlasambmi_EXPORTS'): continue
            fl.append(t)
        units[src] = fl
    if not units:
        raise AnalysisError('no compilation units for ' + config)
    return sorted(units.items())

def compile_ir(config, passes='lowerinvoke,function(mem2reg,loop-simplify,lcssa)', o1=True):
    """Return path of a linked .ll for the configuration."""
    d = scratch()
    out = os.path.join(d, 'all_%s.ll' % config)
    raw = os.path.join(d, 'raw_%s.ll' % config)
    units = build_units(config)
    def one(a):
        src, fl = a
        o = os.path.join(d, '%s_%s.ll' % (config, re.sub(r'\W', '_', os.path.relpath(src, REPO))))
        cxx = not src.endswith('.c')
        cmd = ['clang++-18' if cxx else 'clang-18'] + fl + (['-std=c++14'] if cxx and not any(x.startswith('-std') for x in fl) else []) + \
              ['-g', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-w', '-S', '-emit-llvm', src, '-o', o]
        cmd = [c.replace('gnu++', 'gnu++') for c in cmd]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=REPO)
        if r.returncode:
            raise AnalysisError('clang failed on %s:\n%s' % (src, r.stdout[-3000:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, units))
    r = subprocess.run(['llvm-link-18', '-S'] + outs + ['-o', raw], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise AnalysisError('llvm-link: ' + r.stdout[-2000:])
    r = subprocess.run(['opt-18', '-S', '-passes=' + passes, raw, '-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise AnalysisError('opt: ' + r.stdout[-2000:])
    return out, raw, units

# ---------------------------------------------------------------- LLVM-C
_lib = None
def lib():
    global _lib
    if _lib is None:
        for n in ('/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM.so', 'libLLVM-18.so', '/usr/lib/x86_64-linux-gnu/libLLVM-18.so'):
            try:
                _lib = C.CDLL(n); break
            except OSError: continue
        if _lib is None: raise AnalysisError('libLLVM-18 not found')
        P = C.c_void_p
        def sig(name, res, *args):
            f = getattr(_lib, name); f.restype = res; f.argtypes = list(args)
        for n in ('LLVMGetFirstFunction','LLVMGetNextFunction','LLVMGetFirstBasicBlock','LLVMGetNextBasicBlock','LLVMGetFirstInstruction',
                  'LLVMGetNextInstruction','LLVMTypeOf','LLVMGetBasicBlockTerminator','LLVMGetFirstGlobal','LLVMGetNextGlobal','LLVMGetInitializer',
                  'LLVMGetGEPSourceElementType','LLVMGetAllocatedType','LLVMGetCalledValue','LLVMGlobalGetValueType','LLVMBasicBlockAsValue',
                  'LLVMGetElementType','LLVMGetReturnType','LLVMGetCondition','LLVMGetModuleDataLayout','LLVMContextCreate','LLVMValueAsBasicBlock','LLVMGetInstructionParent','LLVMGetCalledFunctionType'):
            sig(n, P, P)
        for n in ('LLVMGetOperand','LLVMGetSuccessor','LLVMGetParam','LLVMGetIncomingValue','LLVMGetIncomingBlock','LLVMStructGetTypeAtIndex','LLVMGetAggregateElement'):
            sig(n, P, P, C.c_uint)
        for n in ('LLVMGetInstructionOpcode','LLVMGetNumOperands','LLVMGetTypeKind','LLVMGetICmpPredicate','LLVMGetFCmpPredicate','LLVMCountParams',
                  'LLVMCountIncoming','LLVMGetNumSuccessors','LLVMGetValueKind','LLVMGetDebugLocLine','LLVMGetDebugLocColumn','LLVMIsConditional','LLVMGetIntTypeWidth','LLVMCountStructElementTypes',
                  'LLVMIsGlobalConstant','LLVMIsDeclaration','LLVMGetLinkage','LLVMGetConstOpcode','LLVMGetNumArgOperands','LLVMGetArrayLength2','LLVMGetArrayLength','LLVMGetNumIndices','LLVMIsThreadLocal','LLVMIsConstantString','LLVMGetNumMDNodeOperands'):
            try: sig(n, C.c_uint, P)
            except AttributeError: pass
        sig('LLVMPrintTypeToString', C.c_void_p, P); sig('LLVMPrintValueToString', C.c_void_p, P)
        sig('LLVMDisposeMessage', None, C.c_void_p)
        sig('LLVMGetValueName2', C.POINTER(C.c_char), P, C.POINTER(C.c_size_t))
        sig('LLVMGetAsString', C.POINTER(C.c_char), P, C.POINTER(C.c_size_t))
        sig('LLVMGetStructName', C.c_char_p, P)
        sig('LLVMGetDebugLocFilename', C.POINTER(C.c_char), P, C.POINTER(C.c_uint))
        sig('LLVMConstIntGetSExtValue', C.c_longlong, P)
        sig('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
        sig('LLVMABISizeOfType', C.c_ulonglong, P, P); sig('LLVMOffsetOfElement', C.c_ulonglong, P, P, C.c_uint)
        sig('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(C.c_void_p), C.POINTER(C.c_char_p))
        sig('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(C.c_void_p), C.POINTER(C.c_char_p))
        sig('LLVMGetIndices', C.POINTER(C.c_uint), P)
        sig('LLVMIsAConstant', P, P)
    return _lib

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',
       16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'getelementptr',
       30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',
       42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',49:'va_arg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',
       55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad',60:'addrspacecast',66:'fneg',68:'freeze'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}
VK = {0:'arg',1:'bb',5:'func',6:'galias',8:'global',9:'blockaddr',10:'cexpr',11:'carray',12:'cstruct',13:'cvector',14:'undef',15:'czero',16:'cdataarray',17:'cdatavector',18:'int',19:'fp',20:'null',22:'mdv',23:'asm',24:'inst',25:'poison'}

class Type:
    __slots__=('k','s','width','name','h','elem','n','fields','size','offs')
    def __repr__(s): return s.s
class Val: pass
class Const(Val):
    __slots__=('kind','ty','v','ops','op','gty')
    def __init__(s, kind, ty, v=None, ops=(), op=None, gty=None): s.kind=kind; s.ty=ty; s.v=v; s.ops=ops; s.op=op; s.gty=gty
    def __repr__(s): return '<%s %s>'%(s.kind, s.v)
class Arg(Val):
    __slots__=('idx','name','ty','fn')
    def __repr__(s): return '%%%s'%s.name
class GRef(Val):
    __slots__=('name','ty')
    def __repr__(s): return '@%s'%s.name
class FRef(Val):
    __slots__=('name','ty')
    def __repr__(s): return '@%s'%s.name
class Inst(Val):
    __slots__=('op','ty','ops','pred','gty','callee','incoming','cases','succ','line','file','block','name','idx','aty','nargs','indices','raw','col')
    def __repr__(s): return '%%%s=%s %s'%(s.name or s.idx, s.op, s.ops)
class Block:
    __slots__=('idx','name','insts','succs','preds','fn')
    def __repr__(s): return '%s:bb%d(%s)'%(s.fn.name,s.idx,s.name)
class Func:
    __slots__=('name','dem','params','blocks','decl','ret','file','line','linkage','loops','dom','rpo','attrs')
    def __repr__(s): return 'Func(%s)'%s.dem
class Global:
    __slots__=('name','dem','const','init','ty','decl','tls','line','file')

def _s(p):
    r = C.cast(p, C.c_char_p).value.decode('utf8','replace'); lib().LLVMDisposeMessage(p); return r

class Module:
    def __init__(self, path):
        L = lib(); self.path = path
        ctx = L.LLVMContextCreate(None) if False else C.c_void_p(L.LLVMContextCreate(None))
        buf = C.c_void_p(); err = C.c_char_p(); mod = C.c_void_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)): raise AnalysisError(str(err.value))
        if L.LLVMParseIRInContext(ctx, buf, C.byref(mod), C.byref(err)): raise AnalysisError(str(err.value))
        self.mod = mod; self.td = C.c_void_p(L.LLVMGetModuleDataLayout(mod))
        self.types = {}; self.funcs = {}; self.globals = {}; self._fh = {}
        self._parse_di(path)
        names = []
        f = L.LLVMGetFirstFunction(mod)
        while f:
            names.append((f, self.name(f))); f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(mod); gl = []
        while g:
            gl.append((g, self.name(g))); g = L.LLVMGetNextGlobal(g)
        dem = demangle([n for _, n in names] + [n for _, n in gl])
        for h, n in gl:
            o = Global(); o.name = n; o.dem = dem[n]; o.const = bool(L.LLVMIsGlobalConstant(h)); o.ty = self.type(L.LLVMGlobalGetValueType(h))
            o.decl = bool(L.LLVMIsDeclaration(h)); o.tls = bool(L.LLVMIsThreadLocal(h)); o.init = None; o.file, o.line = self.di_glob.get(n, (None, None))
            self.globals[n] = o
        for h, n in gl:
            i = L.LLVMGetInitializer(h)
            if i: self.globals[n].init = self.val(i, {}, {})
        for h, n in names:
            if n.startswith('llvm.dbg') : continue
            self.funcs[n] = self._func(h, n, dem[n])
    def name(self, v):
        n = C.c_size_t(); p = lib().LLVMGetValueName2(v, C.byref(n)); return p[:n.value].decode()
    def type(self, h):
        t = self.types.get(h)
        if t is not None: return t
        L = lib(); t = Type(); self.types[h] = t; t.h = h; k = L.LLVMGetTypeKind(h)
        t.k = {0:'void',2:'float',3:'double',4:'x86_fp80',7:'label',8:'int',9:'func',10:'struct',11:'array',12:'ptr',13:'vector',14:'meta'}.get(k, 'k%d'%k)
        t.width = L.LLVMGetIntTypeWidth(h) if t.k == 'int' else None
        t.name = None; t.elem = None; t.n = None; t.fields = None; t.size = None; t.offs = None
        if t.k == 'struct':
            nm = L.LLVMGetStructName(h); t.name = nm.decode() if nm else None
            t.s = '%' + t.name if t.name else _s(L.LLVMPrintTypeToString(h))
            n = L.LLVMCountStructElementTypes(h)
            t.fields = [self.type(L.LLVMStructGetTypeAtIndex(h, i)) for i in range(n)]
            try:
                t.offs = [L.LLVMOffsetOfElement(self.td, h, i) for i in range(n)]
            except Exception: t.offs = None
        else:
            t.s = _s(L.LLVMPrintTypeToString(h))
        if t.k == 'array':
            t.elem = self.type(L.LLVMGetElementType(h)); t.n = L.LLVMGetArrayLength(h)
        if t.k in ('int','float','double','struct','array','ptr'):
            try: t.size = L.LLVMABISizeOfType(self.td, h)
            except Exception: t.size = None
        return t
    def val(self, h, insts, blocks):
        L = lib()
        if h in insts: return insts[h]
        k = VK.get(L.LLVMGetValueKind(h), '?')
        if k == 'func':
            r = FRef(); r.name = self.name(h); r.ty = self.type(L.LLVMTypeOf(h)); return r
        if k in ('global','galias'):
            r = GRef(); r.name = self.name(h); r.ty = self.type(L.LLVMTypeOf(h)); return r
        ty = self.type(L.LLVMTypeOf(h))
        if k == 'int':
            return Const('int', ty, L.LLVMConstIntGetSExtValue(h))
        if k == 'fp':
            lo = C.c_int(); return Const('fp', ty, L.LLVMConstRealGetDouble(h, C.byref(lo)))
        if k == 'null': return Const('null', ty)
        if k in ('undef','poison'): return Const('undef', ty)
        if k == 'czero': return Const('zero', ty)
        if k == 'cdataarray':
            if L.LLVMIsConstantString(h):
                n = C.c_size_t(); p = L.LLVMGetAsString(h, C.byref(n)); return Const('str', ty, p[:n.value])
            return Const('agg', ty, None, [self.val(L.LLVMGetAggregateElement(h, i), insts, blocks) for i in range(ty.n)])
        if k in ('carray','cstruct'):
            return Const('agg', ty, None, [self.val(L.LLVMGetOperand(h, i), insts, blocks) for i in range(L.LLVMGetNumOperands(h))])
        if k == 'cexpr':
            op = OPC.get(L.LLVMGetConstOpcode(h), '?')
            ops = [self.val(L.LLVMGetOperand(h, i), insts, blocks) for i in range(L.LLVMGetNumOperands(h))]
            gty = self.type(L.LLVMGetGEPSourceElementType(h)) if op == 'getelementptr' else None
            return Const('expr', ty, None, ops, op, gty)
        if k == 'bb': return blocks.get(h)
        return Const('other', ty, k)
    def _func(self, h, n, dem):
        L = lib(); f = Func(); f.name = n; f.dem = dem; f.decl = bool(L.LLVMIsDeclaration(h)); f.linkage = L.LLVMGetLinkage(h)
        f.file, f.line = self.di_sub.get(n, (None, None)); f.blocks = []; f.loops = None; f.dom = None; f.rpo = None; f.attrs = None
        ft = self.type(L.LLVMGlobalGetValueType(h)); f.ret = self.type(L.LLVMGetReturnType(ft.h))
        insts = {}; blocks = {}
        f.params = []
        for i in range(L.LLVMCountParams(h)):
            ph = L.LLVMGetParam(h, i); a = Arg(); a.idx = i; a.name = self.name(ph); a.ty = self.type(L.LLVMTypeOf(ph)); a.fn = f; insts[ph] = a; f.params.append(a)
        if f.decl: return f
        b = L.LLVMGetFirstBasicBlock(h); order = []
        while b:
            B = Block(); B.idx = len(order); bv = L.LLVMBasicBlockAsValue(b); B.name = self.name(bv); B.insts = []; B.succs = []; B.preds = []; B.fn = f
            blocks[bv] = B; order.append((b, B)); b = L.LLVMGetNextBasicBlock(b)
        todo = []
        cnt = 0
        for b, B in order:
            ih = L.LLVMGetFirstInstruction(b)
            while ih:
                op = OPC.get(L.LLVMGetInstructionOpcode(ih), '?')
                I = Inst(); I.op = op; I.block = B; I.name = self.name(ih); I.idx = cnt; cnt += 1; I.ty = self.type(L.LLVMTypeOf(ih))
                skip = False
                if op == 'call':
                    cv = L.LLVMGetCalledValue(ih)
                    cn = self.name(cv) if cv else ''
                    if cn.startswith('llvm.dbg') or cn.startswith('llvm.lifetime') or cn.startswith('llvm.experimental.noalias'): skip = True
                if not skip:
                    insts[ih] = I; B.insts.append(I); todo.append((ih, I))
                ih = L.LLVMGetNextInstruction(ih)
        for ih, I in todo:
            I.line = L.LLVMGetDebugLocLine(ih); n2 = C.c_uint(); I.col = L.LLVMGetDebugLocColumn(ih)
            p = L.LLVMGetDebugLocFilename(ih, C.byref(n2)); I.file = p[:n2.value].decode() if p else None
            I.pred = None; I.gty = None; I.callee = None; I.incoming = None; I.cases = None; I.succ = None; I.aty = None; I.nargs = None; I.indices=None; I.raw = None
            op = I.op; nops = L.LLVMGetNumOperands(ih)
            if op == 'phi':
                I.incoming = []
                for i in range(L.LLVMCountIncoming(ih)):
                    I.incoming.append((self.val(L.LLVMGetIncomingValue(ih, i), insts, blocks), blocks[L.LLVMBasicBlockAsValue(L.LLVMGetIncomingBlock(ih, i))]))
                I.ops = [v for v, _ in I.incoming]; continue
            if op == 'br':
                ns = L.LLVMGetNumSuccessors(ih); I.succ = [blocks[L.LLVMBasicBlockAsValue(L.LLVMGetSuccessor(ih, i))] for i in range(ns)]
                I.ops = [self.val(L.LLVMGetCondition(ih), insts, blocks)] if L.LLVMIsConditional(ih) else []
                I.block.succs = list(I.succ); continue
            if op == 'switch':
                ns = L.LLVMGetNumSuccessors(ih); I.succ = [blocks[L.LLVMBasicBlockAsValue(L.LLVMGetSuccessor(ih, i))] for i in range(ns)]
                I.ops = [self.val(L.LLVMGetOperand(ih, 0), insts, blocks)]
                I.cases = [(self.val(L.LLVMGetOperand(ih, 2*i), insts, blocks), I.succ[i]) for i in range(1, ns)]
                I.block.succs = list(I.succ); continue
            if op in ('call','invoke'):
                cv = L.LLVMGetCalledValue(ih); I.callee = self.val(cv, insts, blocks)
                I.nargs = L.LLVMGetNumArgOperands(ih)
                I.ops = [self.val(L.LLVMGetOperand(ih, i), insts, blocks) for i in range(I.nargs)]
                if op == 'invoke':
                    I.succ = [blocks[L.LLVMBasicBlockAsValue(L.LLVMGetSuccessor(ih, i))] for i in range(2)]; I.block.succs = list(I.succ)
                continue
            I.ops = [self.val(L.LLVMGetOperand(ih, i), insts, blocks) for i in range(nops)]
            if op == 'icmp': I.pred = ICMP[L.LLVMGetICmpPredicate(ih)]
            elif op == 'fcmp': I.pred = FCMP[L.LLVMGetFCmpPredicate(ih)]
            elif op == 'getelementptr': I.gty = self.type(L.LLVMGetGEPSourceElementType(ih))
            elif op == 'alloca': I.aty = self.type(L.LLVMGetAllocatedType(ih))
            elif op in ('extractvalue','insertvalue'):
                ni = L.LLVMGetNumIndices(ih); pp = L.LLVMGetIndices(ih); I.indices = [pp[i] for i in range(ni)]
            elif op == 'landingpad': I.raw = _s(L.LLVMPrintValueToString(ih))
        f.blocks = [B for _, B in order]
        for B in f.blocks:
            for s in B.succs: s.preds.append(B)
        return f
    # ------------------------------------------------------------- debug info (struct field names, function lines)
    def _parse_di(self, path):
        nodes = {}; sub = {}; glob = {}
        txt = open(path).read()
        for m in re.finditer(r'^(!\d+) = (?:distinct )?(!.*)$', txt, re.M): nodes[m.group(1)] = m.group(2)
        def attr(s, a):
            m = re.search(r'[(,]\s*%s: ("(?:[^"]*)"|[^,)]+)' % a, s); return m.group(1).strip('"') if m else None
        files = {k: attr(v, 'filename') for k, v in nodes.items() if v.startswith('!DIFile')}
        self.di_structs = {}
        for k, v in nodes.items():
            if v.startswith('!DICompositeType') and ('structure_type' in v or 'class_type' in v):
                nm = attr(v, 'name'); el = attr(v, 'elements')
                if not nm or not el or el not in nodes: continue
                mem = {}
                for e in re.findall(r'!\d+', nodes[el]):
                    d = nodes.get(e, '')
                    if d.startswith('!DIDerivedType') and 'DW_TAG_member' in d and 'DIFlagStaticMember' not in d:
                        off = int(attr(d, 'offset') or 0) // 8
                        if attr(d, 'name'): mem.setdefault(off, attr(d, 'name'))
                if mem: self.di_structs.setdefault(nm, mem)
        for k, v in nodes.items():
            if v.startswith('!DISubprogram'):
                ln = attr(v, 'linkageName') or attr(v, 'name')
                if ln and 'DISPFlagDefinition' in v: sub[ln] = (files.get(attr(v, 'file')), int(attr(v, 'line') or 0))
            if v.startswith('!DIGlobalVariable('):
                ln = attr(v, 'linkageName') or attr(v, 'name')
                if ln: glob[ln] = (files.get(attr(v, 'file')), int(attr(v, 'line') or 0))
        self.di_sub = sub; self.di_glob = glob
    def struct(self, name):
        for t in self.types.values():
            if t.k == 'struct' and t.name and re.sub(r'^(struct|class|union)\.', '', t.name) == name: return t
        return None

def sname(t):
    return re.sub(r'\.\d+$', '', re.sub(r'^(struct|class|union)\.', '', t.name)) if t.name else None

def demangle(names):
    r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), stdout=subprocess.PIPE, text=True).stdout.split('\n')
    return dict(zip(names, [x.replace('> >', '>>') for x in r]))

def is_own(f): return not f.decl and f.file is not None and not f.file.startswith('/usr')

def devirtualise(m):
    """virtual calls on the project's polymorphic classes: slot k of the only project vtable that has one (BmiLGAR implements bmi::Bmi)"""
    vts = [g for n, g in m.globals.items() if n.startswith('_ZTV') and g.init is not None and g.init.kind == 'agg' and not g.dem.startswith('vtable for std::')]
    slots = {}
    for g in vts:
        arr = g.init.ops[0]
        if arr.kind != 'agg': continue
        fs = [o.name if isinstance(o, FRef) else None for o in arr.ops[2:]]
        if any(n and m.funcs.get(n) is not None and not m.funcs[n].decl and is_own(m.funcs[n]) for n in fs if n != '__cxa_pure_virtual') and '__cxa_pure_virtual' not in fs and len(fs) > 10:
            slots[g.name] = fs
    n = 0
    for f in m.funcs.values():
        for b in f.blocks:
            for i in b.insts:
                if i.op in ('call', 'invoke') and isinstance(i.callee, GRef):
                    t = i.callee.name.replace('D1Ev', 'D2Ev')
                    if t in m.funcs: i.callee = FRef(); i.callee.name = t; i.callee.ty = None
                if i.op in ('call', 'invoke') and is_own(f) and isinstance(i.callee, Inst) and i.callee.op == 'load':
                    p = i.callee.ops[0]; k = None
                    if isinstance(p, Inst) and p.op == 'getelementptr' and len(p.ops) == 2 and isinstance(p.ops[1], Const) and isinstance(p.ops[0], Inst) and p.ops[0].op == 'load': k = p.ops[1].v
                    elif isinstance(p, Inst) and p.op == 'load': k = 0
                    if k is None or len(slots) != 1: continue
                    fs = list(slots.values())[0]
                    if k < len(fs) and fs[k] in m.funcs:
                        r = FRef(); r.name = fs[k]; r.ty = i.callee.ty; i.callee = r; n += 1
    m.devirt = n

_mods = {}
def load(config='STANDALONE'):
    if config not in _mods:
        out, raw, units = compile_ir(config)
        m = Module(out); m.raw = raw; m.units = units; m.config = config
        devirtualise(m)
        _mods[config] = m
    return _mods[config]
