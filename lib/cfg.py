"""CFG facts: reverse postorder, dominators, postdominators, natural loops, control dependence."""
def rpo(f):
    if f.rpo is not None: return f.rpo
    seen = set(); out = []
    stack = [(f.blocks[0], iter(f.blocks[0].succs))]; seen.add(f.blocks[0])
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s); stack.append((s, iter(s.succs))); break
        else:
            out.append(b); stack.pop()
    f.rpo = out[::-1]
    return f.rpo

def dominators(f):
    """immediate dominators {block: idom}"""
    if f.dom is not None: return f.dom
    order = rpo(f); num = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in b.preds:
                if p in idom and p in num:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x is not y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        new = x
            if idom.get(b) is not new: idom[b] = new; ch = True
    f.dom = idom
    return idom

def dominates(f, a, b):
    idom = dominators(f)
    while True:
        if a is b: return True
        n = idom.get(b)
        if n is None or n is b: return False
        b = n

class Loop:
    __slots__ = ('header', 'blocks', 'latches', 'parent', 'subs', 'depth')
    def __repr__(s): return 'Loop(%s bb%d)' % (s.header.fn.name, s.header.idx)

def loops(f):
    """list of natural loops, and {block: innermost loop}"""
    if f.loops is not None: return f.loops
    order = rpo(f); reach = set(order)
    by = {}
    for b in order:
        for s in b.succs:
            if dominates(f, s, b):
                L = by.get(s)
                if L is None:
                    L = Loop(); L.header = s; L.blocks = {s}; L.latches = []; L.parent = None; L.subs = []; by[s] = L
                L.latches.append(b)
                st = [b]
                while st:
                    x = st.pop()
                    if x in L.blocks: continue
                    L.blocks.add(x); st.extend(p for p in x.preds if p in reach)
    ls = sorted(by.values(), key=lambda l: len(l.blocks))
    inner = {}
    for L in ls:
        for b in L.blocks: inner.setdefault(b, L)
    for i, L in enumerate(ls):
        for M in ls[i+1:]:
            if M is not L and L.header in M.blocks and L.blocks <= M.blocks:
                L.parent = M; M.subs.append(L); break
    for L in ls:
        d = 1; p = L.parent
        while p: d += 1; p = p.parent
        L.depth = d
    f.loops = (ls, inner)
    return f.loops

def postdom_sets(f):
    """{block: set of postdominators} with a virtual exit; blocks ending in ret/unreachable/resume flow to it"""
    order = rpo(f); reach = set(order)
    exits = [b for b in order if not b.succs]
    ALL = set(order)
    pd = {b: ({b} if b in exits else set(ALL)) for b in order}
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            if b in exits: continue
            ss = [pd[s] for s in b.succs if s in reach]
            n = set.intersection(*ss) | {b} if ss else {b}
            if n != pd[b]: pd[b] = n; ch = True
    return pd

def control_deps(f):
    """{block: set of blocks whose branch it is (directly) control dependent on}"""
    pd = postdom_sets(f); order = rpo(f); reach = set(order)
    cd = {b: set() for b in order}
    for a in order:
        ss = [s for s in a.succs if s in reach]
        if len(set(ss)) < 2: continue
        for b in order:
            if any(b in pd[s] for s in ss) and not (b in pd[a] and b is not a):
                cd[b].add(a)
    return cd
