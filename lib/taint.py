"""Does a gated value depend on a given source (e.g. the verbosity global)?"""
from val import *
import util

class Taint:
    def __init__(self, issrc):
        self.issrc = issrc; self.mus = set(); self.memo = {}
    def dep(self, x):
        """an atom through which x depends on the source, or None"""
        for a in util.atoms_of(x):
            if self.issrc(a) or a in self.mus: return a
        return None
    def close_loops(self, I):
        """loop-carried values whose update depends on the source"""
        ch = True
        while ch:
            ch = False
            for r in I.loops:
                for i, (mu, init) in r.phis.items():
                    nx = r.next.get(i)
                    ma = [a for a in util.atoms_of(mu) if a.kind == 'mu' and a.args[0] == r.key and a.args[1] != 'iter']
                    if not ma or ma[0] in self.mus: continue
                    if (nx is not None and nx is not mu and self.dep(nx)) or self.dep(init):
                        self.mus.add(ma[0]); ch = True
