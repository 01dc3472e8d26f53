"""Invariant templates shared by the contracts (candidates only: each is proved inductive or dropped)."""
from contract import *

def grow(region, spec, cond=None, mult=(1,)):
    """every element before an output cursor (pointer into region, or index times a constant) equals spec(j)"""
    def t(c, st0, st, b, b0):
        L = []
        r = region(c) if callable(region) else region
        if r not in st.mem: return L
        es = st.mem[r].es
        for k, v in b.vals.items():
            if isinstance(v, Ptr) and v.r == r:
                L.append(Cand('spec below %s' % k, forall=(r, lambda j, b, k=k: And(j >= 0, es * j < b[k].o, True if cond is None else cond(c, j)), lambda j, b: spec(c, j))))
            elif isinstance(v, IV) and v.w >= 32 and c.x.dom.name == 'int':
                for m in mult:
                    L.append(Cand('spec below %d*%s' % (m, k), forall=(r, lambda j, b, k=k, m=m: And(j >= 0, j < m * b[k].t, True if cond is None else cond(c, j)), lambda j, b: spec(c, j))))
        return L
    return t
def seq(*ts):
    def t(c, st0, st, b, b0):
        L = []
        for q in ts: L += q(c, st0, st, b, b0) or []
        return L
    return t
