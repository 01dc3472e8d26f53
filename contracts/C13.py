"""C13 wildcard matching."""
from common import *
def pats(c, kind):
    if kind == 's':
        p, c.pr, c.m = c.string('pat', const=True); q, c.tr, c.n = c.string('txt', const=True); a = [p, q]; c.es = 1
        c.z, c.o = 42, 63
    else:
        c.es = es = 4 if kind == 'i' else 1
        c.m = c.size('m'); c.n = c.size('n'); p = c.buf('pat', c.m, es, const=True); q = c.buf('txt', c.n, es, const=True); c.pr, c.tr = 'pat', 'txt'
        z, o = c.int('zero_or_more', 8 * es), c.int('zero_or_one', 8 * es); c.z, c.o = c.u(z), c.u(o)
        a = [p, Ptr('pat', S(es * c.m)), q, Ptr('txt', S(es * c.n)), c.obj('z', es, {0: (es, z)}), c.obj('o', es, {0: (es, o)})]
    return a
def setup(kind):
    def f(c): a = pats(c, kind); c.ic = kind == 'x'; language(c); return a
    return f
def language(c):
    if True:
        P, D = c.mem(c.pr).read, c.mem(c.tr).read
        M0 = c.x.ufun('MATCH', 2, z3.BoolSort())
        lo = lambda v: Ite(And(v >= 65, v <= 90), v + 32, v); same = (lambda a, b: Eq(lo(a), lo(b))) if getattr(c, 'ic', False) else Eq
        T = lambda t: z3.IntVal(t) if isint(t) else t
        M = c.M = lambda d, k: M0(T(S(d)), T(S(k)))                       # the first k pattern elements match the first d data elements
        def ax(d, k):
            p = P(S(k - 1)); star = Eq(p, c.z); one = And(Not(star), Eq(p, c.o)); r = And(k >= 1, k <= c.m)
            return And(Implies(Eq(k, 0), Eq(M(d, k), Eq(d, 0))),
                       Implies(And(r, Eq(d, 0)), Eq(M(d, k), And(Or(star, one), M(d, k - 1)))),
                       Implies(And(r, d >= 1, d <= c.n, star), Eq(M(d, k), Or(M(d, k - 1), M(d - 1, k)))),
                       Implies(And(r, d >= 1, d <= c.n, one), Eq(M(d, k), Or(M(d, k - 1), M(d - 1, k - 1)))),
                       Implies(And(r, d >= 1, d <= c.n, Not(star), Not(one)), Eq(M(d, k), And(M(d - 1, k - 1), same(p, D(S(d - 1)))))))
        c.axiom(M0, ax, fuel=2)
        c.assume(M(0, 0))
def tmpl(c, st0, st, b, b0):
    L = []; V = lambda d, k: Ite(c.M(d, k), 1, 0)
    ds = [(q, lambda b, q=q: c.div(b[q].o, c.es)) for q, v in b.vals.items() if isinstance(v, Ptr) and v.r == c.tr and not (isint(v.o) and False)]
    for q, v in st.env.items():                                   # cursors of the enclosing loops
        if q not in b.vals and isinstance(v, Ptr) and v.r == c.tr and q not in [n for _, n in c.x.fn.params]: ds.append(('outer ' + q, lambda b, v=v: c.div(v.o, c.es)))
    ds.append(('start', lambda b: 0))
    ks = [(q, lambda b, q=q: c.u(b[q])) for q, v in b.vals.items() if isinstance(v, IV) and v.w == 64]
    ps = [q for q, v in b.vals.items() if isinstance(v, Ptr) and v.r == c.pr]
    for q, k in ks:
        for p in ps: L.append(Cand('%s is the place of %s' % (q, p), lambda b, p=p, k=k: Eq(b[p].o, S(c.es * k(b)))))
    for r in [r for r in st.mem if r.startswith('vec') and st.mem[r].kind == 'array']:
        for q, k in ks: L.append(Cand('nothing set behind %s in %s' % (q, r), forall=(r, lambda j, b, k=k: And(j > k(b), j <= c.m), lambda j, b: 0)))
        for dn, d in ds:
            L.append(Cand('row of %s in %s' % (dn, r), forall=(r, lambda j, b: And(j >= 0, j <= c.m), lambda j, b, d=d: V(d(b), j))))
            for q, k in ks:
                L.append(Cand('next row of %s up to %s in %s' % (dn, q, r), forall=(r, lambda j, b, k=k: And(j >= 0, j <= k(b)), lambda j, b, d=d: V(d(b) + 1, j))))
                L.append(Cand('row of %s up to %s in %s' % (dn, q, r), forall=(r, lambda j, b, k=k: And(j >= 0, j <= k(b)), lambda j, b, d=d: V(d(b), j))))
                L.append(Cand('row of %s from %s in %s' % (dn, q, r), forall=(r, lambda j, b, k=k: And(j > k(b), j <= c.m), lambda j, b, d=d: V(d(b), j))))
        for q, v in b.vals.items():
            if isinstance(v, IV) and v.w == 8:
                for dn, d in ds:
                    for kn, k in ks: L.append(Cand('%s is row %s at %s' % (q, dn, kn), lambda b, q=q, d=d, k=k: Eq(c.u(b[q]), V(d(b), k(b)))))
    return L
def ens(c, st, rv):
    c.ensure('matches exactly when the pattern denotes the text', Eq(rv, c.M(c.n, c.m)))
    for r, n in ((c.pr, c.m), (c.tr, c.n)): pass
NM = {'c': 'char*', 'u': 'unsigned char*', 'i': 'int*', 's': 'std::string', 'x': 'char*, case ignored'}
CONTRACTS = [Contract('w_m' + k, setup(k), ens, tmpl, api='match(%s)' % n) for k, n in NM.items()]
ASSUMPTIONS = ['std::string members and the std::vector constructor (assumed contracts)']
