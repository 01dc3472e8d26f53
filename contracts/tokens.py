"""Token-sequence specifications: a ghost cursor records where the next token must start; each emission is checked against it."""
from common import *
def specs(c, R, isd=None):
    """input region R of length c.n; D(k): the k-th element is a delimiter; nd/sk: next delimiter / next non-delimiter position"""
    n = c.n
    if isd is None:
        P = c.x.ufun('isdelim', 1, z3.BoolSort()); isd = lambda ch: P(ch if not isint(ch) else z3.IntVal(ch))
    c.isd = isd
    src = c.src
    c.D = lambda k: isd(src(k))
    c.nd = c.defun('nextdelim', 1, lambda k: Implies(And(k >= 0, k <= n), And(c.nd(k) >= k, c.nd(k) <= n, Eq(c.nd(k), Ite(k >= n, n, Ite(c.D(k), k, c.nd(S(k + 1))))))), fuel=2)
    c.sk = c.defun('skipdelim', 1, lambda k: Implies(And(k >= 0, k <= n), And(c.sk(k) >= k, c.sk(k) <= n, Eq(c.sk(k), Ite(k >= n, n, Ite(Not(c.D(k)), k, c.sk(S(k + 1))))))), fuel=2)
    c.R = R
def zi(k): return z3.IntVal(k) if isint(k) else k
def member_of(c, dm, m):
    """membership of a character among the m delimiters of the text dm"""
    occ = c.x.ufun('member', 2, z3.BoolSort())
    c.axiom(occ, lambda ch, i: And(Implies(i <= 0, Not(occ(ch, i))), Implies(And(i > 0, i <= m), Eq(occ(ch, i), Or(occ(ch, S(i - 1)), Eq(dm.read(S(i - 1)), ch))))), fuel=5)
    c.occ, c.m = occ, m
    return lambda ch: occ(zi(ch), zi(m))
def table_tpl(c, st0, st, b):
    """a 256-entry delimiter table under construction"""
    L = []
    if not hasattr(c, 'occ'): return L
    for r, rs in st.mem.items():
        if not (rs.kind == 'array' and r in st0.mem and rs.mem is not st0.mem[r].mem and isint(rs.size) and rs.size == 256): continue
        for k, v in b.vals.items():
            if not isinstance(v, Ptr): continue
            if v.r == r: L.append(Cand('table %s cleared up to %s' % (r, k), forall=(r, lambda j, b, k=k: And(j >= 0, j < b[k].o), lambda j, b: 0)))
            elif v.r in st.mem and st.mem[v.r].kind == 'array':
                L.append(Cand('table %s holds the delimiters before %s' % (r, k), forall=(r, lambda j, b, k=k: And(j >= 0, j < 256), lambda j, b, k=k: Ite(c.occ(zi(j), zi(b[k].o)), 1, 0))))
    return L
def next_token(c, p, opt, include_all_is_first=False):
    """(end of the token that starts at p, start of the next one or n+1)"""
    n = c.n
    compress, first, alld = opt & 1, opt & 2, (opt & 4) and not (opt & 2)
    if alld and include_all_is_first: first, alld = 2, 0
    d = c.nd(zi(p))
    if alld: e = Ite(d < n, c.sk(zi(d)), n); nx = e
    elif first: e = Ite(d < n, S(d + 1), n); nx = Ite(d < n, c.sk(S(d + 1)), n) if compress else e
    else: e = d; nx = c.sk(zi(d)) if compress else S(d + 1)
    # the token ending at the text end without a delimiter is the last one
    return e, Ite(d < n, nx, S(n + 1))
def ghost_init(c, st):
    st.ghost['cur'] = 0; st.ghost['cnt'] = 0
def emit_hook(c, opt, lim=None, mode=None):
    def h(x, st, ins, a):
        b, e = a
        x.modify(st, ('ghost', 'cur')); x.modify(st, ('ghost', 'cnt'))
        p = st.ghost['cur']
        te, nx = next_token(c, p, opt)
        ok = isinstance(b, Ptr) and isinstance(e, Ptr) and b.r == c.R and e.r == c.R
        if not x.dry:
            if not ok: x.oblige('post', False, 'token is a range of the input')
            else:
                x.oblige('post', S(p <= c.n), 'no token after the last one')
                x.oblige('post', S(Eq(b.o, p)), 'token starts where the previous one (and its delimiters) ended')
                x.oblige('post', S(Eq(e.o, te)), 'token ends at the next delimiter (or the end of the text)')
        st.ghost['cur'] = S(nx); st.ghost['cnt'] = S(st.ghost['cnt'] + 1)
        return None
    return h
def pred_hook(c):
    def h(x, st, ins, a): return c.isd(c.u(a[0]))
    return h
def tok_tpl(c, st0, st, b, b0):
    """nd/sk are constant along the scanned stretch; what precedes a token start is a delimiter; ghost cursor == a code variable"""
    L = []
    vs = [(k, v) for k, v in b.vals.items() if isinstance(v, Ptr) and v.r == c.R]
    num = lambda v: v.o if isinstance(v, Ptr) else v.t
    g = [('ghost:cur', b.vals['ghost:cur'])] if 'ghost:cur' in b.vals else []
    gc = lambda b: b['ghost:cur'].t if 'ghost:cur' in b.vals else b.st.ghost.get('cur')
    for k, v in vs:
        L.append(Cand('%s==0 or delimiter before' % k, lambda b, k=k: Or(Eq(num(b[k]), 0), c.D(S(num(b[k]) - 1)))))
        L.append(Cand('%s==entry or delimiter before' % k, lambda b, k=k, e=num(b0[k]): Or(Eq(num(b[k]), e), c.D(S(num(b[k]) - 1)))))
        L.append(Cand('%s==entry or no delimiter before' % k, lambda b, k=k, e=num(b0[k]): Or(Eq(num(b[k]), e), Not(c.D(S(num(b[k]) - 1))))))
        for f, nm in ((c.nd, 'nd'), (c.sk, 'sk')):
            e = num(b0[k])
            L.append(Cand('%s(%s)==%s(entry)' % (nm, k, nm), lambda b, k=k, f=f, e=e: Eq(f(zi(num(b[k]))), f(zi(e)))))
            L.append(Cand('%s(%s)==%s(cur)' % (nm, k, nm), lambda b, k=k, f=f: Eq(f(zi(num(b[k]))), f(zi(gc(b))))))
            for k2, v2 in vs:
                if k2 < k: L.append(Cand('%s(%s)==%s(%s)' % (nm, k, nm, k2), lambda b, k=k, k2=k2, f=f: Eq(f(zi(num(b[k]))), f(zi(num(b[k2]))))))
        L.append(Cand('%s==cur' % k, lambda b, k=k: Eq(num(b[k]), gc(b))))
        L.append(Cand('%s>=cur' % k, lambda b, k=k: num(b[k]) >= gc(b)))
        L.append(Cand('cur==n or sk(cur)==cur %s' % k, lambda b, k=k: Or(Eq(gc(b), 0), Eq(c.sk(zi(gc(b))), gc(b)))))
        L.append(Cand('%s is a delimiter' % k, lambda b, k=k: And(num(b[k]) < c.n, c.D(num(b[k])))))
        L.append(Cand('%s is no delimiter' % k, lambda b, k=k: Or(Eq(num(b[k]), c.n), Not(c.D(num(b[k]))))))
    if 'cnt' in st.ghost:
        for k, v in b.vals.items():
            if isinstance(v, IV) and v.w == 64 and not k.startswith('ghost'):
                L.append(Cand('%s==cnt' % k, lambda b, k=k: Eq(b[k].t, b['ghost:cnt'].t if 'ghost:cnt' in b.vals else b.st.ghost['cnt'])))
    return L
def scan_lemma(c):
    """the recursive nd/sk say: the first (non-)delimiter at or after p, or the end; by induction on n-p"""
    n = c.n = c.size('n')
    f = c.x.ufun('mem_in', 1); c.src = lambda k: f(zi(k))
    specs(c, None)
    p, j = z3.Int('p'), z3.Int('j')
    for g, good, nm in ((c.nd, lambda k: c.D(k), 'delimiter'), (c.sk, lambda k: Not(c.D(k)), 'non-delimiter')):
        st = lambda q: And(g(q) >= q, g(q) <= n, Implies(And(q <= j, j < g(q)), Not(good(j))), Implies(g(q) < n, good(g(q))))
        c.x.push()
        c.assume(And(p >= 0, p <= n))
        c.assume(Implies(p < n, st(p + 1)))
        c.ensure('the scan function is the first %s at or after p, or the end' % nm, st(p))
        c.x.pop()
