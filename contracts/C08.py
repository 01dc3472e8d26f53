"""C08 in-place removal: what is kept, in which order, and what the reported counts are."""
from tokens import *
num = lambda v: v.o if isinstance(v, Ptr) else v.t
def rank_specs(c, keep, R):
    """r(k): number of kept elements among the first k;  want(m): the m-th kept element"""
    c.keep = keep
    c.want = c.x.ufun('kept_element', 1)
    def ax(k):
        p = S(k - 1)
        return And(Implies(k <= 0, Eq(c.r(k), 0)),
                   Implies(And(k > 0, k <= c.n), And(c.r(k) >= 0, c.r(k) <= k, Eq(c.r(k), Ite(keep(p), c.r(p) + 1, c.r(p))))),
                   Implies(And(k >= 0, k < c.n, keep(k)), Eq(c.want(c.r(k)), c.src(k))))
    c.r = c.defun('rank', 1, ax, fuel=2)
    c.assume(Eq(c.r(z3.IntVal(0)), 0))
def arg(c, kind, es=1):
    """(argument values, region)"""
    if kind == 'range': n = c.size('n'); p = c.buf('in', n, es); R = 'in'; a = [p, Ptr('in', S(es * n))]
    elif kind == 'seq':
        n = c.size('n'); c.buf('in', n, es); R = 'in'
        q = c.obj('seq', 16, {0: (8, Ptr('in', 0)), 8: (8, Ptr('in', S(es * n)))}); c.q = q; a = [q]
    else: q, R, n = c.string('in'); c.q = q; a = [q]
    c.n, c.R, c.kind, c.es = n, R, kind, es
    c.src = c.mem(R).read
    return a
def delims(c, dk):
    if dk == 'c': d = c.int('d', 8); return [d], lambda ch: Eq(ch, c.u(d))
    if dk == 'ss': q, dr, m = c.string('delims', const=True); return [q], member_of(c, c.mem(dr), m)
    if dk == 'cs':
        q, m, dm = c.cstr('delims'); c.assume(m <= 256)
        return [q], member_of(c, dm, m)
    P = c.x.ufun('pred', 1, z3.BoolSort()); return [], lambda ch: P(zi(ch))
def final(c, st):
    """(region, length) of the result"""
    if c.kind == 'str': return c.strbuf(st, c.q)
    if c.kind == 'seq':
        b, e = st.mem[c.q.r].cells[0][1], st.mem[c.q.r].cells[8][1]
        if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.r == c.R and e.r == c.R and isint(b.o) and b.o == 0): c.ensure('sequence still owns its elements', False); return None
        return c.R, S(c.x.dom.tdiv(S(e.o), c.es)) if c.es > 1 else e.o
    return c.R, None
def mkc(w, kind, mode, dk='p', es=1, ret=True, api=''):
    def setup(c):
        if mode == 'index':
            m = c.size('count'); v, lr = c.vector('list', m, 8); c.L, c.m, c.lr = c.mem(lr).read, m, lr
            d, isd = [v], None
        else: d, isd = delims(c, dk)
        a = arg(c, kind, es)
        c.isd = isd
        c.D = (lambda k: isd(c.src(k))) if isd else None
        con.hooks.update({'hook_pred': lambda x, st, ins, a: c.isd(c.u(a[0])), 'hook_predi': lambda x, st, ins, a: c.isd(c.u(a[0]))})
        c.nd = None
        if mode == 'all': rank_specs(c, lambda k: Not(c.D(k)), c.R)
        elif mode == 'cons': rank_specs(c, lambda k: Or(Eq(k, 0), Not(And(c.D(k), c.D(S(k - 1))))), c.R)
        elif mode == 'eq': rank_specs(c, lambda k: Or(Eq(k, 0), Not(Eq(c.src(k), c.src(S(k - 1))))), c.R)
        elif mode == 'index':
            # idx(k): list entries consumed by the elements before k
            c.hit = lambda k: And(c.idx(k) < c.m, Eq(c.L(c.idx(k)), k))
            c.idx = c.defun('consumed', 1, lambda k: And(Implies(k <= 0, Eq(c.idx(k), 0)), Implies(And(k > 0, k <= c.n), And(c.idx(k) >= 0, c.idx(k) <= c.m, Eq(c.idx(k), Ite(c.hit(S(k - 1)), c.idx(S(k - 1)) + 1, c.idx(S(k - 1))))))), fuel=2)
            rank_specs(c, lambda k: Not(c.hit(k)), c.R)
        elif mode in ('trail', 'lead', 'both'):
            c.sk = c.defun('skip', 1, lambda k: Implies(And(k >= 0, k <= c.n), And(c.sk(k) >= k, c.sk(k) <= c.n, Eq(c.sk(k), Ite(k >= c.n, c.n, Ite(Not(c.D(k)), k, c.sk(S(k + 1))))))), fuel=2)
            s0 = c.sk(z3.IntVal(0))
            c.tb = c.defun('trimmed', 1, lambda k: Implies(And(k >= 0, k <= c.n), And(c.tb(k) >= 0, c.tb(k) <= k, Eq(c.tb(k), Ite(And(k > 0, c.D(S(k - 1))), c.tb(S(k - 1)), k)),
                                                                                    Implies(And(k > s0, s0 < c.n, Not(c.D(s0))), c.tb(k) >= s0 + 1))), fuel=2)
            c.s0 = s0; c.sk(z3.IntVal(0)); c.assume(Eq(c.sk(s0), c.sk(s0)))
        return d + a
    def ens(c, st, rv):
        f = final(c, st)
        if f is None: return
        R, fl = f
        if mode in ('all', 'cons', 'eq', 'index'): ln, el = c.r(zi(c.n)), lambda j: c.want(zi(j))
        elif mode == 'trail': ln, el = c.tb(zi(c.n)), lambda j: c.src(j)
        elif mode == 'lead': ln, el = S(c.n - c.s0), lambda j: c.src(S(j + c.s0))
        else: ln, el = Ite(c.s0 >= c.n, 0, S(c.tb(zi(c.n)) - c.s0)), lambda j: c.src(S(j + c.s0))
        if ret: c.ensure('returns the number of removed elements', Eq(c.u(rv), S(c.n - ln)))
        if fl is not None: c.ensure('the result has one element per kept element', Eq(fl, ln))
        c.ensure_mem('the kept elements, in order', st, R, lambda j: And(j >= 0, j < ln), el)
    def tpl(c, st0, st, b, b0):
        L = table_tpl(c, st0, st, b)
        R = c.R
        ps = [(k, v) for k, v in b.vals.items() if isinstance(v, Ptr) and v.r == R]
        ix = lambda v: S(c.x.dom.tdiv(num(v), c.es)) if c.es > 1 else num(v)
        at = lambda b, k: (c.div(num(b[k]), c.es) if c.es > 1 else num(b[k]))
        if c.es > 1:
            for k, v in ps: L.append(Cand('%s aligned' % k, lambda b, k=k: Eq(c.mod(num(b[k]), c.es), 0)))
        if mode in ('all', 'cons', 'eq', 'index'):
            for k, v in ps:
                e = ix(b0[k])
                L.append(Cand('r(%s)==r(entry)' % k, lambda b, k=k, e=e: Eq(c.r(zi(at(b, k))), c.r(zi(e)))))
                if c.isd: L.append(Cand('%s==entry or match before' % k, lambda b, k=k, e=e: Or(Eq(at(b, k), e), c.D(S(at(b, k) - 1)))))
                L.append(Cand('before %s the same as before entry' % k, lambda b, k=k, e=e: Eq(c.src(S(at(b, k) - 1)), c.src(S(e - 1)))))
                L.append(Cand('kept below %s' % k, forall=(R, lambda j, b, k=k: And(j >= 0, j < at(b, k)), lambda j, b: c.want(zi(j)))))
                L.append(Cand('untouched from %s' % k, forall=(R, lambda j, b, k=k: And(j >= at(b, k), j < c.n), lambda j, b: c.src(j))))
                for k2, v2 in ps:
                    if k2 != k: L.append(Cand('%s==r(%s)' % (k, k2), lambda b, k=k, k2=k2: Eq(at(b, k), c.r(zi(at(b, k2))))))
                for k2, v2 in b.vals.items():
                    if isinstance(v2, IV) and v2.w == 64: L.append(Cand('%s==removed before %s' % (k2, k), lambda b, k=k, k2=k2: Eq(b[k2].t, S(at(b, k) - c.r(zi(at(b, k)))))))
                    if isinstance(v2, IV) and v2.w == 8 * c.es:
                        L.append(Cand('%s==previous of %s' % (k2, k), lambda b, k=k, k2=k2: Eq(c.u(b[k2]), c.src(S(at(b, k) - 1)))))
                        if c.isd: L.append(Cand('%s like previous of %s' % (k2, k), lambda b, k=k, k2=k2: Eq(c.isd(c.u(b[k2])), c.D(S(at(b, k) - 1)))))
                    if mode == 'index':
                        if isinstance(v2, IV) and v2.w == 64: L.append(Cand('%s<=%s' % (k2, k), lambda b, k=k, k2=k2: b[k2].t <= at(b, k)))
                        if isinstance(v2, Ptr) and v2.r == c.lr: L.append(Cand('%s consumed %s' % (k2, k), lambda b, k=k, k2=k2: Eq(num(b[k2]), 8 * c.idx(zi(at(b, k))))))
                        if isinstance(v2, IV) and v2.w == 64: L.append(Cand('%s==position or done %s' % (k2, k), lambda b, k=k, k2=k2: Or(Eq(b[k2].t, at(b, k)), Eq(c.idx(zi(at(b, k))), c.m))))
                        if isinstance(v2, IV) and v2.w == 8: L.append(Cand('%s says whether entries are left %s' % (k2, k), lambda b, k=k, k2=k2: Eq(c.u(b[k2]), Ite(c.idx(zi(at(b, k))) < c.m, 1, 0))))
                        if isinstance(v2, (bool, z3.BoolRef)): L.append(Cand('%s says whether entries are left %s' % (k2, k), lambda b, k=k, k2=k2: Eq(b[k2], c.idx(zi(at(b, k))) < c.m)))
        else:
            for k, v in list(b.vals.items()):
                if isinstance(v, Ptr) and v.r == R or (isinstance(v, IV) and v.w == 64):
                    for off in [0] + ([c.s0] if mode == 'both' else []):
                        for q, nm in ((lambda b, k=k: at(b, k), ''), (lambda b, k=k: S(c.n - at(b, k)), 'n-')) if isint(off) else ((lambda b, k=k: S(at(b, k) + c.s0), 's0+'), (lambda b, k=k: S(c.n - at(b, k)), 'n-')):
                            L.append(Cand('trimmed(%s%s)==trimmed(n)' % (nm, k), lambda b, q=q: Eq(c.tb(zi(q(b))), c.tb(zi(c.n)))))
                    L.append(Cand('skip(%s)==skip(0)' % k, lambda b, k=k: Eq(c.sk(zi(at(b, k))), c.s0)))
                    L.append(Cand('%s<=n-s0' % k, lambda b, k=k: at(b, k) <= c.n - c.s0))
                    if mode == 'both': L.append(Cand('shifted below', forall=(R, lambda j, b: And(j >= 0, j < c.n - c.s0), lambda j, b: c.src(S(j + c.s0)))))
        return L
    con = Contract(w, setup, ens, tpl, hooks={}, api=api)
    return con
CONTRACTS = []
def add(*a, **k): CONTRACTS.append(mkc(*a, **k))
for pre, mode, nm in (('r', 'all', 'remove_inplace'), ('c', 'cons', 'remove_consecutives_inplace'), ('t', 'trail', 'remove_trailing'), ('l', 'lead', 'remove_leading')):
    add('w_' + pre, 'range', mode, api=nm + '(pred,char*)'); add('w_%si' % pre, 'range', mode, es=4, api=nm + '(pred,int*)')
    add('w_%sa' % pre, 'range', mode, api=nm + '(pred,range::adapter)'); add('w_%ss' % pre, 'str', mode, ret=False, api=nm + '(pred,string&)')
    add('w_%sc' % pre, 'str', mode, 'c', ret=False, api=nm + '(char,string&)')
    if pre != 'r':
        add('w_%sss' % pre, 'str', mode, 'ss', ret=False, api=nm + '(string,string&)'); add('w_%scs' % pre, 'str', mode, 'cs', ret=False, api=nm + '(const char*,string&)')
add('w_rq', 'seq', 'all', es=4, api='remove_inplace(pred,sequence&)')
add('w_rx', 'range', 'index', api='remove_inplace(index_remover(list),char*)')
add('w_e', 'range', 'eq', api='remove_consecutives_inplace(char*)'); add('w_ei', 'range', 'eq', es=4, api='remove_consecutives_inplace(int*)'); add('w_ea', 'range', 'eq', api='remove_consecutives_inplace(range::adapter)')
add('w_es', 'str', 'eq', ret=False, api='remove_consecutives_inplace(string&)'); add('w_eq', 'seq', 'eq', es=4, ret=False, api='remove_consecutives_inplace(sequence&)')
add('w_lt', 'str', 'both', 'ss', ret=False, api='remove_leading_trailing')
# ---- remove_duplicates
def setup_dup(const):
    def f(c):
        p, R, n = c.string('in', const=const); q, _, _ = c.string('res'); c.q, c.n, c.src, c.R, c.kind, c.p = q, n, c.mem(R).read, R, 'str', p
        # seen(ch,k): ch occurs among the first k characters
        c.seen = c.defun('seen', 2, lambda ch, k: And(Implies(k <= 0, Not(c.seen(ch, k))), Implies(And(k > 0, k <= n), Eq(c.seen(ch, k), Or(c.seen(ch, S(k - 1)), Eq(c.src(S(k - 1)), ch))))), fuel=3, rng=z3.BoolSort())
        rank_specs(c, lambda k: Not(c.seen(zi(c.src(k)), zi(k))), R)
        return [p, q]
    return f
def ens_dup(c, st, rv):
    r, n = c.strbuf(st, c.q)
    c.ensure('one character for each different one', Eq(n, c.r(zi(c.n))))
    c.ensure_mem('the first occurrence of each character, in order', st, r, lambda j: And(j >= 0, j < n), lambda j: c.want(zi(j)))
    r2, n2 = c.strbuf(st, c.p)
    c.ensure('the argument keeps its length', Eq(n2, c.n))
    c.ensure_mem('the argument keeps its characters', st, r2, lambda j: And(j >= 0, j < c.n), lambda j: c.src(j))
def tpl_dup(c, st0, st, b, b0):
    L = []
    for r, rs in st.mem.items():
        if rs.kind != 'array' or r not in st0.mem: continue
        for k, v in b.vals.items():
            if isinstance(v, Ptr) and v.r == r: L.append(Cand('table %s cleared up to %s' % (r, k), forall=(r, lambda j, b, k=k: And(j >= 0, j < b[k].o), lambda j, b: 0)))
            if isinstance(v, IV) and v.w == 64:
                L.append(Cand('%s<=length' % k, lambda b, k=k: b[k].t <= c.n))
                if isint(rs.size): L.append(Cand('table %s holds what was seen before %s' % (r, k), forall=(r, lambda j, b, k=k: And(j >= 0, j < 256), lambda j, b, k=k: Ite(c.seen(zi(j), zi(b[k].t)), 1, 0))))
                elif r != c.R:
                    L.append(Cand('result %s is what was kept before %s' % (r, k), forall=(r, lambda j, b, k=k: And(j >= 0, j < c.r(zi(b[k].t))), lambda j, b: c.want(zi(j)))))
                    L.append(Cand('length of %s, %s' % (r, k), lambda b, r=r, k=k: Eq(S(b.st.mem[r].size - 1), c.r(zi(b[k].t)))))
    return L
CONTRACTS += [Contract('w_d', setup_dup(True), ens_dup, tpl_dup, api='remove_duplicates'), Contract('w_di', setup_dup(False), ens_dup, tpl_dup, api='remove_duplicates_inplace')]
# ---- lemmas about the specification functions
def lem_rank(c):
    n = c.n = c.size('n'); f = c.x.ufun('mem_in', 1); c.src = lambda k: f(zi(k))
    K = c.x.ufun('keep', 1, z3.BoolSort()); rank_specs(c, lambda k: K(zi(k)), None)
    i, j = z3.Int('i'), z3.Int('j')
    c.assume(And(0 <= i, i < j, j < n))
    c.ensure('step: r(i+1)<=r(j) implies r(i+1)<=r(j+1)', Implies(c.r(i + 1) <= c.r(j), c.r(i + 1) <= c.r(j + 1)))
    c.ensure('kept elements have different, increasing positions', Implies(And(K(i), c.r(i + 1) <= c.r(j)), c.r(i) < c.r(j)))
    c.ensure('the element at its position is the kept element', Implies(K(i), Eq(c.want(c.r(i)), c.src(i))))
def lem_trim(c):
    n = c.n = c.size('n'); D = c.x.ufun('D', 1, z3.BoolSort())
    k, s = z3.Int('k'), z3.Int('s')
    tb = c.x.ufun('tb', 1)
    d = lambda k: Eq(tb(k), Ite(And(k > 0, D(k - 1)), tb(k - 1), k))
    c.assume(And(0 <= s, s < n, Not(D(s)), s < k, k <= n, d(k), d(k - 1)))
    c.ensure('what precedes a kept element is never trimmed (induction on k)', Implies(Or(k - 1 <= s, tb(k - 1) >= s + 1), tb(k) >= s + 1))
    c.ensure('range (induction on k)', Implies(And(tb(k - 1) >= 0, tb(k - 1) <= k - 1), And(tb(k) >= 0, tb(k) <= k)))
CONTRACTS += [Lemma('lemma_rank', lem_rank, api='meaning of rank / kept element'), Lemma('lemma_trim', lem_trim, api='meaning of trimmed')]
