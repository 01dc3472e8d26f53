"""C07 split_n, offset_splitter / offset_predicate, split_pair."""
from tokens import *
def text(c, kind, con):
    """argument list of the text (and delimiter) parameters; registers the specs"""
    isd = None
    if kind == 'it':
        n = c.size('n'); p = c.buf('in', n, const=True)
        c.n, c.src, R, a = n, c.mem('in').read, 'in', [p, Ptr('in', n)]
    elif kind == 'ssi':
        n = c.size('n'); p = c.buf('in', n, const=True)
        c.n, c.src, R = n, c.mem('in').read, 'in'
        q, dr, m = c.string('delims', const=True); isd = member_of(c, c.mem(dr), m); a = [q, p, Ptr('in', n)]
    else:
        p, R, n = c.string('in', const=True); c.n, c.src, a = n, c.mem(R).read, [p]
        if kind == 'c': d = c.int('d', 8); isd = lambda ch: Eq(ch, c.u(d)); a = [d, p]
        elif kind == 'cs': q, m, dm = c.cstr('delims'); isd = member_of(c, dm, m); a = [q, p]
        elif kind == 'ss': q, dr, m = c.string('delims', const=True); isd = member_of(c, c.mem(dr), m); a = [q, p]
    specs(c, R, isd)
    return a
# ---- split_n
def setup_n(kind, opt):
    def f(c):
        a = text(c, kind, con)
        N = c.size('limit', (1 << 64) - 1); c.N = N
        ghost_init(c, c.st)
        con.hooks.update({'hook_emit': emit_hook(c, opt), 'hook_pred': pred_hook(c)})
        return a + [c.iv(64, N), c.dom.const(64, opt)]
    con = Contract('', f, ens_n, tpl, hooks={}, weight=2 if kind in ('cs', 'ss', 'ssi') else 1)
    return con
def ens_n(c, st, rv):
    cnt, cur = st.ghost['cnt'], st.ghost['cur']
    c.ensure('returns the number of tokens', Eq(c.u(rv), cnt))
    c.ensure('no more tokens than asked for', cnt <= c.N)
    c.ensure('fewer tokens only when the text has no more', Or(Eq(cnt, c.N), Eq(cur, Ite(Eq(c.n, 0), 0, S(c.n + 1)))))
def tpl(c, st0, st, b, b0):
    L = tok_tpl(c, st0, st, b, b0) + table_tpl(c, st0, st, b)
    if hasattr(c, 'N'): L.append(Cand('cnt<limit', lambda b: (b['ghost:cnt'].t if 'ghost:cnt' in b.vals else b.st.ghost['cnt']) < c.N))
    return L
# ---- offset_splitter
def setup_off(kind):
    def f(c):
        if kind == 'it':
            n = c.size('n'); p = c.buf('in', n, const=True); a = [p, Ptr('in', n)]; R = 'in'
        else: p, R, n = c.string('in', const=True); a = [p]
        c.n, c.R = n, R
        c.off = c.defun('offset', 1, lambda k: And(c.off(k) >= 0, c.off(k) < 1 << 32), fuel=9)
        st = c.st
        st.ghost['cur'] = 0; st.ghost['cnt'] = 0; st.ghost['k'] = 0
        c.cv = lambda k: Ite(c.off(zi(k)) >= 1 << 31, S(c.off(zi(k)) - (1 << 32)), c.off(zi(k)))
        def nxt(x, st, ins, a):
            x.modify(st, ('ghost', 'k'))
            k = st.ghost['k']; st.ghost['k'] = S(k + 1)
            return c.iv(32, c.off(zi(k)))
        def emit(x, st, ins, a):
            b, e = a
            x.modify(st, ('ghost', 'cur')); x.modify(st, ('ghost', 'cnt'))
            p, v = st.ghost['cur'], c.cv(S(st.ghost['k'] - 1))
            if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.r == R and e.r == R):
                if not x.dry: x.oblige('post', False, 'field is a range of the input')
                return
            ee = Ite(v <= c.n - p, S(p + v), c.n)
            if not x.dry:
                x.oblige('post', And(v > 0, p < c.n), 'a field for every positive length while text is left')
                x.oblige('post', S(Eq(b.o, p)), 'field starts where the previous one ended')
                x.oblige('post', S(Eq(e.o, ee)), 'field has the requested length, cut at the end of the text')
                x.oblige('post', S(Eq(st.ghost['cnt'], st.ghost['k'] - 1)), 'one field per length')
            st.ghost['cur'] = S(ee); st.ghost['cnt'] = S(st.ghost['cnt'] + 1)
        con.hooks.update({'hook_emit': emit, 'hook_next': nxt})
        return a
    con = Contract('', f, ens_off, tpl_off, hooks={})
    return con
def ens_off(c, st, rv):
    c.ensure('returns the number of fields', Eq(c.u(rv), st.ghost['cnt']))
    c.ensure('stops only at the end of the text or at a length that is not positive', Or(Eq(st.ghost['cur'], c.n), And(Eq(st.ghost['k'], S(st.ghost['cnt'] + 1)), c.cv(st.ghost['cnt']) <= 0)))
def tpl_off(c, st0, st, b, b0):
    L = []
    num = lambda v: v.o if isinstance(v, Ptr) else v.t
    for k, v in b.vals.items():
        if isinstance(v, Ptr) and v.r == c.R or (isinstance(v, IV) and v.w == 64 and not k.startswith('ghost')):
            for g in ('cur', 'cnt', 'k'):
                if 'ghost:' + g in b.vals: L.append(Cand('%s==%s' % (k, g), lambda b, k=k, g=g: Eq(num(b[k]), b['ghost:' + g].t)))
            if 'ghost:cur' in b.vals: L.append(Cand('%s==rest' % k, lambda b, k=k: Eq(num(b[k]), S(c.n - b['ghost:cur'].t))))
    if 'ghost:k' in b.vals and 'ghost:cnt' in b.vals: L.append(Cand('k==cnt', lambda b: Eq(b['ghost:k'].t, b['ghost:cnt'].t)))
    return L
# ---- offset_predicate
def setup_next(kind, N):
    def f(c):
        rot = c.int('rot', 1); c.rot = rot
        if kind == 'list':
            p = c.buf('list', 4 * N, 4, const=True) if False else c.buf('list', N, 4, const=True)
            m = c.mem('list'); c.l = [m.read(i) for i in range(N)]; a = [p, rot]
        else:
            vs = [c.int('v%d' % i, 32) for i in range(N)]; c.l = [c.u(v) for v in vs]; a = vs + [rot]
        c.N5 = N
        c.st.ghost['pos'] = 0
        K = c.size('calls')
        def val(x, st, ins, a):
            x.modify(st, ('ghost', 'pos'))
            p = st.ghost['pos']
            w = 0
            for i in range(N): w = Ite(Eq(p, i), c.l[i], w)
            if not x.dry: x.oblige('post', S(Eq(c.u(a[0]), w)), 'the lengths come in list order, again from the first when rotating, else 0 after the last')
            np = Ite(p < N, S(p + 1), p)
            st.ghost['pos'] = S(Ite(And(rot, Eq(np, N)), 0, np))
        con.hooks['hook_val'] = val
        return a + [c.iv(64, K)]
    con = Contract('', f, lambda c, st, rv: c.ensure('after a reset the first length comes next', Eq(c.u(rv), c.l[0])), tpl_next, hooks={})
    return con
def tpl_next(c, st0, st, b, b0):
    L = []
    if 'ghost:pos' not in b.vals: return L
    L.append(Cand('pos<=N', lambda b: b['ghost:pos'].t <= c.N5))
    L.append(Cand('rotating: pos<N', lambda b: Implies(c.rot, b['ghost:pos'].t < c.N5)))
    for k, v in b.vals.items():
        if isinstance(v, IV) and v.w == 64 and not k.startswith('ghost'): L.append(Cand('%s==pos' % k, lambda b, k=k: Eq(b[k].t, b['ghost:pos'].t)))
    return L
# ---- split_pair
def setup_pair(kind):
    def f(c):
        a = text(c, kind, con)
        con.hooks['hook_pred'] = pred_hook(c)
        c.old = {}
        out = []
        for nm in ('v1', 'v2'):
            cs = {}
            r = c.buf('old_' + nm, 1)
            cs[0] = (8, Ptr(r.r, 0)); cs[8] = (8, Ptr(r.r, 1))
            out.append(c.obj(nm, 16, cs)); c.old[nm] = cs
        return a + out
    con = Contract('', f, ens_pair, tpl, hooks={})
    return con
def ens_pair(c, st, rv):
    n = c.n; d = c.nd(zi(0))
    ok = And(n > 0, d < n - 1)
    c.ensure('true exactly when a delimiter has text after it', Eq(rv if isinstance(rv, (bool, z3.BoolRef)) else Not(Eq(c.u(rv), 0)), ok))
    g = lambda nm, o: st.mem[nm].cells[o][1]
    def is_(v, o): return isinstance(v, Ptr) and v.r == c.R and Eq(v.o, o)
    def eqold(nm): return And(*[(v.r == w.r and Eq(v.o, w.o)) for v, w in ((g(nm, 0), c.old[nm][0][1]), (g(nm, 8), c.old[nm][8][1]))])
    c.ensure('first part: up to the first delimiter', Implies(ok, And(is_(g('v1', 0), 0), is_(g('v1', 8), d))))
    c.ensure('second part: everything after it', Implies(ok, And(is_(g('v2', 0), S(d + 1)), is_(g('v2', 8), n))))
    c.ensure('second part untouched otherwise', Implies(Not(ok), eqold('v2')))
    c.ensure('first part untouched when there is no delimiter', Implies(Or(Eq(n, 0), Eq(d, n)), eqold('v1')))
CONTRACTS = []
OPTN = lambda o: '|'.join(n for i, n in ((1, 'compress'), (2, 'include_1st'), (4, 'include_all')) if o & i) or 'default'
for w, kind, api in (('w_n', 'it', 'split_n(pred,begin,end,n,out,%s)'), ('w_ns', 's', 'split_n(pred,string,n,out,%s)'), ('w_nc', 'c', 'split_n(char,string,n,out,%s)'),
                     ('w_ncs', 'cs', 'split_n(const char*,string,n,out,%s)'), ('w_nss', 'ss', 'split_n(string,string,n,out,%s)'), ('w_nsi', 'ssi', 'split_n(string,begin,end,n,out,%s)')):
    for o in range(8):
        k = setup_n(kind, o); k.fname, k.api = w, api % OPTN(o); CONTRACTS.append(k)
for w, kind in (('w_off', 'it'), ('w_offs', 's')): k = setup_off(kind); k.fname, k.api = w, 'offset_splitter'; CONTRACTS.append(k)
k = setup_next('list', 5); k.fname, k.api = 'w_next', 'offset_predicate'; CONTRACTS.append(k)
k = setup_next('args', 5); k.fname, k.api = 'w_offsets', 'offsets(5)'; CONTRACTS.append(k)
for N in (1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12): k = setup_next('list', N); k.fname, k.api = 'w_offsets%d' % N, 'offsets(%d)' % N; CONTRACTS.append(k)
for w, kind in (('w_pair', 'it'), ('w_pairs', 's'), ('w_pairc', 'c')): k = setup_pair(kind); k.fname, k.api = w, 'split_pair'; CONTRACTS.append(k)
CONTRACTS.append(Lemma('scan', scan_lemma, api='meaning of the scan functions'))
