"""C15 text transformation: character replacement, case, printable text, translation tables, pattern replacement."""
from common import *
up = lambda v: Ite(And(v >= 97, v <= 122), S(v - 32), v)
lo = lambda v: Ite(And(v >= 65, v <= 90), S(v + 32), v)
pr = lambda v: Ite(And(v > 32, v < 127), v, 46)
def text(c, kind, es=1, const=False):
    if kind == 's': p, c.r, c.n = c.string('t', const=const); a = [p]
    else: c.n = c.size('n'); c.r = 't'; a = [c.buf('t', c.n, es, const=const), Ptr('t', S(es * c.n))]
    c.old = c.mem(c.r); c.es = es
    return a
def before(c, st0, st, b, b0):
    L = []
    for k, v in b.vals.items():
        if isinstance(v, Ptr) and v.r == c.r:
            L.append(Cand('places before %s are done' % k, forall=(c.r, lambda j, b, k=k: And(j >= 0, c.es * j < b[k].o), lambda j, b: c.f(c.old.read(j)))))
            L.append(Cand('places from %s on are untouched' % k, forall=(c.r, lambda j, b, k=k: And(c.es * j >= b[k].o, j < c.n), lambda j, b: c.old.read(j))))
    return L
def each(kind, f, es=1):
    def s(c):
        a = text(c, kind, es); c.f = (lambda v: f(c, v)) if f.__code__.co_argcount == 2 else f
        return a
    return s
def e_each(c, st, rv): c.ensure_mem('every place holds what its old character maps to', st, c.r, lambda j: And(j >= 0, j < c.n), lambda j: c.f(c.old.read(j)))
def s_rep(kind, w=8):
    def s(c):
        a, b = c.int('c1', w), c.int('c2', w); A, B = c.u(a), c.u(b)
        t = text(c, kind, w // 8); c.f = lambda v: Ite(Eq(v, A), B, v)
        return [a, b] + t
    return s
def s_as(f):
    def s(c):
        a = text(c, 's', const=True); c.f = f; c.o = c.obj('out', 32)
        return [c.o] + a
    return s
def e_as(c, st, rv):
    r, n = c.strbuf(st, c.o)
    c.ensure('as many characters', Eq(n, c.n)); c.ensure_mem('every place holds what its old character maps to', st, r, lambda j: And(j >= 0, j < c.n), lambda j: c.f(c.old.read(j)))
def t_as(c, st0, st, b, b0):
    L = []
    for k, v in b.vals.items():
        if isinstance(v, Ptr) and v.r != c.r and st.mem[v.r].kind == 'array':
            L.append(Cand('places before %s are done' % k, forall=(v.r, lambda j, b, k=k: And(j >= 0, j < b[k].o), lambda j, b: c.f(c.old.read(j)))))
            L.append(Cand('places from %s on are untouched' % k, forall=(v.r, lambda j, b, k=k: And(j >= b[k].o, j < c.n), lambda j, b: c.old.read(j))))
            for q, w in b.vals.items():
                if q != k and isinstance(w, Ptr) and w.r == v.r: L.append(Cand('%s in step with %s' % (q, k), lambda b, k=k, q=q: Eq(b[q].o, b[k].o)))
    return L
# ---- translation tables: LAST(v) = last place of v in the input table, -1 when it is not there
def s_new(c):
    p, c.r, c.n = c.string('in', const=True); q, c.q, c.n2 = c.string('outt', const=True)
    I, O = c.mem(c.r).read, c.mem(c.q).read; c.I, c.O = I, O
    # LAST(i, v): last of the first i places holding v
    L = c.L = c.x.ufun('LAST', 2)
    c.axiom(L, lambda i, v: Implies(And(i >= 0, i <= c.n), And(L(i, v) >= -1, Or(L(i, v) < i, Eq(L(i, v), -1)), Eq(L(i, v), Ite(Eq(i, 0), -1, Ite(Eq(I(S(i - 1)), v), S(i - 1), L(S(i - 1), v)))))), fuel=2)
    c.t = c.buf('m', 256)
    return [c.t, p, q]
def want_tt(c, i): return lambda v: Ite(c.L(i, v) < 0, v, c.O(c.L(i, v)))
def zt(t): return z3.IntVal(t) if isint(t) else t
def e_new(c, st, rv):
    c.ensure('tables of different lengths are refused', Eq(c.n, c.n2))
    c.ensure_mem('a character maps to its partner in the output table, any other to itself', st, 'm', lambda j: And(j >= 0, j < 256), lambda j: want_tt(c, zt(c.n))(j))
def t_new(c, st0, st, b, b0):
    L = []
    for k, v in b.vals.items():
        if isinstance(v, IV) and v.w == 64: L.append(Cand('%s within the tables' % k, lambda b, k=k: c.u(b[k]) <= c.n)); L.append(Cand('table after %s entries' % k, forall=('m', lambda j, b: And(j >= 0, j < 256), lambda j, b, k=k: want_tt(c, zt(c.u(b[k])))(j))))
        if isinstance(v, Ptr) and v.r == 'm':
            L.append(Cand('identity before %s' % k, forall=('m', lambda j, b, k=k: And(j >= 0, j < b[k].o), lambda j, b: j)))
            for q, w in b.vals.items():
                if isinstance(w, IV) and w.w in (8, 32): L.append(Cand('%s follows %s' % (q, k), lambda b, k=k, q=q: Eq(c.u(b[q]), c.mod(b[k].o, 256))))
    return L
def ot_new(c, st): c.ensure('only tables of different lengths are refused', Not(Eq(c.n, c.n2)))
def table(c):
    t = c.buf('tab', 256, const=True); c.T = c.mem('tab').read; return t
def s_ttop(c): t = table(c); c.c = c.int('c', 8); return [t, c.c]
def e_ttop(c, st, rv): c.ensure('the entry of the character', Eq(c.u(rv), c.T(c.u(c.c))))
def s_tr(c): t = table(c); a = s_as(lambda v: c.T(v))(c); return [a[0], t, a[1]]
def s_tri(c): t = table(c); return [t] + each('s', lambda v: c.T(v))(c)
NM = {'u': 'unsigned char*', 'c': 'char*', 's': 'std::string', 'r': 'range', 'i': 'int*'}
CONTRACTS = [Contract('w_rp' + k, s_rep(k, 32 if k == 'i' else 8), e_each, before, api='replace(%s)' % NM[k]) for k in 'cuirs']
for k in 'ucs':
    CONTRACTS += [Contract('w_%s%s' % (n, k), each(k, f), e_each, before, api='%s(%s)' % (a, NM[k])) for n, f, a in (('up', up, 'convert_to_uppercase'), ('lo', lo, 'convert_to_lowercase'), ('pr', pr, 'convert_to_printable_chars'))]
CONTRACTS += [Contract('w_loq', each('c', lo), e_each, before, api='convert_to_lowercase(const char*)'),
    Contract('w_asl', s_as(lo), e_as, t_as, api='as_lowercase'), Contract('w_asu', s_as(up), e_as, t_as, api='as_uppercase'),
    Contract('w_ttnew', s_new, e_new, t_new, may_throw=True, on_throw=ot_new, api='translation_table'),
    Contract('w_ttc', s_ttop, e_ttop, api='translation_table(char)'), Contract('w_ttu', s_ttop, e_ttop, api='translation_table(unsigned char)'),
    Contract('w_tr', s_tr, e_as, t_as, api='translate'), Contract('w_tri', s_tri, e_each, before, api='translate_inplace')]
# ---- pattern replacement: s has n characters, pattern p, replacement r (each below 2 GiB)
# NEXT(k): first place from k on where it occurs (n when there is none);
# E(i): place of the i-th match, each search starting behind the previous match; W(i) = n + i*(r-p); O(i) = E(i)+W(i)-n its place in the result;
# CNT: number of matches (least index with E = n; exists for p > 0 because E grows)
LIM = (1 << 31) - 1
def zi(t): return z3.IntVal(t) if isint(t) else t
def pattern(c, hand, mono=True):
    n, p, r = c.n, c.p, c.rl
    N = c.x.ufun('NEXT', 1); E = c.x.ufun('E', 1); W = c.x.ufun('W', 1)
    c.N, c.E, c.W = (lambda k: N(zi(S(k)))), (lambda k: E(zi(S(k)))), (lambda k: W(zi(S(k))))
    if hand:
        # M(k, j): the first j characters of the pattern are at k
        M0 = c.x.ufun('M', 2, z3.BoolSort()); M = c.M = lambda k, j: M0(zi(S(k)), zi(S(j)))
        step = lambda k, j: Eq(M(k, j + 1), And(M(k, j), k + j < n, Eq(c.Sm(S(k + j)), c.Pm(j))))
        c.axiom(M0, lambda k, j: Implies(And(k >= 0, k <= n, j >= 0, j <= p), And(Implies(Eq(j, 0), M(k, j)), Implies(j < p, step(k, j)), Implies(M(k, p), M(k, j)), Implies(M(k, j), k + j <= n))), fuel=2)   # last two: lemma_prefix
        c.axiom(N, lambda k: Implies(And(k >= 0, k <= n, p > 0), Eq(N(k), Ite(Eq(k, n), n, Ite(M(k, p), k, c.N(k + 1))))), fuel=2)
    c.axiom(N, lambda k: Implies(And(k >= 0, k <= n), Or(Eq(N(k), n), And(N(k) >= k, N(k) + p <= n, N(k) < n))), fuel=3)
    c.inc = S(r - p); K = c.K = c.dom.fresh_term('CNT')
    c.axiom(W, lambda i: Implies(i >= 0, Eq(W(i), Ite(Eq(i, 0), n, c.W(i - 1) + c.inc))), fuel=2)
    c.O = lambda i: S(c.E(i) + c.W(i) - n)
    c.G = lambda i: S(Ite(Eq(i, 0), 0, c.E(i - 1) + p))                 # where the text before match i starts
    c.def_E = lambda i: And(Implies(And(i >= 0, p > 0), Eq(E(i), Ite(Eq(i, 0), c.N(0), Ite(c.E(i - 1) < n, c.N(c.E(i - 1) + p), n)))), Implies(And(i >= 0, i < K, p > 0), And(E(i) >= c.G(i), E(i) + p <= n, E(i) < n, E(i) >= i if mono else True)))
    c.axiom(E, c.def_E, fuel=2)
    if mono: c.assume(Implies(p > 0, K <= n))
    c.assume(Implies(p > 0, And(K >= 0, Eq(c.E(K), n))))
    if not mono: return
    # an arbitrary match I < CNT, a place J in the replacement; an arbitrary stretch H <= CNT, a place L in it; an arbitrary place Q of the text
    c.I, c.J, c.H, c.L, c.Q = [c.dom.fresh_term(k) for k in 'IJHLQ']
    c.isI = And(p > 0, c.I >= 0, c.I < K, c.J >= 0, c.J < r); c.isH = And(p > 0, c.H >= 0, c.H <= K, c.L >= 0, c.L < S(c.E(c.H) - c.G(c.H)))
    c.assume(And(c.Q >= 0, c.Q < n))
    after = lambda i, j: Implies(And(p > 0, i >= 0, i < j, j <= K), And(c.E(i) + p <= c.E(j), c.O(i) + r <= S(c.O(j) - c.E(j) + c.G(j)), c.O(i) >= 0))     # lemma_order
    c.axiom(E, lambda i: And([after(q, i) for q in (c.I, c.H)] + [after(i, q) for q in (c.I, c.H, K)]), fuel=2)
def order_lemma(c):
    """matches do not overlap, in the text and in the result: induction on the later of two matches"""
    for k, a in (('n', 'n'), ('p', 'p'), ('rl', 'r')): setattr(c, k, c.size(a, LIM))
    c.assume(c.p > 0); pattern(c, False, mono=False)
    i, j = c.dom.fresh_term('i'), c.dom.fresh_term('j')
    P = lambda j: And(c.E(i) + c.p <= c.E(j), c.O(i) + c.rl <= S(c.O(j) - c.E(j) + c.G(j)))
    c.ensure('base', Implies(And(i >= 0, i + 1 <= c.K), P(S(i + 1))))
    c.ensure('step', Implies(And(i >= 0, i < j, j + 1 <= c.K, P(j)), P(S(j + 1))))
    c.ensure('at least one character each (base)', Implies(c.K > 0, c.E(0) >= 0)); c.ensure('at least one character each (step)', Implies(And(j >= 0, j + 1 < c.K, c.E(j) >= j), c.E(j + 1) >= j + 1)); c.ensure('at most as many matches as characters', Implies(And(c.K > 0, c.E(c.K - 1) >= c.K - 1), c.K <= c.n))
    c.ensure('first', Implies(c.K >= 0, c.O(0) >= 0)); c.ensure('later', Implies(And(j >= 0, j < c.K, c.O(j) >= 0), c.O(j + 1) >= 0))
def product_lemma(c):
    """W(i) = n + i*(r-p)"""
    n, p, r = [c.size(k, LIM) for k in 'npr']; W = c.x.ufun('W', 1); i = c.dom.fresh_term('i')
    step = lambda i: Implies(i >= 0, Eq(W(zi(S(i))), Ite(Eq(i, 0), n, W(zi(S(i - 1))) + r - p)))
    c.assume(And(step(0), step(i), step(S(i + 1))))
    c.ensure('base', Eq(W(z3.IntVal(0)), n + 0 * (r - p))); c.ensure('step', Implies(And(i >= 0, Eq(W(i), n + i * (r - p))), Eq(W(zi(S(i + 1))), n + (i + 1) * (r - p))))
    c.ensure('equal lengths', Implies(And(i >= 0, Eq(W(i), n + i * (r - p)), Eq(r, p)), Eq(W(i), n)))
def product(c, i): c.assume(Implies(i >= 0, And(Eq(c.W(i), c.n + i * c.inc), Implies(Eq(c.inc, 0), Eq(c.W(i), c.n)))))       # lemma_product
def s_rpat(c):
    a, c.sr, c.n = c.string('s', c.size('n', LIM), const=True); b, c.pr, c.p = c.string('p', c.size('p', LIM), const=True); d, c.rr, c.rl = c.string('r', c.size('r', LIM), const=True)
    c.Sm, c.Pm, c.Rm = [c.mem(q).read for q in (c.sr, c.pr, c.rr)]
    c.o, c.nr, _ = c.string('out')
    pattern(c, False); product(c, c.K); product(c, c.I); product(c, c.H)
    c.assume(Implies(c.p > 0, c.W(c.K) <= 1 << 40))
    c.assume(Implies(And(c.p > 0, Eq(c.p, c.rl)), Eq(c.Sm(S(c.E(c.I) + c.J)), c.Pm(c.J))))     # E(I) is a place where the pattern occurs
    return [a, b, d, c.o]
def h_find(x, st, ins, a):
    c = x.contract.c
    st_, sp = models.sbuf(x, st, a[0]), models.sbuf(x, st, a[1]); k = x.dom.u(a[2])
    x.oblige('post', st_ == c.sr and sp == c.pr, 'the pattern is searched in the text')
    x.oblige('post', S(k <= c.n), 'search starts inside the text')
    for r in st.mem.values():
        if r.kind == 'array' and r.es == 8: x.assume(c.def_E(zi(c.div(r.size, 8))))     # instance of the definition of E
    return x.dom.mk(64, S(Ite(Eq(c.N(k), c.n), (1 << 64) - 1, c.N(k))), 0, (1 << 64) - 1)
RS = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE6resizeEmc'
def h_resize(x, st, ins, a):
    c = x.contract.c; n = x.dom.u(a[1])
    x.oblige('post', S(Eq(n, c.W(c.K))), 'room for exactly the result')
    return models.lookup(RS)(x, st, ins, [a[0], c.iv(64, c.W(c.K), 0, 1 << 40), a[2]])
HF = {RS: h_resize, '_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE4findERKS4_m': h_find}
def done_I(c, m): return Eq(m.read(S(c.O(c.I) + c.J)), c.Rm(c.J))
def done_H(c, m): return Eq(m.read(S(c.O(c.H) - c.E(c.H) + c.G(c.H) + c.L)), c.Sm(S(c.G(c.H) + c.L)))
def e_rpat(c, st, rv):
    r, n = c.strbuf(st, c.o); m = c.mem(r, st); e = Eq(c.p, 0)
    c.ensure('pattern empty: the text itself', Implies(e, And(Eq(n, c.n), Eq(m.read(c.Q), c.Sm(c.Q)))))
    c.ensure('length of the result', Implies(Not(e), Eq(n, c.W(c.K))))
    c.ensure('each match is replaced', Implies(c.isI, done_I(c, m)))
    c.ensure('the text between the matches is kept', Implies(c.isH, done_H(c, m)))
def consts(t, acc):
    if isint(t): return acc
    if z3.is_const(t):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(t.decl().name())
    else:
        for q in t.children(): consts(q, acc)
    return acc
def index(c, b, b0):
    """candidate match counters (name, value): what is zero or a single value at loop entry, not a length"""
    L = []
    def ok(k):
        v = b0.vals.get(k) if hasattr(b0, 'vals') else None
        if v is None: return True
        s = consts(c.u(v), set()); return len(s) <= 1 and not s & {q.decl().name() for q in (c.n, c.p, c.rl) if not isint(q)}
    for k, v in b.vals.items():
        if isinstance(v, IV) and v.w == 64 and k != 'ghost:g' and ok(k):
            if k.startswith('size:'): L.append(('%s/8' % k, lambda b, k=k: c.div(c.u(b[k]), 8)))
            else: L += [(k, lambda b, k=k: c.u(b[k])), ('CNT-%s' % k, lambda b, k=k: S(c.K - c.u(b[k])))]
    return L
def t_rpat(c, st0, st, b, b0):
    L = []; ix = index(c, b, b0)
    vec = [r for r in st.mem if st.mem[r].kind == 'array' and st.mem[r].es == 8]
    for nm, i in ix:
        L.append(Cand('%s at most CNT' % nm, lambda b, i=i: And(i(b) >= 0, i(b) <= c.K)))
        L.append(Cand('%s below CNT' % nm, lambda b, i=i: And(i(b) >= 0, i(b) < c.K)))
        for v in vec: L.append(Cand('places of the first %s matches' % nm, forall=(v, lambda j, b, i=i: And(j >= 0, j < i(b)), lambda j, b: c.E(j))))
        for k, v in b.vals.items():
            if isinstance(v, IV) and v.w == 64:
                L.append(Cand('%s is behind match %s' % (k, nm), lambda b, i=i, k=k: Eq(c.u(b[k]), c.G(i(b)))))
                L.append(Cand('%s is the stretch before match %s' % (k, nm), lambda b, i=i, k=k: Eq(c.u(b[k]), S(c.E(i(b)) - c.G(i(b))))))
            if isinstance(v, Ptr) and v.r == c.sr: L.append(Cand('%s is behind match %s' % (k, nm), lambda b, i=i, k=k: Eq(b[k].o, c.G(i(b)))))
            if isinstance(v, Ptr) and v.r == c.nr:
                L.append(Cand('%s is where stretch %s goes' % (k, nm), lambda b, i=i, k=k: Eq(b[k].o, S(c.O(i(b)) - c.E(i(b)) + c.G(i(b))))))
                L.append(Cand('matches before %s are replaced' % nm, lambda b, i=i: Implies(And(c.isI, c.I < i(b)), done_I(c, b.st.mem[c.nr].mem))))
                L.append(Cand('stretches before %s are kept' % nm, lambda b, i=i: Implies(And(c.isH, c.H < i(b)), done_H(c, b.st.mem[c.nr].mem))))
    return L
def prefix_lemma(c):
    """an occurrence of the pattern begins with every prefix of it, and lies in the text"""
    n, p = c.size('n', LIM), c.size('p', LIM); M = z3.Function('M', z3.IntSort(), z3.BoolSort()); ag = z3.Function('agree', z3.IntSort(), z3.BoolSort())
    j, k = z3.Int('j'), z3.Int('k'); c.assume(And(j >= 0, j < p, k >= 0, k <= n)); c.assume(M(0)); c.assume(Eq(M(j + 1), And(M(j), k + j < n, ag(j))))
    c.ensure('base', Implies(M(p), M(p))); c.ensure('step (from j+1 down to j)', Implies(Implies(M(p), M(j + 1)), Implies(M(p), M(j))))
    c.ensure('inside the text', Implies(Implies(M(j), k + j <= n), Implies(M(j + 1), k + j + 1 <= n)))
def s_it(hook):
    def f(c):
        P = []
        for nm, at, mt in (('s', 'n', 'Sm'), ('p', 'p', 'Pm'), ('r', 'rl', 'Rm')):
            n = c.size(at, LIM); setattr(c, at, n); b = c.buf(nm, n, const=True); setattr(c, mt, c.mem(b.r).read); P += [b, Ptr(b.r, n)]; setattr(c, nm + 'r', b.r)
        c.nr = 'out'
        pattern(c, True); product(c, c.K); product(c, c.I); product(c, c.H)
        c.assume(Implies(And(c.p > 0, Eq(c.p, c.rl), c.isI), Eq(c.Sm(S(c.E(c.I) + c.J)), c.Pm(c.J))))     # E(I) is a place where the pattern occurs
        if hook: c.st.ghost['g'] = 0
        else:
            sz = S(Ite(Eq(c.p, 0), c.n, c.W(c.K))); c.assume(And(sz >= 0, sz <= 1 << 40)); P.append(c.buf('out', sz))
        c.hook = hook
        return P
    return f
def h_put(x, st, ins, a):
    c = x.contract.c; g = st.ghost['g']; ch = c.u(a[0])
    x.modify(st, ('ghost', 'g')); st.ghost['g'] = S(g + 1)
    if x.dry: return None
    x.oblige('post', S(And(Implies(Eq(c.p, 0), And(g < c.n, Eq(ch, c.Sm(g)))), Implies(c.p > 0, g < c.W(c.K)), Implies(And(c.isI, Eq(g, S(c.O(c.I) + c.J))), Eq(ch, c.Rm(c.J))),
        Implies(And(c.isH, Eq(g, S(c.O(c.H) - c.E(c.H) + c.G(c.H) + c.L))), Eq(ch, c.Sm(S(c.G(c.H) + c.L)))))), 'the next character of the result is written')
def e_it(c, st, rv):
    e = Eq(c.p, 0); L = S(Ite(e, c.n, c.W(c.K)))
    c.ensure('returns the length of the result', Eq(c.u(rv), L))
    if c.hook: c.ensure('all of the result is written', Eq(st.ghost['g'], L)); return
    m = c.mem('out', st)
    c.ensure('pattern empty: the text itself', Implies(e, Eq(m.read(c.Q), c.Sm(c.Q))))
    c.ensure('each match is replaced', Implies(c.isI, done_I(c, m)))
    c.ensure('the text between the matches is kept', Implies(c.isH, done_H(c, m)))
def t_it(c, st0, st, b, b0):
    L = t_rpat(c, st0, st, b, b0) if not c.hook else []
    for nm, i in index(c, b, b0):
        if c.hook: L.append(Cand('%s at most CNT' % nm, lambda b, i=i: And(i(b) >= 0, i(b) <= c.K)))
        for k, v in b.vals.items():
            if isinstance(v, Ptr) and v.r == c.sr:
                L.append(Cand('match %s is the next from %s on' % (nm, k), lambda b, i=i, k=k: And(Eq(c.E(i(b)), c.N(b[k].o)), b[k].o >= c.G(i(b)))))
                if c.hook: L.append(Cand('%s is behind match %s' % (k, nm), lambda b, i=i, k=k: Eq(b[k].o, c.G(i(b)))))
            if isinstance(v, IV) and v.w == 64:
                L.append(Cand('%s is the length after %s matches' % (k, nm), lambda b, i=i, k=k: Eq(c.u(b[k]), c.W(i(b)))))
                if c.hook: L.append(Cand('%s is behind match %s' % (k, nm), lambda b, i=i, k=k: Eq(c.u(b[k]), c.G(i(b)))))
        if c.hook: L.append(Cand('all before stretch %s is written' % nm, lambda b, i=i: Eq(b.st.ghost['g'], S(c.O(i(b)) - c.E(i(b)) + c.G(i(b))))))
    starts = [(k, (lambda b, v=v: v.o)) for k, v in st.env.items() if k not in b.vals and isinstance(v, Ptr) and v.r == c.sr and k not in [n for _, n in c.x.fn.params]]
    ps = [k for k, v in b.vals.items() if isinstance(v, Ptr) and v.r == c.pr]; ss = [k for k, v in b.vals.items() if isinstance(v, Ptr) and v.r == c.sr]
    for q, o in starts:
        for k in ps:
            L.append(Cand('%s characters agree at %s' % (k, q), lambda b, k=k, o=o: c.M(o(b), b[k].o)))
            for t in ss: L.append(Cand('%s is %s behind %s' % (t, k, q), lambda b, k=k, o=o, t=t: Eq(b[t].o, o(b) + b[k].o)))
    return L
CONTRACTS += [Lemma('lemma_prefix', prefix_lemma, api='occurrences and prefixes'), Lemma('lemma_order', order_lemma, api='matches do not overlap'), Lemma('lemma_product', product_lemma, api='length change of i replacements'),
    Contract('w_rpat', s_rpat, e_rpat, t_rpat, hooks=HF, opts=dict(cand_timeout=12000), weight=5, api='replace_pattern(string)')]

CONTRACTS += [Contract('w_rpitp', s_it(False), e_it, t_it, opts=dict(cand_timeout=12000), weight=9, api='replace_pattern(iterators, char*)')]
CONTRACTS += [Contract('w_rpith', s_it(True), e_it, t_it, hooks={'hook_put': h_put}, opts=dict(cand_timeout=12000), weight=9, api='replace_pattern(iterators, output iterator)')]

# ---- remove_pattern: replace_pattern with the empty replacement, which is a function-local static: verified for the call that constructs it and for every later call (it is the empty string then: nothing but its constructor writes it)
def statics(c, pre): return [g for g in c.x.mod.globals if g.startswith(pre) and 'remove_pattern' in g]
def s_rem(later):
    def f(c):
        a, c.sr, c.n = c.string('s', c.size('n', LIM), const=True); b, c.pr, c.p = c.string('p', c.size('p', LIM), const=True)
        c.rl = 0; c.Sm, c.Pm = [c.mem(q).read for q in (c.sr, c.pr)]; c.Rm = lambda j: -1
        c.o, c.nr, _ = c.string('out')
        for g in statics(c, '_ZGV'):
            r = c.x.glob_region(c.st, g); c.st.mem[r].cells[0] = (1, IV(8, int(later), int(later), int(later)))
        for g in statics(c, '_ZZN') if later else []:
            t, rr, _ = c.string('r', 0, const=True); c.st.mem[c.x.glob_region(c.st, g)].cells[0] = (8, Ptr(rr, 0))
        pattern(c, False); product(c, c.K); product(c, c.H)
        c.assume(Implies(c.p > 0, c.W(c.K) <= 1 << 40))
        return [a, b, c.o]
    return f
def e_rem(c, st, rv):
    e_rpat(c, st, rv)
    for g in statics(c, '_ZZN'):
        r = c.x.glob_region(st, g); c.ensure('the shared replacement stays empty', Eq(models.slen(c.x, st, Ptr(r, 0)), 0))
HREM = dict(HF); HREM['__cxa_atexit'] = lambda x, st, ins, a: x.dom.mk(32, 0, 0, 0)
CONTRACTS += [Contract('w_rem', s_rem(l), e_rem, t_rpat, hooks=HREM, api='remove_pattern (%s call)' % ('later' if l else 'first')) for l in (0, 1)]
