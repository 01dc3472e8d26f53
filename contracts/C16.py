"""C16 sequence summaries and generators: duplicates, extremes, canonical rotation, first unique character, counting fills, repetition, interval insertion."""
from common import *
ROT = r'_ZNSt3_V26rotateI.*'
NOINLINE = [ROT]
LIM = 1 << 40
def zi(t): return z3.IntVal(t) if isint(t) else t
def sgn(v, w): return S(Ite(v >= 1 << (w - 1), v - (1 << w), v))
def seq(c, w, const=True, signed=True, n=None, nm='t'):
    es = w // 8; c.n = c.size('n') if n is None else n; c.es = es; c.w = w
    p = c.buf(nm, S(es * c.n), es, const=const); c.r = p.r; m = c.mem(c.r).read
    c.A = (lambda i: sgn(m(S(i)), w)) if signed else (lambda i: m(S(i)))
    return [p, Ptr(p.r, S(es * c.n))]
def positions(c, b): return [(k, (lambda b, k=k: b[k].o if c.es == 1 else c.div(b[k].o, c.es))) for k, v in b.vals.items() if isinstance(v, Ptr) and v.r == c.r]
def ints(c, b, w=64): return [k for k, v in b.vals.items() if isinstance(v, IV) and v.w == w]
# ---- consecutive duplicates
def s_cd(w):
    def f(c):
        a = seq(c, w); F = c.x.ufun('DUP', 1)
        c.axiom(F, lambda i: Implies(And(i >= 0, i <= c.n), And(Eq(F(i), Ite(i <= 1, 0, F(zi(S(i - 1))) + Ite(Eq(c.A(i - 1), c.A(i - 2)), 1, 0))), F(i) >= 0, F(i) <= i)), fuel=2); c.F = lambda i: F(zi(S(i)))
        return a
    return f
def cd_lemma(c):
    """at most one per element: induction"""
    i, f, g = [c.dom.fresh_term(k) for k in 'ifg']; c.ensure('step', Implies(And(i >= 0, f >= 0, f <= i, Or(Eq(g, 0), Eq(g, f), Eq(g, f + 1))), And(g >= 0, g <= i + 1)))
def t_cd(c, st0, st, b, b0):
    L = []
    for p, o in positions(c, b):
        L.append(Cand('%s+1 within' % p, lambda b, o=o: o(b) + 1 <= c.n))
        for k in ints(c, b):
            for d in (0, 1): L.append(Cand('%s duplicates up to %s+%d' % (k, p, d), lambda b, k=k, o=o, d=d: Eq(c.u(b[k]), c.F(o(b) + d))))
        for q, o2 in positions(c, b):
            if q != p:
                for d in (0, 1): L.append(Cand('element at %s equals the one at %s+%d' % (q, p, d), lambda b, o=o, o2=o2, d=d: Implies(o(b) + d < c.n, Eq(c.A(o2(b)), c.A(o(b) + d)))))
    return L
def e_cd(c, st, rv): c.ensure('number of elements equal to their predecessor', Eq(c.u(rv), c.F(c.n)))
# ---- extremes
def s_mm(w, signed):
    def f(c):
        a = seq(c, w, signed=signed); c.assume(c.n >= 1); es = w // 8; c.signed = signed
        for nm, f in (('MIN', lambda x, y: Ite(x < y, x, y)), ('MAX', lambda x, y: Ite(x > y, x, y))):
            F = c.x.ufun(nm, 1)
            c.axiom(F, lambda i, F=F, f=f: Implies(And(i >= 1, i <= c.n), Eq(F(i), Ite(Eq(i, 1), c.A(0), f(F(zi(S(i - 1))), c.A(i - 1))))), fuel=2); setattr(c, nm, lambda i, F=F: F(zi(S(i))))
        c.lo, c.hi = c.buf('lo', es, es), c.buf('hi', es, es)
        return a + [c.lo, c.hi]
    return f
def val(c, st, p): v = c.mem(p.r, st).read(0); return sgn(v, c.w) if c.signed else v
def t_mm(c, st0, st, b, b0):
    L = []
    for p, o in positions(c, b):
        for q, F in ((c.lo, c.MIN), (c.hi, c.MAX)):
            for d in (0, 1): L.append(Cand('%s extreme of the elements before %s+%d' % (q.r, p, d), lambda b, q=q, F=F, o=o, d=d: Implies(And(o(b) + d >= 1, o(b) + d <= c.n), Eq(val(c, b.st, q), F(o(b) + d)))))
        L.append(Cand('%s+1 within' % p, lambda b, o=o: o(b) + 1 <= c.n))
    return L
def e_mm(c, st, rv):
    c.ensure('smallest element', Eq(val(c, st, c.lo), c.MIN(c.n))); c.ensure('largest element', Eq(val(c, st, c.hi), c.MAX(c.n)))
# ---- first character that occurs once.  L(i, v): how v occurs among the first i characters: NO = not at all, RE = repeatedly, otherwise its only place
NO, RE = (1 << 64) - 1, (1 << 64) - 2
def s_fn(kind):
    def f(c):
        if kind == 's': p, c.r, c.n = c.string('t', const=True); a = [p]; c.es = 1; m = c.mem(c.r).read; c.A = m
        else: a = seq(c, 8, signed=False)
        F = c.x.ufun('OCC', 2); c.F = lambda i, v: F(zi(S(i)), zi(S(v)))
        c.axiom(F, lambda i, v: Implies(And(i >= 0, i <= c.n), And(Eq(F(i, v), Ite(Eq(i, 0), NO, Ite(Eq(c.A(i - 1), v), Ite(Eq(c.F(i - 1, v), NO), i - 1, RE), c.F(i - 1, v)))), only(c, F, i, v))), fuel=2)
        c.K = c.dom.fresh_term('K'); c.assume(And(c.K >= 0, c.K < c.n))     # any place holding a character that occurs only there
        c.k = c.A(c.K); c.uniq = Eq(c.F(c.n, c.k), c.K)
        return a
    return f
def only(c, F, i, v): return Or(Eq(F(i, v), NO), Eq(F(i, v), RE), And(F(i, v) >= 0, F(i, v) < i, Eq(c.A(F(i, v)), v)))
def fn_lemma(c):
    """a character's recorded place holds it: induction on the number of characters"""
    c.n = c.size('n'); p = c.buf('t', c.n, const=True); c.A = c.mem('t').read; F = c.x.ufun('OCC', 2); i, v = c.dom.fresh_term('i'), c.dom.fresh_term('v')
    d = lambda i: Implies(And(i >= 0, i <= c.n), Eq(F(i, v), Ite(Eq(i, 0), NO, Ite(Eq(c.A(i - 1), v), Ite(Eq(F(S(i - 1), v), NO), i - 1, RE), F(S(i - 1), v)))))
    c.assume(And(i >= 0, i < c.n)); c.assume(d(S(i + 1))); c.assume(d(z3.IntVal(0)))
    c.ensure('base', only(c, F, z3.IntVal(0), v)); c.ensure('step', Implies(only(c, F, i, v), only(c, F, S(i + 1), v)))
def t_fn(c, st0, st, b, b0):
    L = []
    tabs = [r for r in st.mem if st.mem[r].kind == 'array' and st.mem[r].es == 8]
    for k in ints(c, b):
        for r in tabs:
            L.append(Cand('table %s after %s characters' % (r, k), forall=(r, lambda j, b: And(j >= 0, j < 256), lambda j, b, k=k: c.F(c.u(b[k]), j))))
            L.append(Cand('table %s filled before %s' % (r, k), forall=(r, lambda j, b, k=k: And(j >= 0, j < c.u(b[k])), lambda j, b: NO)))
        for p, o in positions(c, b): L.append(Cand('%s counts %s' % (k, p), lambda b, o=o, k=k: Eq(c.u(b[k]), o(b))))
        L.append(Cand('%s at most 256' % k, lambda b, k=k: c.u(b[k]) <= 256))
        L.append(Cand('%s is a place holding a unique character, or none' % k, lambda b, k=k: Or(Eq(c.u(b[k]), RE), And(c.u(b[k]) >= 0, c.u(b[k]) < c.n, Eq(c.F(c.n, c.A(c.u(b[k]))), c.u(b[k]))))))
        for q in ints(c, b):
            if q != k: L.append(Cand('%s is not after the unique character if %s has passed it' % (k, q), lambda b, k=k, q=q: Implies(And(c.uniq, c.k < c.u(b[q])), c.u(b[k]) <= c.K)))
    for r in tabs:
        for k, v in b.vals.items():
            if isinstance(v, Ptr) and v.r == r: L.append(Cand('%s filled before %s' % (r, k), forall=(r, lambda j, b, k=k: And(j >= 0, 8 * j < b[k].o), lambda j, b: NO)))
    return L
def e_fn(kind):
    def f(c, st, rv):
        if kind == 's': P = c.u(rv); none = Eq(P, NO)
        else: c.ensure('points into the range', rv.r == c.r); P = rv.o; none = Eq(P, c.n)
        c.ensure('the place found holds a character occurring only there', Or(none, And(P >= 0, P < c.n, Eq(c.F(c.n, c.A(P)), P))))
        c.ensure('none before it does', Implies(c.uniq, And(Not(none), P <= c.K)))
    return f
# ---- counting fills
def s_io(signed):
    def f(c):
        a = seq(c, 32, const=False, signed=signed); v = c.int('v', 32); c.V = c.s(v) if signed else c.u(v)
        if signed: c.assume(c.V + c.n <= (1 << 31) - 1)     # value++ stays an int
        c.signed = signed; c.old = c.mem(c.r)
        return a + [v]
    return f
def io_want(c): return lambda j: c.mod(S(c.V + j), 1 << 32)
def t_io(c, st0, st, b, b0):
    L = []
    for p, o in positions(c, b):
        L.append(Cand('filled before %s' % p, forall=(c.r, lambda j, b, o=o: And(j >= 0, j < o(b)), lambda j, b: io_want(c)(j))))
        for k in ints(c, b, 32): L.append(Cand('%s is the next value at %s' % (k, p), lambda b, k=k, o=o: Eq(c.u(b[k]), c.mod(S(c.V + o(b)), 1 << 32))))
    return L
def e_io(c, st, rv): c.ensure_mem('element i is the start value plus i', st, c.r, lambda j: And(j >= 0, j < c.n), io_want(c))
def s_ioo(c):
    c.nn = c.int('n', 64); v = c.int('v', 32); c.n = c.u(c.nn); c.V = c.s(v); c.assume(c.V + c.n <= (1 << 31) - 1); c.st.ghost['g'] = 0
    return [c.nn, v]
def h_out(x, st, ins, a):
    c = x.contract.c; g = st.ghost['g']; x.modify(st, ('ghost', 'g')); st.ghost['g'] = S(g + 1)
    if not x.dry: x.oblige('post', S(And(g < c.n, Eq(c.s(a[0]), c.V + g))), 'the next value is written')
def t_ioo(c, st0, st, b, b0):
    L = []; G = lambda b: b.st.ghost['g']
    for k in ints(c, b): L += [Cand('%s values remain' % k, lambda b, k=k: Eq(c.u(b[k]), c.n - G(b))), Cand('%s values written' % k, lambda b, k=k: Eq(c.u(b[k]), G(b)))]
    for k in ints(c, b, 32): L.append(Cand('%s is the next value' % k, lambda b, k=k: Eq(c.s(b[k]), c.V + G(b))))
    return L
def e_ioo(c, st, rv): c.ensure('all values are written', Eq(st.ghost['g'], c.n))
# ---- repetition. copy I, place J in it; W(i) = length after i copies
def s_rp(kind):
    def f(c):
        c.nn = c.int('n', 64); c.n = c.u(c.nn); s, c.r, c.l = c.string('s', const=kind != 'i'); c.A = c.mem(c.r).read
        c.kind = kind
        if kind == 'o': o, c.q, c.l0 = c.string('o'); c.B = c.mem(c.q).read; args = [c.nn, s, o]; c.o = o
        elif kind == 'n': c.o = c.obj('out', 32); c.l0 = 0; args = [c.o, c.nn, s]; c.B = None
        else: c.o = s; c.l0 = c.l; c.B = c.A; args = [c.nn, s]
        W = c.x.ufun('W', 1); c.W = lambda i: W(zi(S(i)))
        c.I, c.J, c.Q = [c.dom.fresh_term(k) for k in 'IJQ']; c.ok = And(c.I >= 0, c.I < c.n, c.J >= 0, c.J < c.l); c.okQ = And(c.Q >= 0, c.Q < c.l0)
        c.axiom(W, lambda i: Implies(And(i >= 0, i <= c.n), And(Eq(W(i), Ite(Eq(i, 0), c.l0, c.W(i - 1) + c.l)), Implies(i > c.I, c.W(c.I) + c.l <= W(i)), W(i) >= c.l0)), fuel=2)   # lemma_copies
        c.assume(c.W(c.n) <= 1 << 40); c.assume(c.n * c.l <= 1 << 40); c.assume(c.n <= 1 << 40)
        return args
    return f
def rp_lemma(c):
    """copies lie behind one another"""
    l, l0 = c.size('l'), c.size('l0'); W = c.x.ufun('W', 1); i, k = c.dom.fresh_term('i'), c.dom.fresh_term('I'); c.assume(And(i >= 0, k >= 0))
    for t in (z3.IntVal(0), S(i + 1), S(k + 1)): c.assume(Implies(t >= 0, Eq(W(t), Ite(Eq(t, 0), l0, W(zi(S(t - 1))) + l))))
    c.ensure('base', W(k) + l <= W(zi(S(k + 1)))); c.ensure('step', Implies(W(k) + l <= W(i), W(k) + l <= W(zi(S(i + 1))))); c.ensure('lower bound', And(W(z3.IntVal(0)) >= l0, Implies(W(i) >= l0, W(zi(S(i + 1))) >= l0)))
def res(c, st): return models.sbuf(c.x, st, c.o)
def t_rp(c, st0, st, b, b0):
    L = []; r = res(c, st)
    for k in ints(c, b):
        L.append(Cand('%s copies at most' % k, lambda b, k=k: c.u(b[k]) <= c.n))
        for nm, v in (('%s' % k, lambda b, k=k: c.u(b[k])), ('n-%s' % k, lambda b, k=k: c.n - c.u(b[k]))):
            if k.startswith('size:'): continue
            L.append(Cand('length after %s copies' % nm, lambda b, v=v: Eq(S(b.st.mem[res(c, b.st)].size - 1), c.W(v(b)))))
            L.append(Cand('copies before %s are there' % nm, lambda b, v=v: Implies(And(c.ok, c.I < v(b)), Eq(b.st.mem[res(c, b.st)].mem.read(S(c.W(c.I) + c.J)), c.A(c.J)))))
    if c.B: L.append(Cand('old text kept', lambda b: Implies(c.okQ, Eq(b.st.mem[res(c, b.st)].mem.read(c.Q), c.B(c.Q)))))
    return L
def e_rp(c, st, rv):
    r, n = c.strbuf(st, c.o); m = c.mem(r, st).read
    c.ensure('length', Eq(n, c.W(c.n))); c.ensure('every copy is the text', Implies(c.ok, Eq(m(S(c.W(c.I) + c.J)), c.A(c.J))))
    if c.B: c.ensure('the text before is kept', Implies(c.okQ, Eq(m(c.Q), c.B(c.Q))))
# ---- a value after every k elements. R(i): elements since the last insertion before element i, X(i): insertions before element i
def s_ins(c):
    c.kk = c.int('k', 64); c.k = c.u(c.kk); c.t = c.int('t', 8); a = seq(c, 8); c.assume(And(c.k >= 1, c.k <= 1 << 62))
    R, X = c.x.ufun('R', 1), c.x.ufun('X', 1); c.R, c.X = (lambda i: R(zi(S(i)))), (lambda i: X(zi(S(i))))
    c.axiom(R, lambda i: Implies(And(i >= 0, i <= c.n), And(Eq(R(i), Ite(Eq(i, 0), 0, Ite(Eq(c.R(i - 1) + 1, c.k), 0, c.R(i - 1) + 1))), R(i) >= 0, R(i) < c.k)), fuel=2)
    c.axiom(X, lambda i: Implies(And(i >= 0, i <= c.n), And(Eq(X(i), Ite(Eq(i, 0), 0, c.X(i - 1) + Ite(Eq(c.R(i), 0), 1, 0))), X(i) >= 0, X(i) <= i)), fuel=2)
    c.st.ghost['i'] = 0; c.st.ghost['d'] = 0      # elements written, 1 when an insertion is due
    return [c.kk, c.t] + a
def ins_lemma(c):
    """bounds of R and X: induction"""
    k, i = c.size('k'), c.dom.fresh_term('i'); r, x = c.dom.fresh_term('R'), c.dom.fresh_term('X'); c.assume(And(k >= 1, i >= 0)); nr = Ite(Eq(r + 1, k), 0, r + 1)
    c.ensure('step', Implies(And(r >= 0, r < k, x >= 0, x <= i), And(nr >= 0, nr < k, x + Ite(Eq(nr, 0), 1, 0) >= 0, x + Ite(Eq(nr, 0), 1, 0) <= i + 1)))
def h_ins(x, st, ins, a):
    c = x.contract.c; i, d = st.ghost['i'], st.ghost['d']; x.modify(st, ('ghost', 'i')); x.modify(st, ('ghost', 'd')); due = Eq(d, 1)
    if not x.dry: x.oblige('post', S(Ite(due, Eq(c.u(a[0]), c.u(c.t)), And(i < c.n, Eq(c.s(a[0]), c.A(i))))), 'the next element, or the inserted value when it is due')
    st.ghost['i'] = S(Ite(due, i, i + 1)); st.ghost['d'] = S(Ite(due, 0, Ite(Eq(c.R(S(i + 1)), 0), 1, 0)))
def t_ins(c, st0, st, b, b0):
    L = [Cand('nothing due', lambda b: Eq(b.st.ghost['d'], 0))]; I = lambda b: b.st.ghost['i']
    for p, o in positions(c, b):
        L.append(Cand('elements written before %s' % p, lambda b, o=o: Eq(I(b), o(b))))
        for k in ints(c, b):
            L.append(Cand('%s written at %s' % (k, p), lambda b, k=k, o=o: Eq(c.u(b[k]), o(b) + c.X(o(b)))))
            L.append(Cand('%s since the last insertion at %s' % (k, p), lambda b, k=k, o=o: Eq(c.u(b[k]), c.R(o(b)))))
    return L
def e_ins(c, st, rv):
    c.ensure('all elements and insertions are written', And(Eq(st.ghost['i'], c.n), Eq(st.ghost['d'], 0))); c.ensure('their number is returned', Eq(c.u(rv), c.n + c.X(c.n)))
# ---- canonical rotation. C(i, j, t): order (-1, 0, 1) of the first t elements of the rotations starting at i and j
def cyc(c, i, t): return S(Ite(i + t < c.n, i + t, i + t - c.n))
def cmpv(x, y): return Ite(x < y, -1, Ite(x > y, 1, 0))
def defC(c, C): return lambda i, j, t: Implies(And(t >= 0, t <= c.n, i >= 0, i < c.n, j >= 0, j < c.n), Eq(C(i, j, t), Ite(Eq(t, 0), 0, Ite(Eq(C(i, j, zi(S(t - 1))), 0), cmpv(c.A(cyc(c, i, S(t - 1))), c.A(cyc(c, j, S(t - 1)))), C(i, j, zi(S(t - 1)))))))
def s_can(kind):
    def f(c):
        if kind == 's': p, c.r, c.n = c.string('t'); a = [p]; m = c.mem(c.r).read; c.es = 1; c.A = lambda i: sgn(m(S(i)), 8)
        else: a = seq(c, 8, const=False, signed=kind == 'c')
        C = c.x.ufun('C', 3); c.C = lambda i, j, t: C(zi(S(i)), zi(S(j)), zi(S(t))); c.K = c.dom.fresh_term('K')
        c.axiom(C, lambda i, j, t: And(defC(c, C)(i, j, t), defC(c, C)(i, j, S(t + 1)), Implies(And(Eq(i, j), t >= 0), Eq(C(i, j, t), 0)), Implies(And(i >= 0, i < c.n, j >= 0, j < c.n, c.K >= 0, c.K < c.n, C(i, j, zi(c.n)) < 0, C(c.K, j, zi(c.n)) >= 0), Eq(C(c.K, i, zi(c.n)), 1)), Implies(And(t >= 0, t <= c.n, Not(Eq(C(i, j, t), 0))), Eq(C(i, j, zi(c.n)), C(i, j, t)))), fuel=2)      # lemma_rotations
        c.old = c.mem(c.r); c.st.ghost['rot'] = -1
        return a
    return f
def least(c, s, k): return c.C(k, s, c.n) >= 0
def can_lemma(c):
    """order of rotations: decided at the first difference; transitive"""
    c.n = c.size('n'); p = c.buf('t', c.n, const=True); m = c.mem('t').read; c.A = lambda i: m(S(i)); C = c.x.ufun('C', 3); D = defC(c, C)
    i, s, k, t = [c.dom.fresh_term(q) for q in 'iskt']; c.assume(And(*[And(q >= 0, q < c.n) for q in (i, s, k, t)])); z = z3.IntVal(0)
    for x, y in ((i, s), (k, s), (k, i)): c.assume(D(x, y, z)); c.assume(D(x, y, zi(S(t + 1))))
    c.ensure('decided at the first difference', Implies(Not(Eq(C(i, s, t), 0)), Eq(C(i, s, zi(S(t + 1))), C(i, s, t))))
    P = lambda t: And(*[And(C(x, y, t) >= -1, C(x, y, t) <= 1) for x, y in ((i, s), (k, s), (k, i))] + [Implies(Eq(C(i, s, t), 0), Eq(C(k, i, t), C(k, s, t))), Implies(And(C(i, s, t) < 0, C(k, s, t) >= 0), Eq(C(k, i, t), 1))])
    c.assume(D(i, i, z)); c.assume(D(i, i, zi(S(t + 1)))); c.ensure('reflexive', And(Eq(C(i, i, z), 0), Implies(Eq(C(i, i, t), 0), Eq(C(i, i, zi(S(t + 1))), 0))))
    c.ensure('transitive (base)', P(z)); c.ensure('transitive (step)', Implies(P(t), P(zi(S(t + 1)))))
def h_rot(x, st, ins, a):
    c = x.contract.c; f, m, l = a
    x.oblige('post', f.r == c.r and m.r == c.r and l.r == c.r, 'the range itself is rotated')
    x.oblige('post', S(And(Eq(f.o, 0), Eq(l.o, c.n), m.o >= 0, Or(m.o < c.n, Eq(c.n, 0)))), 'all of it, at one of its elements')
    x.modify(st, ('arr', c.r)); x.modify(st, ('ghost', 'rot')); old = st.mem[c.r].mem; mo = m.o
    st.mem[c.r] = st.mem[c.r].upd(mem=MFun(lambda k: Ite(And(k >= 0, k < c.n), old.read(S(Ite(k + mo < c.n, k + mo, k + mo - c.n))), old.read(k)))); st.ghost['rot'] = mo
    return Ptr(c.r, S(c.n - mo))
def t_can(c, st0, st, b, b0):
    L = []; ps = positions(c, b); env = [(k, (lambda b, v=v: v.o)) for k, v in st.env.items() if k not in b.vals and isinstance(v, Ptr) and v.r == c.r and k not in [n for _, n in c.x.fn.params]]
    for s, o in ps:
        for i, o2 in ps:
            if i != s: L.append(Cand('%s starts the least rotation before %s' % (s, i), lambda b, o=o, o2=o2: And(Or(o(b) < c.n, Eq(c.n, 0)), Implies(And(c.K >= 0, c.K < o2(b)), least(c, o(b), c.K)))))
    for i, oi in env:
        for s, os_ in env:
            if i == s: continue
            for a, oa in ps:
                t = lambda b, oi=oi, oa=oa: S(Ite(oa(b) >= oi(b), oa(b) - oi(b), oa(b) - oi(b) + c.n))
                L.append(Cand('rotations %s and %s agree up to %s' % (i, s, a), lambda b, t=t, oi=oi, os_=os_: Eq(c.C(oi(b), os_(b), t(b)), 0)))
                for q, oq in ps:
                    if q != a: L.append(Cand('%s runs along %s from %s and %s' % (q, a, i, s), lambda b, t=t, oq=oq, os_=os_: Eq(oq(b), cyc(c, os_(b), t(b)))))
                L.append(Cand('%s inside' % a, lambda b, oa=oa: And(oa(b) >= 0, oa(b) < c.n)))
    return L
def rank_can(x, b, nb):
    """the number of elements compared grows and stays below n"""
    c = x.contract.c; G = []
    for i, vi in sorted(b.st.env.items()):
        if i in b.vals or not isinstance(vi, Ptr) or vi.r != c.r: continue
        for a, v in sorted(b.vals.items()):
            if not isinstance(v, Ptr) or v.r != c.r or not isinstance(nb.vals.get(a), Ptr): continue
            t = lambda o: Ite(o >= vi.o, o - vi.o, o - vi.o + c.n)
            G.append(And(t(nb.vals[a].o) > t(v.o), t(nb.vals[a].o) < c.n))
    return G
def e_can(c, st, rv):
    rot = st.ghost['rot']
    c.ensure('rotated at one place', And(rot >= 0, Or(rot < c.n, Eq(c.n, 0))))
    c.ensure_mem('the result is that rotation', st, c.r, lambda j: And(j >= 0, j < c.n), lambda j: c.old.read(cyc(c, rot, j)))
    c.ensure('no rotation is smaller', Implies(And(c.K >= 0, c.K < c.n), least(c, rot, c.K)))
HROT = {'_ZNSt3_V26rotateIPcEET_S2_S2_S2_': h_rot, '_ZNSt3_V26rotateIPhEET_S2_S2_S2_': h_rot}
CONTRACTS = [Lemma('lemma_duplicates', cd_lemma, api='number of duplicates')]
CONTRACTS += [Contract('w_cd' + k, s_cd(w), e_cd, t_cd, api='count_consecutive_duplicates(%s)' % n) for k, w, n in (('c', 8, 'char*'), ('i', 32, 'int*'))]
CONTRACTS += [Contract('w_mm' + k, s_mm(w, sg), e_mm, t_mm, api='min_max_of_range(%s)' % n) for k, w, sg, n in (('c', 8, True, 'char*'), ('u', 8, False, 'unsigned char*'), ('i', 32, True, 'int*'))]
CONTRACTS += [Lemma('lemma_only', fn_lemma, api='recorded places')] + [Contract('w_fn' + k, s_fn(k), e_fn(k), t_fn, opts=dict(unroll=False), weight=5, api='first_non_repeated_char(%s)' % n) for k, n in (('c', 'char*'), ('u', 'unsigned char*'), ('s', 'std::string'))]
CONTRACTS += [Contract('w_io' + k, s_io(sg), e_io, t_io, api='iota(%s)' % n) for k, sg, n in (('i', True, 'int*'), ('u', False, 'unsigned int*'), ('r', False, 'range'))] + [Contract('w_ioo', s_ioo, e_ioo, t_ioo, hooks={'hook_out': h_out}, api='iota(count, value, output)')]
CONTRACTS += [Lemma('lemma_copies', rp_lemma, api='copies lie behind one another')] + [Contract('w_rep' + k, s_rp(k or 'o'), e_rp, t_rp, api=n) for k, n in (('', 'replicate(n, str, output)'), ('n', 'replicate(n, str)'), ('i', 'replicate_inplace'))]
CONTRACTS += [Lemma('lemma_interval', ins_lemma, api='insertion counts'), Contract('w_ins', s_ins, e_ins, t_ins, hooks={'hook_out8': h_ins}, api='inserter with interval_inserter')]
CONTRACTS += [Lemma('lemma_rotations', can_lemma, api='order of rotations')] + [Contract(w, s_can(k), e_can, t_can, hooks=HROT, rank=rank_can, api='lexicographically_canonicalize(%s)' % n) for w, k, n in (('w_can', 'c', 'char*'), ('w_cau', 'u', 'unsigned char*'), ('w_cas', 's', 'std::string'))]
