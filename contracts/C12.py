"""C12 bit operations: bit counts, bit access, Hamming distance, interleaving, bitwise transforms."""
from common import *
BV = {'domain': 'bv'}; BF = {'bitfun': True}
B = lambda n, w=64: z3.BitVecVal(n, w)
def popc(k): return sum((k // 2 ** i) % 2 if isint(k) else (k / 2 ** i) % 2 for i in range(8))
def pop(c): return c.spec('popcount', popc, 0, 8, ctrange=(0, 256))
def frame(c, st, rs):
    for r in rs:
        m = c.rd[r]
        c.ensure_mem('%s is not written' % r, st, r, lambda j: And(j >= 0, j < c.n), lambda j: m(j))
# ---- counting
def s_hb(k):
    def f(c):
        c.P = pop(c); c.val, c.bs = c.bytes_int('v', k)
        return [c.val if k == 1 else c.obj('p', k, {0: (k, c.val)})]
    return f
def e_hb(c, st, rv): c.ensure('the number of one bits', Eq(c.u(rv), sum(c.P(b) for b in c.bs)))
def s_hbr(kind):
    def f(c):
        P = pop(c)
        if kind == 's': p, r, n = c.string('t', const=True)
        else: n = c.size('n'); p = c.buf('t', n, const=True); r = 't'
        c.n = n; m = c.mem(r).read
        PC = c.PC = c.defun('PC', 1)
        c.axiom(PC, lambda i: And(Implies(Eq(i, 0), Eq(PC(i), 0)), Implies(And(i >= 0, i < n), And(Eq(PC(S(i + 1)), PC(i) + P(m(i))), PC(i) >= 0, PC(i) <= 8 * i))), fuel=3)
        c.assume(Eq(PC(z3.IntVal(0)), 0)); c.r = r
        return [p] if kind == 's' else [p, Ptr(r, n)]
    return f
def e_sum(c, st, rv): c.ensure('the number of one bits of all bytes', Eq(c.u(rv), c.PC(c.n if not isint(c.n) else z3.IntVal(c.n))))
def t_sum(c, st0, st, b, b0):
    L = []; es = getattr(c, 'es', 1)
    cur = [k for k, v in b.vals.items() if isinstance(v, Ptr) and v.r == c.r]
    for k in cur:
        for a, v in b.vals.items():
            if isinstance(v, IV) and v.w == 64:
                L.append(Cand('%s counts up to %s' % (a, k), lambda b, k=k, a=a: Eq(c.u(b[a]), c.PC(c.div(b[k].o, es)))))
                L.append(Cand('%s bounded by %s' % (a, k), lambda b, k=k, a=a: And(c.u(b[a]) <= 8 * b[k].o)))
    if hasattr(c, 'r2'):
        for k in cur:
            for q, v in b.vals.items():
                if isinstance(v, Ptr) and v.r == c.r2: L.append(Cand('%s in step with %s' % (q, k), lambda b, k=k, q=q: Eq(b[q].o, b[k].o)))
    return L
# ---- access
def s_bit(c):
    c.n = c.size('n'); c.i = c.dom.fresh_term('i'); c.assume(z3.And(z3.ULT(c.i, B(1 << 43)), z3.LShR(c.i, 3) < c.n))
    c.q = c.dom.fresh_term('q'); c.assume(z3.And(z3.ULT(c.q, B(1 << 43)), z3.LShR(c.q, 3) < c.n))
    p = c.buf('t', c.n); c.was = c.mem('t')
    return [c.obj('idx', 8, {0: (8, IV(64, c.i))}), p]
def bit(m, p): return (m.read(S(z3.LShR(p, 3))) & (B(1, 8) << z3.Extract(7, 0, p & 7))) != 0
def e_bit(c, st, rv): c.ensure('the addressed bit', rv == bit(c.was, c.i)); c.ensure_mem('nothing is written', st, 't', lambda j: And(j >= 0, j < c.n), lambda j: c.was.read(j))
def e_set(on):
    def e(c, st, rv):
        m = c.mem('t', st)
        c.ensure('the addressed bit is %s' % ('set' if on else 'cleared'), bit(m, c.i) if on else Not(bit(m, c.i)))
        c.ensure('every other bit is kept', Implies(c.q != c.i, bit(m, c.q) == bit(c.was, c.q)))
    return e
# ---- two inputs
def two(c, kind, es=1, out=0):
    """two texts of arbitrary lengths (n and n2)"""
    if kind == 's':
        p, c.r, c.n = c.string('t', const=True); q, c.r2, c.n2 = c.string('t2', const=True); a = [p, q]
    else:
        c.n = c.size('n'); c.n2 = c.size('n2'); p = c.buf('t', c.n, es, const=True); q = c.buf('t2', c.n2, es, const=True)
        c.r, c.r2 = 't', 't2'; a = [p, Ptr('t', S(es * c.n)), q, Ptr('t2', S(es * c.n2))]
    c.es = es; c.a, c.b = c.mem(c.r).read, c.mem(c.r2).read
    return a
def s_hd(kind, elem=None):
    def f(c):
        a = two(c, kind, elem or 1)
        if elem: d = lambda i: Ite(Eq(c.a(i), c.b(i)), 0, 1); hi = 1
        else:
            P = pop(c); xf = c.x.ufun('bitxor8', 2); d = lambda i: P(xf(c.a(i), c.b(i))); hi = 8
            c.axiom(xf, lambda p, q: And(xf(p, q) >= 0, xf(p, q) <= 255))
        PC = c.PC = c.defun('PC', 1)
        c.axiom(PC, lambda i: And(Implies(Eq(i, 0), Eq(PC(i), 0)), Implies(And(i >= 0, i < c.n), And(Eq(PC(S(i + 1)), PC(i) + d(i)), PC(i) >= 0, PC(i) <= hi * i))), fuel=3)
        c.assume(Eq(PC(z3.IntVal(0)), 0))
        return a
    return f
def e_hd(c, st, rv):
    c.ensure('the distance', Eq(c.u(rv), Ite(Eq(c.n, c.n2), c.PC(c.n), (1 << 64) - 1)))
def s_il(kind):
    def f(c):
        a = two(c, kind); m = c.size('m')
        c.k = c.dom.fresh_term('k'); c.assume(And(c.k >= 0, c.k < c.n))
        if kind == 's':
            q, c.ro, c.m = c.string('out'); c.q = q; a.append(q)
        else: a.append(c.buf('out', S(c.n * 2))); c.ro = 'out'; c.m = S(c.n * 2)
        c.was = c.mem(c.ro)
        return a
    return f
def il(c, h):
    """byte h of the pair: bits 4h..4h+3 of the two inputs, the first input's in the even places"""
    a, b = c.a(c.k), c.b(c.k); x = B(0, 8)
    for i in range(4):
        e = lambda v, s: z3.If(z3.Extract(4 * h + i, 4 * h + i, v) == 1, B(1 << s, 8), B(0, 8))
        x = x | e(a, 2 * i) | e(b, 2 * i + 1)
    return x
def done_il(c, m): return And(m.read(S(2 * c.k)) == il(c, 0), m.read(S(2 * c.k + 1)) == il(c, 1))
def t_il(c, st0, st, b, b0):
    L = []; cur = [k for k, v in b.vals.items() if isinstance(v, Ptr) and v.r in (c.r, c.r2)]
    outs = [(k, v.r) for k, v in b.vals.items() if isinstance(v, Ptr) and v.r not in (c.r, c.r2)]
    for o, r in outs:
        for k in cur:
            L.append(Cand('interleaved below %s in %s' % (k, o), lambda b, k=k, r=r: Implies(c.k < b[k].o, done_il(c, b.st.mem[r].mem))))
            L.append(Cand('%s two bytes per byte of %s' % (o, k), lambda b, k=k, o=o: b[o].o == 2 * b[k].o))
    for k in cur:
        for q in cur: 
            if q > k: L.append(Cand('%s in step with %s' % (q, k), lambda b, k=k, q=q: b[q].o == b[k].o))
    return L
def e_il(kind):
    def e(c, st, rv):
        c.ensure('succeeds exactly for equal lengths', Eq(rv, c.n == c.n2))
        r, n = (c.strbuf(st, c.q) if kind == 's' else ('out', c.m)); m = st.mem[r].mem
        c.ensure('two bytes per input byte', Implies(rv, n == 2 * c.n)) 
        c.ensure('the two bytes interleave the bits of the two inputs', Implies(rv, done_il(c, m)))
        c.ensure_mem('a refused call leaves the output alone', st, r, lambda j: And(Not(rv), j >= 0, j < c.m), lambda j: c.was.read(j))
        c.ensure('a refused call keeps the length', Or(rv, n == c.m))
    return e
# ---- tables
def s_nw(es):
    def f(c): return [c.buf('t', 256, es)]
    return f
def nw(k, es): return sum((k // 2 ** i % 2) << (i * es) for i in range(8))
def e_nw(es):
    def e(c, st, rv):
        m = c.mem('t', st)
        for k in range(256): c.ensure('entry %d' % k, Eq(c.x.load_bits(st, Ptr('t', k * es), es).t, nw(k, es) % (1 << 8 * es)))
    return e
# ---- transforms
def s_bt(kind, op):
    def f(c):
        if kind == 's': a = two(c, 's'); q, c.ro, c.m = c.string('out'); c.q = q; a.append(q)
        else: a = two(c, kind); c.assume(c.n2 == c.n); a = a[:3] + [c.buf('out', c.n)]; c.ro = 'out'; c.m = c.n
        c.was = c.mem(c.ro)
        return [c.obj('op', 4, {0: (4, c.iv(32, B(op, 32)))})] + a
    return f
OPS = [lambda x, y: x & y, lambda x, y: x | y, lambda x, y: x ^ y]
def t_bt(op):
    def t(c, st0, st, b, b0):
        L = []; cur = [k for k, v in b.vals.items() if isinstance(v, Ptr) and v.r in (c.r, c.r2)]
        for o, v in b.vals.items():
            if isinstance(v, Ptr) and v.r not in (c.r, c.r2):
                L.append(Cand('combined below %s' % o, forall=(v.r, lambda j, b, o=o: And(j >= 0, j < b[o].o), lambda j, b: OPS[op](c.a(j), c.b(j)))))
                for k in cur: L.append(Cand('%s in step with %s' % (o, k), lambda b, k=k, o=o: b[o].o == b[k].o))
        return L
    return t
def e_bt(kind, op):
    def e(c, st, rv):
        same = c.n == c.n2
        r, n = (c.strbuf(st, c.q) if kind == 's' else ('out', c.m))
        c.ensure('length of the result', n == Ite(same, c.n, c.m))
        c.ensure_mem('each byte is combined', st, r, lambda j: And(same, j >= 0, j < c.n), lambda j: OPS[op](c.a(j), c.b(j)))
        c.ensure_mem('texts of different length leave the output alone', st, r, lambda j: And(Not(same), j >= 0, j < c.m), lambda j: c.was.read(j))
    return e
NM = {'u': 'unsigned char*', 'c': 'char*', 's': 'std::string'}
CONTRACTS = [Contract('w_hb%d' % (8 * k), s_hb(k), e_hb, api='high_bit_count(%d-bit)' % (8 * k)) for k in (1, 2, 4, 8)]
for k in 'ucs':
    CONTRACTS += [Contract('w_hb' + k, s_hbr(k), e_sum, t_sum, api='high_bit_count(%s range)' % NM[k]),
                  Contract('w_hd' + k, s_hd(k), e_hd, t_sum, opts=BF, api='hamming_distance(%s)' % NM[k]),
                  Contract('w_il' + k, s_il(k), e_il(k), t_il, opts=dict(BV, cand_timeout=15000), api='twoway_bitwise_interleave(%s)' % NM[k])]
    CONTRACTS += [Contract('w_bt' + k, s_bt(k, o), e_bt(k, o), t_bt(o), opts=BV, api='bitwise_transform(%s,%s)' % (n, NM[k])) for o, n in enumerate(('AND', 'OR', 'XOR'))]
CONTRACTS += [Contract('w_he' + k, s_hd(k, e), e_hd, t_sum, api='hamming_distance_elementwise(%s)' % n) for k, e, n in (('c', 1, 'char*'), ('i', 4, 'int*'), ('s', 1, 'std::string'))]
CONTRACTS += [Contract('w_bit', s_bit, e_bit, opts=BV, api='bit_state'), Contract('w_set', s_bit, e_set(True), opts=BV, api='set_bit_high'), Contract('w_clr', s_bit, e_set(False), opts=BV, api='set_bit_low')]
CONTRACTS += [Contract('w_nw%d' % e, s_nw(e), e_nw(e), opts={'unwind': 5000}, api='create_nway_interleave_table<%d>' % e) for e in (2, 4, 8)]
ASSUMPTIONS = ['std::string members (assumed contracts)']
