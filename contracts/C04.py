"""C04 integer -> text: canonical decimal of every value of every integer type, and the round trip through C03."""
from common import *
from C03 import TY, NAMES, numtext, isdig
def digspec(c, g):
    """table character k of the g-digit table: digit k%g of the number k/g, most significant first"""
    def f(k):
        i, r = (k // g, k % g) if isint(k) else (c.div(k, g), c.mod(k, g))
        d = [(i // 10 ** (g - 1 - q) if isint(i) else i / 10 ** (g - 1 - q)) % 10 for q in range(g)]
        t = d[g - 1]
        for q in range(g - 2, -1, -1): t = Ite(Eq(r, q), d[q], t)
        return 48 + t
    return f
def facts(c, g):
    """the g table characters of number i are digits, denote i, and the first is '0' exactly when i has fewer digits"""
    def f(t, k):
        i, r = (k // g, k % g) if isint(k) else (c.div(k, g), c.mod(k, g))
        ch = [t(S(g * i + q)) for q in range(g)]
        return And(Eq(sum(10 ** (g - 1 - q) * (ch[q] - 48) for q in range(g)), i), Eq(Eq(ch[0], 48), i < 10 ** (g - 1)))
    return f
def canonical(c, v, sg, n, rd, w, neg=None):
    """facts that make rd[0..n) the canonical decimal text of v"""
    if neg is None: neg = v < 0 if sg else False
    a = Ite(neg, -v, v)
    h = Ite(neg, 1, 0)
    N = len(str(1 << w))
    L = S(n - h)
    cache = {}
    def at(i):
        if i not in cache: cache[i] = rd(S(h + i))
        return cache[i]
    val = 0
    for m in range(N, 0, -1):
        if isint(L) and m != L: continue
        val = Ite(Eq(L, m), sum(10 ** (m - 1 - i) * (at(i) - 48) for i in range(m)), val)
    return h, neg, a, L, S(val), N
def setup(out, w, sg, neg):
    def f(c):
        c.spec('digit3', digspec(c, 3), 48, 57, ctrange=(0, 3000), facts=facts(c, 3)); c.spec('digit2', digspec(c, 2), 48, 57, ctrange=(0, 200), facts=facts(c, 2))
        v = c.int('v', w, signed=bool(sg)); c.val = c.s(v) if sg else c.u(v)
        if sg: c.assume(c.val < 0 if neg else c.val >= 0)
        q, r, _ = c.string('out'); c.q = q
        return [v, q]
    return f
def ens(out, w, sg, neg):
    def f(c, st, rv):
        if out == 'o': c.ensure('reports success', rv)
        r, n = c.strbuf(st, c.q)
        rd = st.mem[r].mem.read
        h, _, a, L, val, N = canonical(c, c.val, sg, n, rd, w, neg)
        c.ensure('between 1 and %d digits' % N, And(L >= 1, L <= N))
        if neg: c.ensure("'-' first for negative values", Eq(rd(0), 45))
        for i in range(L if isint(L) and L < N else N): c.ensure('character %d is a digit' % i, Implies(i < L, isdig(rd(S(h + i)))))
        c.ensure('no leading zero', Implies(L > 1, Not(Eq(rd(S(h)), 48))))
        c.ensure('the digits denote the value', Eq(val, a))
    return f
def setup1(t):
    def f(c):
        if t == 'b': c.vv = c.int('v', 1); c.val = None
        else: c.vv = c.int('v', 8)
        q, r, _ = c.string('out'); c.q = q
        return [c.vv, q]
    return f
def ens1(out, t):
    def f(c, st, rv):
        if out == 'o': c.ensure('reports success', rv)
        r, n = c.strbuf(st, c.q); ch = st.mem[r].mem.read(0)
        c.ensure('one character', Eq(n, 1))
        c.ensure('the character', Eq(ch, Ite(c.vv, 49, 48) if t == 'b' else c.u(c.vv)))
    return f
def setup_s(c):
    p, r, n = c.string('in', const=True); c.n, c.src = n, c.mem(r).read
    q, ro, _ = c.string('out'); c.q = q
    return [p, q]
def ens_s(c, st, rv):
    r, n = c.strbuf(st, c.q)
    c.ensure('success', rv); c.ensure('same length', Eq(n, c.n))
    c.ensure_mem('same characters', st, r, lambda j: And(j >= 0, j < c.n), lambda j: c.src(j))
# ---- round trip: the text promised above is accepted by the C03 contract with the same value
def rt(w, sg):
    def f(c):
        v = c.int('v', w, signed=bool(sg)); v = c.s(v) if sg else c.u(v)
        c.n = c.size('n'); m = c.x.fresh_mem('text', 1); c.src, c.f = m.read, m.f
        h, neg, a, L, val, N = canonical(c, v, sg, c.n, c.src, w)
        c.assume(And(L >= 1, L <= N, Implies(L > 1, Not(Eq(c.src(S(h)), 48))), Eq(val, a)))
        if sg: c.assume(Implies(neg, Eq(c.src(0), 45)))
        for i in range(N): c.assume(Implies(i < L, isdig(c.src(S(h + i)))))
        numtext(c, w, sg)
        # split over the length and the sign
        for m_ in range(1, N + 1):
            for g in ((True, False) if sg else (False,)):
                H = And(Eq(L, m_), Eq(neg, g) if sg else True)
                c.ensure('accepted (%d digits)' % m_, Implies(H, c.good)); c.ensure('same value (%d digits)' % m_, Implies(H, Eq(c.res, v)))
    return f
CONTRACTS = []
for t, (w, sg) in TY.items():
    for o, a in (('o', 'type_to_string(%s,string&)'), ('v', 'string type_to_string(%s)')):
        for neg in ((False, True) if sg else (False,)): CONTRACTS.append(Contract('w_%s_%s' % (o, t), setup(o, w, sg, neg), ens(o, w, sg, neg), None, api=a % NAMES[t] + (' negative' if neg else ''), weight=w, opts=dict(unwind=9, flatdiv=True, split_select=True)))
for t in ('c', 'sc', 'uc', 'b'):
    for o, a in (('o', 'type_to_string(%s,string&)'), ('v', 'string type_to_string(%s)')):
        CONTRACTS.append(Contract('w_%s_%s' % (o, t), setup1(t), ens1(o, t), None, api=a % NAMES[t], weight=1))
CONTRACTS.append(Contract('w_o_str', setup_s, ens_s, None, api='type_to_string(string,string&)'))
for t, (w, sg) in TY.items(): CONTRACTS.append(Lemma('lemma_roundtrip_%s' % t, rt(w, sg), api='string_to_type_converter o type_to_string == identity, %s' % NAMES[t]))
