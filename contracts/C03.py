"""C03 text -> integer: exact decimal value, exact acceptance, target untouched on rejection, reads only the text."""
from common import *
TY = {'s': (16, 1), 'us': (16, 0), 'i': (32, 1), 'ui': (32, 0), 'l': (64, 1), 'ul': (64, 0), 'll': (64, 1), 'ull': (64, 0)}
NAMES = {'s': 'short', 'us': 'unsigned short', 'i': 'int', 'ui': 'unsigned int', 'l': 'long', 'ul': 'unsigned long', 'll': 'long long', 'ull': 'unsigned long long', 'c': 'char', 'sc': 'signed char', 'uc': 'unsigned char', 'b': 'bool'}
def isdig(ch): return And(ch >= 48, ch <= 57)
def dlen(w, sg): return len(str((1 << (w - sg)) - 1))
def numtext(c, w, sg):
    """ghost description of the text src[0,n): p first character after the sign, z first non-'0' at or after p,
    d first non-digit at or after z, V(k) value of the digits src[z..k)"""
    n, src, f = c.n, c.src, c.f
    neg = And(n > 0, Eq(src(0), 45)) if sg else False
    plus = And(n > 0, Eq(src(0), 43))
    c.neg = neg
    c.p = Ite(Or(neg, plus), 1, 0) if n is not None else 0
    c.z, c.d = c.size('z'), c.size('d')
    c.assume(And(c.p <= c.z, c.z <= n, c.z <= c.d, c.d <= n) if True else True)
    c.axiom(f, lambda k: And(Implies(And(k >= c.p, k < c.z), f(k) == 48), Implies(And(k >= c.z, k < c.d), isdig(f(k)))), fuel=40)
    c.assume(Implies(c.z < n, Not(Eq(src(c.z), 48))))
    c.assume(Implies(c.d < n, Not(isdig(src(c.d)))))
    B = dlen(w, sg)
    hi = (1 << (w - sg)) - 1
    c.alldig = And(c.p < n, Eq(c.d, n))
    L = S(n - c.z)                      # number of significant digits
    def D(m): return S(sum(10 ** (m - 1 - i) * (src(S(c.z + i)) - 48) for i in range(m))) if m else 0
    def fits(v): return Ite(neg, v <= hi + 1, v <= hi) if sg else v <= hi
    # value of the numeral; one with more than B significant digits is >= 10^B (lemma_length) and never fits
    ok, val = False, 0
    for m in range(B, -1, -1):
        ok = Ite(Eq(L, m), fits(D(m)), ok); val = Ite(Eq(L, m), D(m), val)
    c.good = And(c.alldig, L <= B, ok)
    c.res = Ite(neg, -val, val) if sg else val
    c.x.note(And(c.good, Eq(c.res, 0)))
def length_lemma(w, sg):
    def f(c):
        """V(k) = value of digits src[z..k); V(z+m) is the m-digit sum used above; more than B significant digits do not fit"""
        n, z = c.size('n'), c.size('z'); src = c.x.fresh_mem('in', 1)
        B = dlen(w, sg); M = 10 ** B
        c.ensure('10^B exceeds the type', M > (1 << (w - sg)))
        V = c.defun('V', 1, lambda k: Eq(V(k), Ite(k <= z, 0, 10 * V(k - 1) + src.read(S(k - 1)) - 48)), fuel=24)
        def D(m): return S(sum(10 ** (m - 1 - i) * (src.read(S(z + i)) - 48) for i in range(m))) if m else 0
        for m in range(B + 1): c.ensure('sum of %d digits is the value' % m, Eq(V(S(z + m)), D(m)))
        c.axiom(src.f, lambda k: Implies(And(k >= z, k < n), isdig(src.f(k))), fuel=40)
        c.assume(Implies(z < n, Not(Eq(src.read(z), 48))))
        k = c.size('k')
        c.ensure('more than %d significant digits: at least 10^%d (base)' % (B, B), Implies(z + B + 1 <= n, V(S(z + B + 1)) >= M))
        c.ensure('(induction step)', Implies(And(z + B + 1 <= k, k < n, V(k) >= M), V(k + 1) >= M))
    return f
def inp(c, how):
    if how in ('s', 'ts'):
        p, r, n = c.string('in', const=True)
        c.n, c.src = n, c.mem(r).read; c.f = c.mem(r).p.f
        return [p]
    n = c.size('n'); b = c.buf('in', n, const=True)
    c.n, c.src = n, c.mem('in').read; c.f = c.mem('in').f
    return [b, Ptr('in', n)]
def setup(how, w, sg):
    def f(c):
        a = inp(c, how)
        numtext(c, w, sg)
        if how in ('tp', 'ts'): return a
        c.old = c.int('old', w, signed=bool(sg))
        return a + [c.obj('res', w // 8, {0: (w // 8, c.old)})]
    return f
def ens(how, w, sg):
    view = (lambda c, v: c.s(v)) if sg else (lambda c, v: c.u(v))
    def f(c, st, rv):
        if how in ('tp', 'ts'):
            c.ensure('returns only for text in range', c.good)
            c.ensure('value', Eq(view(c, rv), c.res)); return
        t = c.x.load_bits(st, Ptr('res', 0), w // 8)
        c.ensure('accepted exactly for a numeral in range', Eq(rv, c.good))
        c.ensure('value on success', Implies(rv, Eq(view(c, t), c.res)))
        c.ensure('target untouched on failure', Implies(Not(rv), Eq(view(c, t), view(c, c.old))))
    return f
def onthrow(c, st): c.ensure('throws only for unacceptable text', Not(c.good))
# skipping leading zeros never passes the first other character
def tpl(c, st0, st, b, b0):
    return [Cand('%s<=z' % k, lambda b, k=k: b[k].o <= c.z) for k, v in b.vals.items() if isinstance(v, Ptr) and v.o is not None]
# ---- one-character targets
def setup1(how, t):
    def f(c):
        a = inp(c, how)
        if how in ('tp', 'ts'): return a
        c.old = c.int('old', 8)
        return a + [c.obj('res', 1, {0: (1, c.old)})]
    return f
def ens1(how, t):
    def f(c, st, rv):
        one = Eq(c.n, 1)
        v = Ite(Eq(c.src(0), 48), 0, 1) if t == 'b' else c.src(0)
        if how in ('tp', 'ts'):
            c.ensure('returns only for one character', one)
            rv = Ite(rv, 1, 0) if isinstance(rv, (bool, z3.BoolRef)) else c.u(rv)
            c.ensure('value', Eq(rv, v)); return
        r = c.x.load_bits(st, Ptr('res', 0), 1)
        c.ensure('accepted exactly for one character', Eq(rv, one))
        c.ensure('value', Ite(rv, Eq(c.u(r), v), Eq(c.u(r), c.u(c.old))))
    return f
def onthrow1(c, st): c.ensure('throws only for other lengths', Not(Eq(c.n, 1)))
API = {'p': 'string_to_type_converter(const char*,const char*,%s&)', 'u': 'string_to_type_converter(const uchar*,const uchar*,%s&)', 'm': 'string_to_type_converter(char*,char*,%s&)', 'r': 'string_to_type_converter(pair,%s&)', 's': 'string_to_type_converter(string,%s&)',
       'tp': 'string_to_type_converter<%s>(first,last)', 'ts': 'string_to_type_converter<%s>(string)'}
CONTRACTS = [Lemma('lemma_length_%s' % t, length_lemma(*TY[t]), api='value of a numeral of any length, ' + NAMES[t]) for t in ('s', 'us', 'i', 'ui', 'll', 'ull')]
CONTROL_INDEX = 6
for t, (w, sg) in TY.items():
    for how in API: CONTRACTS.append(Contract('w_%s_%s' % (how, t), setup(how, w, sg), ens(how, w, sg), tpl, api=API[how] % NAMES[t], may_throw=how[0] == 't', on_throw=onthrow, weight=w))
for t in ('c', 'sc', 'uc', 'b'):
    for how in API: CONTRACTS.append(Contract('w_%s_%s' % (how, t), setup1(how, t), ens1(how, t), None, api=API[how] % NAMES[t], may_throw=how[0] == 't', on_throw=onthrow1, weight=0))
