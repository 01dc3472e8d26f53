"""C02 base64 codec: RFC 4648 digits and padding, exact lengths, inverse, in-bounds."""
from common import *
def dig0(v): return Ite(v < 26, v + 65, Ite(v < 52, v + 71, Ite(v < 62, v - 4, Ite(v < 63, 43, 47))))
def isd(ch): return Or(And(ch >= 65, ch <= 90), And(ch >= 97, ch <= 122), And(ch >= 48, ch <= 57), Eq(ch, 43), Eq(ch, 47))
def val(ch): return Ite(Eq(ch, 43), 62, Ite(ch <= 47, 63, Ite(ch <= 57, ch + 4, Ite(ch <= 90, ch - 65, ch - 71))))
def b64(c, src, n, j):
    """j-th character of the base64 text of the n bytes src"""
    g, r = S(3 * c.div(j, 4)), c.mod(j, 4)
    def at(k): return Ite(k < n, src(S(k)), 0)
    a, b, e = at(g), at(g + 1), at(g + 2)
    d = Ite(r == 0, c.dig(a / 4), Ite(r == 1, c.dig((a % 4) * 16 + b / 16), Ite(r == 2, c.dig((b % 16) * 4 + e / 64), c.dig(e % 64))))
    return Ite(Or(And(r == 2, g + 1 >= n), And(r == 3, g + 2 >= n)), 61, d)
def specs(c):
    c.dig = c.spec('digit', dig0, 43, 122, ctrange=(0, 64)); c.val = c.spec('value', lambda ch: Ite(isd(ch), val(ch), 0), 0, 63, dom=isd, ctrange=(0, 256))
def elen(n): return 4 * ((n + 2) / 3)
def setup_enc(c):
    specs(c)
    n = c.size('n'); b = c.buf('in', n, const=True)
    c.n, c.src = n, c.mem('in').read
    o = c.buf('out', elen(n)); c.outr = 'out'
    return [b, Ptr('in', n), o]
def ens_enc(c, st, rv):
    c.ensure('reported length is 4*ceil(n/3)', Eq(c.u(rv), elen(c.n)))
    c.ensure_mem('out[j] is the j-th base64 character', st, 'out', lambda j: And(j >= 0, j < elen(c.n)), lambda j: b64(c, c.src, c.n, j))
def setup_str(c):
    specs(c)
    p, r, n = c.string('in', const=True)
    c.n, c.src = n, c.mem(r).read
    q, ro, _ = c.string('out'); c.q, c.outr = q, ro
    return [p, q]
def ens_enc_s(c, st, rv):
    r, n = c.strbuf(st, c.q)
    c.ensure('output length is 4*ceil(n/3)', Eq(n, elen(c.n)))
    c.ensure_mem('output characters', st, r, lambda j: And(j >= 0, j < elen(c.n)), lambda j: b64(c, c.src, c.n, j))
t_enc = grow(lambda c: c.outr, lambda c, j: b64(c, c.src, c.n, j), mult=(4,))
# ---- decode.  L = length without the padding
def dec(c, j):
    g, r = S(4 * c.div(j, 3)), c.mod(j, 3)
    v = [c.val(c.src(g + i)) for i in range(4)]
    return Ite(r == 0, v[0] * 4 + v[1] / 16, Ite(r == 1, (v[1] % 16) * 16 + v[2] / 4, (v[2] % 4) * 64 + v[3]))
def wellformed(c):
    c.L = c.size('L')
    c.assume(And(c.L <= c.n, c.n <= c.L + 2))
    # every character before the padding is in the alphabet; the padding is '='
    c.axiom(c.inmem.f, lambda j: And(Implies(And(j >= 0, j < c.L), isd(c.inmem.f(j))), Implies(And(j >= c.L, j < c.n), c.inmem.f(j) == 61)), fuel=3)
    for k in (1, 2): c.assume(Implies(c.n >= k, Or(c.inmem.f(c.n - k) >= 0, True)))
def setup_dec(wf, s=False):
    def f(c):
        specs(c)
        if s:
            p, r, n = c.string('in'); c.inmem = c.mem(r).p
            q, ro, _ = c.string('out'); c.q, c.outr = q, ro
        else:
            n = c.size('n'); p = c.buf('in', n, const=True); c.inmem = c.mem('in')
            q = c.buf('out', (3 * n) / 4); c.outr = 'out'
        c.n, c.src = n, c.inmem.read
        if wf: wellformed(c)
        return [p, q] if s else [p, Ptr('in', n), q]
    return f
def ens_dec(wf, s=False):
    def f(c, st, rv):
        if s: r, n = c.strbuf(st, c.q)
        else: r, n = 'out', c.u(rv)
        c.ensure('decoded length never exceeds 3n/4', And(n >= 0, n <= (3 * c.n) / 4))
        if wf:
            c.ensure('decoded length', Eq(n, (3 * c.L) / 4))
            c.ensure_mem('decoded bytes', st, r, lambda j: And(j >= 0, j < (3 * c.L) / 4), lambda j: dec(c, j))
    return f
t_dec = grow(lambda c: c.outr, dec, mult=(3,))
# ---- round trip: a lemma over the two contracts
def rt(c):
    specs(c)
    n, k = c.size('n'), c.size('k'); xs = c.x.fresh_mem('x', 1).read
    m = elen(n)
    E = lambda j: b64(c, xs, n, j)
    L = c.size('L'); c.assume(Eq(L, (4 * n + 2) / 3))          # number of non-padding characters
    # the encoding is well-formed input of the decoder
    for r in range(4):
        j = 4 * k + r
        c.ensure('encoded character %d is in the alphabet before the padding' % r, Implies(j < L, isd(E(j))))
        c.ensure('encoded character %d is padding after it' % r, Implies(And(j >= L, j < m), Eq(E(j), 61)))
    c.ensure('padding length', And(L <= m, m <= L + 2))
    c.ensure('decoded length is n', Eq((3 * L) / 4, n))
    c.src = E
    for r in range(3):
        j = 3 * k + r
        c.ensure('decode(encode(x))[3k+%d] == x[3k+%d]' % (r, r), Implies(j < n, Eq(dec(c, j), xs(S(j)))))
CONTRACTS = [Contract('w_b2b_u', setup_enc, ens_enc, t_enc, api='convert_bin_to_base64(const uchar*,..)'),
             Contract('w_b2b_c', setup_enc, ens_enc, t_enc, api='convert_bin_to_base64(const char*,..)'),
             Contract('w_b2b_s', setup_str, ens_enc_s, t_enc, api='convert_bin_to_base64(string,string&)')]
for w in ('w_d_u', 'w_d_c'):
    CONTRACTS.append(Contract(w, setup_dec(False), ens_dec(False), None, api='convert_base64_to_bin(const char*,..) any input'))
    CONTRACTS.append(Contract(w, setup_dec(True), ens_dec(True), t_dec, api='convert_base64_to_bin(const char*,..) well-formed input'))
CONTRACTS.append(Contract('w_d_s', setup_dec(False, True), ens_dec(False, True), None, api='convert_base64_to_bin(string,string&) any input'))
CONTRACTS.append(Contract('w_d_s', setup_dec(True, True), ens_dec(True, True), t_dec, api='convert_base64_to_bin(string,string&) well-formed input'))
CONTRACTS.append(Lemma('lemma_roundtrip', rt, api='convert_base64_to_bin o convert_bin_to_base64 == identity'))
