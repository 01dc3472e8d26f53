"""C01 hexadecimal codec: exact digits, exact lengths, inverse, in-bounds."""
from contract import *
def dig(v): return Ite(v < 10, v + 48, v + 55)                       # '0'..'9','A'..'F'
def isd(ch): return Or(And(ch >= 48, ch <= 57), And(ch >= 65, ch <= 70), And(ch >= 97, ch <= 102))
def val(ch): return Ite(ch <= 57, ch - 48, Ite(ch <= 70, ch - 55, ch - 87))
def enc(src, j): b = src(j / 2); return Ite(j % 2 == 0, dig(b / 16), dig(b % 16))
def grow(region, spec, cond=None):
    """template: every byte before an output cursor equals spec(j)"""
    def t(c, st0, st, b, b0):
        L = []
        for k, v in b.vals.items():
            if isinstance(v, Ptr) and v.r == region(c):
                L.append(Cand('spec below %s' % k, forall=(v.r, lambda j, b, k=k: And(j >= 0, j < b[k].o, True if cond is None else cond(c, j)), lambda j, b: spec(c, j))))
        return L
    return t
def setup_ptr(k_out, src_of=None):
    def f(c):
        n = c.size('n')
        b = c.buf('in', n, const=True)
        c.n = n; c.src = c.mem('in').read
        c.m = k_out(n)
        if src_of: src_of(c)
        o = c.buf('out', c.m)
        c.outr = 'out'; c.out0 = c.mem('out')
        return [b, Ptr('in', n), o]
    return f
def setup_str(c):
    p, r, n = c.string('in', const=True)
    c.n = n; c.src = c.mem(r).read
    q, ro, _ = c.string('out')
    c.q = q; c.outr = ro; c.old = c.mem(ro); c.oldlen = c.st.mem[ro].size - 1
    return [p, q]
# ---- encode
def ens_enc(c, st, rv):
    c.ensure_forall('out[j] is the j-th upper-case hex digit, high nibble first', lambda j: Implies(And(j >= 0, j < 2 * c.n), c.mem('out', st).read(j) == enc(c.src, j)))
def ens_enc_s(c, st, rv):
    r, n = c.strbuf(st, c.q)
    c.ensure('output length is twice the input length', Eq(n, S(2 * c.n)))
    c.ensure_forall('output digits', lambda j: Implies(And(j >= 0, j < 2 * c.n), st.mem[r].mem.read(j) == enc(c.src, j)))
t_enc = grow(lambda c: c.outr, lambda c, j: enc(c.src, j))
def t_enc_sr(c, st0, st, b, b0):
    L = []
    for k, v in b.vals.items():
        if isinstance(v, Ptr) and v.r.startswith('str'):
            L.append(Cand('spec below %s' % k, forall=(v.r, lambda j, b, k=k: And(j >= 0, j < b[k].o), lambda j, b: enc(c.src, j))))
    return L
# ---- decode
def goodpair(c, j): return And(isd(c.src(2 * j)), isd(c.src(2 * j + 1)))
def dec(c, j): return 16 * val(c.src(2 * j)) + val(c.src(2 * j + 1))
def ok(c): return And(Not(Eq(c.n, 0)), c.n % 2 == 0)
def ens_dec(c, st, rv):
    c.ensure('accepts exactly non-empty even-length input', Eq(rv, ok(c)))
    m = c.mem('out', st)
    c.ensure_forall('each byte is the value of its digit pair', lambda j: Implies(And(rv, j >= 0, j < c.n / 2, goodpair(c, j)), m.read(j) == dec(c, j)))
    c.ensure_forall('target untouched when rejected', lambda j: Implies(And(Not(rv), j >= 0, j < c.n / 2), m.read(j) == c.out0.read(j)))
def ens_dec_s(c, st, rv):
    c.ensure('accepts exactly non-empty even-length input', Eq(rv, ok(c)))
    r, n = c.strbuf(st, c.q); m = st.mem[r].mem
    c.ensure('length', Ite(rv, 2 * n == c.n, n == c.oldlen))
    c.ensure_forall('bytes', lambda j: Implies(And(rv, j >= 0, j < c.n / 2, goodpair(c, j)), m.read(j) == dec(c, j)))
    c.ensure_forall('target untouched when rejected', lambda j: Implies(And(Not(rv), j >= 0, j < c.oldlen), m.read(j) == c.old.read(j)))
t_dec = grow(lambda c: c.outr, dec, cond=goodpair)
# ---- round trip: decoding what the encoder contract promises gives the input back (lemma over both contracts)
def setup_rt(c):
    n = c.size('n', lo=1)
    c.xs = c.x.fresh_mem('x', 1)
    c.n = 2 * n; c.m = n
    r = c.x.new_region(c.st, 'in', 'array', 2 * n, 1, init=MFun(lambda j: enc(c.xs.read, j)), const=True)
    c.src = c.st.mem[r].mem.read
    o = c.buf('out', n); c.outr = 'out'
    return [Ptr('in', 0), Ptr('in', 2 * n), o]
def ens_rt(c, st, rv):
    c.ensure('round trip accepted', rv)
    c.ensure_forall('decode(encode(x)) == x', lambda j: Implies(And(j >= 0, j < c.m), c.mem('out', st).read(j) == c.xs.read(j)))
t_rt = grow(lambda c: c.outr, lambda c, j: c.xs.read(j))

CONTRACTS = []
for w, api in (('w_b2h_u', 'convert_bin_to_hex(const uchar*,const uchar*,uchar*)'), ('w_b2h_c', 'convert_bin_to_hex(const char*,..)'),
               ('w_b2h_pu', 'convert_bin_to_hex(pair<uchar*>)'), ('w_b2h_pcu', 'convert_bin_to_hex(pair<const uchar*>)'), ('w_b2h_pc', 'convert_bin_to_hex(pair<const char*>)')):
    CONTRACTS.append(Contract(w, setup_ptr(lambda n: 2 * n), ens_enc, t_enc, api=api))
CONTRACTS.append(Contract('w_b2h_s', setup_str, ens_enc_s, t_enc, api='convert_bin_to_hex(string,string&)'))
CONTRACTS.append(Contract('w_b2h_sr', setup_str, ens_enc_s, t_enc_sr, api='string convert_bin_to_hex(string)'))
for w, api in (('w_h2b_u', 'convert_hex_to_bin(const uchar*,..)'), ('w_h2b_c', 'convert_hex_to_bin(const char*,..)'), ('w_h2b_pu', 'convert_hex_to_bin(pair<uchar*>)'),
               ('w_h2b_pcu', 'convert_hex_to_bin(pair<const uchar*>)'), ('w_h2b_pmc', 'convert_hex_to_bin(pair<char*>)'), ('w_h2b_pc', 'convert_hex_to_bin(pair<const char*>)')):
    CONTRACTS.append(Contract(w, setup_ptr(lambda n: n / 2), ens_dec, t_dec, api=api))
CONTRACTS.append(Contract('w_h2b_s', setup_str, ens_dec_s, t_dec, api='convert_hex_to_bin(string,string&)'))
CONTRACTS.append(Contract('w_h2b_u', setup_rt, ens_rt, t_rt, api='convert_hex_to_bin o convert_bin_to_hex (round-trip lemma)'))
