"""C10 record packing: read_pod/write_pod lay the values out back to back."""
from C09 import join, bytes_of, elem_byte
from tokens import *
SZ = [4, 1, 2, 8, 2, 1, 8, 4, 4, 2, 1, 8]
OFF = [sum(SZ[:i]) for i in range(13)]
def start(c):
    c.n = c.size('n'); c.p = c.size('p'); c.assume(c.p <= c.n)
    b = c.buf('data', c.n); c.was = c.mem('data').read
    return Ptr('data', c.p)
def room(c, k): c.assume(c.p + k <= c.n)
def done(c, st, rv, k): c.ensure('returns the end of the record', And(isinstance(rv, Ptr) and rv.r == 'data', Eq(rv.o, S(c.p + k))))
def frame(c, st, k):
    c.ensure_mem('nothing before or behind the record is touched', st, 'data', lambda j: And(j >= 0, j < c.n, Or(j < c.p, j >= S(c.p + k))), lambda j: c.was(j))
def rd(n):
    def setup(c):
        d = start(c); room(c, OFF[n]); c.o = [c.obj('t%d' % i, SZ[i]) for i in range(n)]
        return [d] + c.o
    def ens(c, st, rv):
        done(c, st, rv, OFF[n])
        for i in range(n): c.ensure('value %d is the one at its place' % (i + 1), Eq(c.u(c.x.load_bits(st, c.o[i], SZ[i])), join(c.was, S(c.p + OFF[i]), SZ[i])))
        c.ensure_mem('the data is not written', st, 'data', lambda j: And(j >= 0, j < c.n), lambda j: c.was(j))
    return Contract('w_r%d' % n, setup, ens, api='read_pod(data,%d values)' % n)
def wr(n):
    def setup(c):
        d = start(c); room(c, OFF[n]); a = []; c.b = []
        for i in range(n):
            v, b = c.bytes_int('v%d_' % i, SZ[i]); c.b += b; a.append(c.obj('t%d' % i, SZ[i], {0: (SZ[i], v)}))
        return [d] + a
    def ens(c, st, rv):
        done(c, st, rv, OFF[n]); frame(c, st, OFF[n])
        for k in range(OFF[n]): c.ensure('byte %d of the record' % k, Eq(c.mem('data', st).read(S(c.p + k)), c.b[k]))
    return Contract('w_w%d' % n, setup, ens, api='write_pod(data,%d values)' % n)
def arr(w, es, N, read):
    def setup(c):
        d = start(c); room(c, es * N); a = c.buf('t', N, es, const=not read); c.t = c.mem('t').read
        return [d, a]
    def ens(c, st, rv):
        done(c, st, rv, es * N)
        if read:
            c.ensure_mem('the elements', st, 't', lambda j: And(j >= 0, j < N), lambda j: join(c.was, S(c.p + es * j), es))
            c.ensure_mem('the data is not written', st, 'data', lambda j: And(j >= 0, j < c.n), lambda j: c.was(j))
        else:
            frame(c, st, es * N); E = elem_byte(c, c.t, es)
            c.ensure_mem('the bytes of the elements', st, 'data', lambda j: And(j >= c.p, j < S(c.p + es * N)), lambda j: E(S(j - c.p)))
    return Contract(w, setup, ens, api='%s_pod(data,array of %d, %d bytes each)' % ('read' if read else 'write', N, es))
def vec(w, es):
    def setup(c):
        d = start(c); c.m = c.size('m'); room(c, es * c.m); v, R = c.vector('v', c.m, es); c.t = c.mem(R).read
        return [d, v]
    def ens(c, st, rv):
        done(c, st, rv, S(es * c.m)); frame(c, st, S(es * c.m)); E = elem_byte(c, c.t, es)
        c.ensure_mem('the bytes of the elements', st, 'data', lambda j: And(j >= c.p, j < S(c.p + es * c.m)), lambda j: E(S(j - c.p)))
    return Contract(w, setup, ens, api='write_pod(data,vector of %d bytes each)' % es)
CONTRACTS = [rd(n) for n in range(1, 13)] + [wr(n) for n in range(1, 13)] + [arr('w_ra', 4, 5, True), arr('w_wa', 4, 5, False), arr('w_rc', 1, 7, True), arr('w_wc', 1, 7, False), vec('w_wv', 4), vec('w_wvc', 1)]
ASSUMPTIONS = ['the caller provides as many bytes as the values take (the API has no length)', 'misaligned access works as on x86-64 (little-endian)']
