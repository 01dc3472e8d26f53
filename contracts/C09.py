"""C09 binary reader/writer: each operation, from an arbitrary position, consumes/produces exactly its bytes or fails inside the buffer."""
from tokens import *
def join(f, p, w, be=False):
    """value of the w bytes at p, least significant first (or last)"""
    t = 0
    for i in range(w): t = t + f(S(p + (w - 1 - i if be else i))) * 256 ** i
    return S(t)
def byte(v, i):
    if isinstance(v, list): return v[i]
    return S((v / 256 ** i) % 256) if not isint(v) else (v >> 8 * i) & 255
def rd_setup(c, con):
    c.L = c.size('L'); b = c.buf('in', c.L); c.src = c.mem('in').read
    k = c.int('k', 32, signed=True); kk = c.s(k)
    c.P = S(Ite(And(kk >= 0, kk <= c.L), kk, 0))
    c.pos = c.obj('pos', 8); c.ptr = c.obj('ptr', 8)
    return [b, IV(64, c.L, 0, 1 << 40), k, c.pos, c.ptr]
def position(c, st):
    return c.u(c.x.load_bits(st, c.pos, 8))
def post_pos(c, st, ok, need, fails=()):
    """ok exactly when the bytes are there; the position moves by them; otherwise it is the old one (or, after a length prefix, just behind that)"""
    p = position(c, st); q = c.x.load_bits(st, c.ptr, 8)
    c.ensure('succeeds exactly when the bytes are there', Eq(ok, S(c.P + need <= c.L)))
    c.ensure('position moves by exactly the bytes taken', Implies(ok, Eq(p, c.P + need)))
    c.ensure('a failure leaves the position where it was (or behind the length prefix)', Implies(Not(ok), Or(Eq(p, c.P), *[And(Eq(p, c.P + d), c.P + d <= c.L) for d in fails])))
    c.ensure('position() and position_ptr() agree', And(q.r == 'in', Eq(q.o, p)) if isinstance(q, Ptr) else False)
def same_in(c, st, j0=0):
    c.ensure_mem('the buffer is not written', st, 'in', lambda j: And(j >= 0, j < c.L), lambda j: c.src(j))
def pod(w, size, be=False, api=''):
    def setup(c):
        a = rd_setup(c, None); o = c.int('old', 8 * size); c.old = c.u(o); c.o = c.obj('o', size, {0: (size, o)})
        return a + [c.o]
    def ens(c, st, rv):
        post_pos(c, st, rv, size)
        v = c.u(c.x.load_bits(st, c.o, size))
        c.ensure('the value of the bytes at the position', Implies(rv, Eq(v, join(c.src, c.P, size, be))))
        c.ensure('a failure leaves the target alone', Implies(Not(rv), Eq(v, c.old)))
        same_in(c, st)
    return Contract(w, setup, ens, api=api)
def pair():
    def setup(c):
        a = rd_setup(c, None); c.o = c.obj('o', 8, {0: (4, c.int('old1', 32)), 4: (2, c.int('old2', 16))})
        return a + [c.o]
    def ens(c, st, rv):
        post_pos(c, st, rv, 6, (4,))
        c.ensure('both values', Implies(rv, And(Eq(c.u(c.x.load_bits(st, c.o, 4)), join(c.src, c.P, 4)), Eq(c.u(c.x.load_bits(st, Ptr(c.o.r, 4), 2)), join(c.src, c.P + 4, 2)))))
        same_in(c, st)
    return Contract('w_rp', setup, ens, api='reader(pair<int,short>)')
def arr():
    def setup(c):
        a = rd_setup(c, None); o = c.buf('o', 3, 4); c.old = c.mem('o').read
        return a + [o]
    def ens(c, st, rv):
        post_pos(c, st, rv, 12)
        c.ensure_mem('the elements', st, 'o', lambda j: And(rv, j >= 0, j < 3), lambda j: join(c.src, S(c.P + 4 * j), 4))
        c.ensure_mem('untouched on failure', st, 'o', lambda j: And(Not(rv), j >= 0, j < 3), lambda j: c.old(j))
        same_in(c, st)
    return Contract('w_ra', setup, ens, api='reader(int[3])')
def strr(w, pre, api):
    def setup(c):
        a = rd_setup(c, None); c.o, c.R, c.n0 = c.string('o'); c.old = c.mem(c.R).read
        if pre is None: m = c.int('m', 64); c.m = c.u(m); return a + [c.o, c.obj('m', 8, {0: (8, m)})]
        return a + [c.o]
    def ens(c, st, rv):
        W = pre or 0
        n = c.m if pre is None else join(c.src, c.P, W)
        have = S(c.P + W <= c.L) if W else True
        need = S(Ite(have, n + W, W) if W else n)
        post_pos(c, st, rv, need, (W,))
        r, ln = c.strbuf(st, c.o)
        c.ensure('as long as the prefix says', Implies(rv, Eq(ln, n)))
        c.ensure_mem('the bytes', st, r, lambda j: And(rv, j >= 0, j < n), lambda j: c.src(S(c.P + W + j)))
        if pre in (None, 4):
            c.ensure('untouched on failure', Implies(Not(rv), Eq(ln, c.n0)))
            c.ensure_mem('untouched on failure', st, r, lambda j: And(Not(rv), j >= 0, j < c.n0), lambda j: c.old(j))
        same_in(c, st)
    return Contract(w, setup, ens, api=api)
def vec(w, es, api):
    def setup(c):
        a = rd_setup(c, None); c.n0 = c.size('n0'); c.o, c.R = c.vector('o', c.n0, es); c.old = c.mem(c.R).read
        return a + [c.o]
    def ens(c, st, rv):
        n = join(c.src, c.P, 4)
        post_pos(c, st, rv, S(Ite(c.P + 4 <= c.L, es * n + 4, 4)), (4,))
        e = c.x.load_bits(st, Ptr(c.o.r, 8), 8)
        c.ensure('as many elements as the prefix says', Implies(rv, Eq(e.o, es * n)))
        c.ensure_mem('the elements', st, c.R, lambda j: And(rv, j >= 0, j < n), lambda j: join(c.src, S(c.P + 4 + es * j), es))
        c.ensure('untouched on failure', Implies(Not(rv), Eq(e.o, es * c.n0)))
        c.ensure_mem('untouched on failure', st, c.R, lambda j: And(Not(rv), j >= 0, j < c.n0), lambda j: c.old(j))
        same_in(c, st)
    return Contract(w, setup, ens, api=api)
def seqr(w, push, api):
    """elements are appended one by one; each is compared as it is appended"""
    def hook(x, st, ins, a):
        c = con.c
        k = st.ghost['cnt']; x.modify(st, ('ghost', 'cnt'))
        v = x.load_bits(st, a[1], 4)
        if not x.dry:
            x.oblige('post', S(k < join(c.src, c.P, 4)), 'no more elements than the prefix says')
            x.oblige('post', S(Eq(c.u(v), join(c.src, S(c.P + 4 + 4 * k), 4))), 'each element in turn')
        st.ghost['cnt'] = S(k + 1)
    def setup(c):
        a = rd_setup(c, None); c.st.ghost['cnt'] = 0
        return a + [c.obj('o', 80)]
    def ens(c, st, rv):
        n = join(c.src, c.P, 4)
        post_pos(c, st, rv, S(Ite(c.P + 4 <= c.L, 4 * n + 4, 4)), (4,))
        c.ensure('as many elements as the prefix says', Eq(st.ghost['cnt'], Ite(rv, n, 0)))
        same_in(c, st)
    def tpl(c, st0, st, b, b0):
        L = []
        for k, v in b.vals.items():
            if isinstance(v, IV) and v.w == 64 and not k.startswith('ghost'):
                L.append(Cand('%s==cnt' % k, lambda b, k=k: Eq(b[k].t, b.st.ghost['cnt'])))
                L.append(Cand('%s==P+4+4cnt' % k, lambda b, k=k: Eq(b[k].t, c.P + 4 + 4 * b.st.ghost['cnt'])))
            if isinstance(v, Ptr) and v.r == 'in': L.append(Cand('%s==P+4+4cnt' % k, lambda b, k=k: Eq(b[k].o, c.P + 4 + 4 * b.st.ghost['cnt'])))
        L.append(Cand('cnt<=n', lambda b: b.st.ghost['cnt'] <= join(c.src, c.P, 4)))
        return L
    con = Contract(w, setup, ens, tpl, hooks={push: hook}, api=api)
    return con
def raw(w, es, lw, read, api):
    """reader(T*&, length, read_length)"""
    def setup(c):
        a = rd_setup(c, None)
        c.m = c.u(c.int('m', 8 * lw))
        if not read: c.assume(c.m < 1 << 32)
        c.no = c.obj('n', lw, {0: (lw, c.iv(8 * lw, c.m))})
        if read: d = c.obj('d', 8, {0: (8, Ptr(NULL, 0))}); c.d = d
        else: c.assume(c.m <= 1 << 32); d = c.buf('d', c.m, es); c.old = c.mem('d').read
        return a + [d, c.no]
    def ens(c, st, rv):
        n2 = c.u(c.x.load_bits(st, c.no, lw))
        if read:
            n = join(c.src, c.P, 4)
            post_pos(c, st, rv, S(Ite(c.P + 4 <= c.L, es * n + 4, 4)), (4,))
            c.ensure('reports the length', Implies(rv, Eq(n2, n)))
            d = st.mem['d'].cells[0][1]
            if c.x.check(5000) is None: pass
            if isinstance(d, Ptr) and d.r == NULL: c.ensure('allocates the elements', Not(rv))
            elif isinstance(d, Ptr):
                c.ensure('allocates exactly the elements', And(d.o == 0, Eq(st.mem[d.r].size, es * n)))
                c.ensure_mem('the elements', st, d.r, lambda j: And(rv, j >= 0, j < n), lambda j: join(c.src, S(c.P + 4 + es * j), es))
            else: c.ensure('allocates the elements', False)
        else:
            post_pos(c, st, rv, S(es * c.m))
            c.ensure('length unchanged', Eq(n2, c.m))
            c.ensure_mem('the elements', st, 'd', lambda j: And(rv, j >= 0, j < c.m), lambda j: join(c.src, S(c.P + es * j), es))
            c.ensure_mem('untouched on failure', st, 'd', lambda j: And(Not(rv), j >= 0, j < c.m), lambda j: c.old(j))
        same_in(c, st)
    con = Contract(w, setup, ens, api=api); con.heap_es = es
    return con
def rmove(w, kind, api):
    def setup(c):
        a = rd_setup(c, None)
        if kind == 'rewind': n = c.int('n', 64); c.n = c.u(n)
        else: n = c.int('n', 32, signed=True); c.n = c.s(n)
        return a + [n]
    def ens(c, st, rv):
        p = position(c, st); q = c.x.load_bits(st, c.ptr, 8)
        np = {'seek': c.P + c.n, 'rewind': c.P - c.n}.get(kind, 0)
        if kind == 'rewind': c.ensure('succeeds exactly when that much was read', Eq(rv, c.n <= c.P))
        elif kind == 'seek': c.ensure('succeeds exactly when it stays inside the buffer', Eq(rv, And(np >= 0, np <= c.L)))
        c.ensure('moves exactly there, or not at all', Eq(p, Ite(rv, np, c.P)))
        c.ensure('position() and position_ptr() agree', And(q.r == 'in', Eq(q.o, p)) if isinstance(q, Ptr) else False)
        if kind == 'clear': c.ensure_mem('all bytes zero', st, 'in', lambda j: And(j >= 0, j < c.L), lambda j: 0)
        else: same_in(c, st)
    return Contract(w, setup, ens, api=api)
def rmark():
    def setup(c):
        a = rd_setup(c, None); A = c.int('a', 32, signed=True); B = c.int('c', 32, signed=True); c.A = c.s(A)
        return a + [A, B, c.buf('o', 5, 8)]
    def ens(c, st, rv):
        o = [c.mem('o', st).read(i) for i in range(5)]
        c.ensure('two marks can be returned to, a third cannot', rv)
        c.ensure('the last mark first', And(Eq(o[1], o[0]), Eq(o[2], o[0])))
        c.ensure('then the one before', And(Eq(o[3], c.P), Eq(o[4], c.P)))
        c.ensure('position is the first mark', Eq(position(c, st), c.P))
        same_in(c, st)
    return Contract('w_mark', setup, ens, api='reader::mark/reset_to_mark')
# ------------------------------------------------------------ writer
def wr_setup(c):
    c.L = c.size('L'); b = c.buf('out', c.L); c.was = c.mem('out').read
    k = c.int('k', 32); kk = c.u(k); c.buf('pre', kk, const=True); c.pre = c.mem('pre').read
    c.P = S(Ite(kk <= c.L, kk, 0))
    c.pos = c.obj('pos', 8); c.ptr = c.obj('ptr', 8)
    return [b, IV(64, c.L, 0, 1 << 40), Ptr('pre', 0), k, c.pos, c.ptr]
def wr_post(c, st, ok, need, expr, fails=(), okcond=True, fexpr=None):
    """expr(i): the i-th byte produced; fails: prefix lengths that may have been written before a failure"""
    p = position(c, st); q = c.x.load_bits(st, c.ptr, 8)
    c.ensure('succeeds exactly when there is room', Eq(ok, S(And(okcond, c.P + need <= c.L))))
    c.ensure('position moves by exactly the bytes produced', Implies(ok, Eq(p, c.P + need)))
    c.ensure('a failure leaves the position where it was (or behind the length prefix)', Implies(Not(ok), Or(Eq(p, c.P), *[And(Eq(p, c.P + d), c.P + d <= c.L) for d in fails])))
    c.ensure('position() and position_ptr() agree', And(q.r == 'out', Eq(q.o, p)) if isinstance(q, Ptr) else False)
    c.ensure_mem('what was written before stays', st, 'out', lambda j: And(j >= 0, j < c.P), lambda j: c.pre(j))
    c.ensure_mem('exactly the bytes of the value', st, 'out', lambda j: And(j >= c.P, j < p), lambda j: expr(S(j - c.P)))
    c.ensure_mem('nothing behind the position is touched', st, 'out', lambda j: And(j >= p, j < c.L), lambda j: c.was(j))
def bytes_of(v, w, be=False):
    def f(i):
        t = byte(v, 0 if be else w - 1)
        for q in range(w - 1): t = Ite(S(i == q), byte(v, w - 1 - q if be else q), t)
        return t
    return f
def wpod(w, size, be=False, api=''):
    def setup(c):
        a = wr_setup(c); v, c.vv = c.bytes_int('v', size); return a + [c.obj('v', size, {0: (size, v)})]
    def ens(c, st, rv): wr_post(c, st, rv, size, bytes_of(c.vv, size, be))
    return Contract(w, setup, ens, api=api)
def wpair():
    def setup(c):
        a = wr_setup(c); v, c.vv = c.bytes_int('v', 4); u, c.ww = c.bytes_int('u', 2); return a + [c.obj('v', 8, {0: (4, v), 4: (2, u)})]
    def ens(c, st, rv): wr_post(c, st, rv, 6, lambda i: Ite(i < 4, bytes_of(c.vv, 4)(i), bytes_of(c.ww, 2)(S(i - 4))), (4,))
    return Contract('w_wp', setup, ens, api='writer(pair<int,short>)')
def elem_byte(c, src, es):
    def f(i):
        if es == 1: return src(i)
        e = src(c.div(i, es)); m = c.mod(i, es)
        t = byte(e, es - 1)
        for q in range(es - 1): t = Ite(S(Eq(m, q)), byte(e, q), t)
        return t
    return f
def wraw(w, es, kind, lw=0, api=''):
    """kind: array of 3 / raw pointer and length of lw bytes (0: no prefix written) / string / vector"""
    def setup(c):
        a = wr_setup(c)
        if kind == 'arr': c.n = 3; x = [c.buf('d', 3, es, const=True)]; R = 'd'
        elif kind in ('raw', 'rawp'): n = c.int('n', 8 * lw); c.n = c.u(n); c.assume(c.n < 1 << 32); x = [c.buf('d', c.n, es, const=True), n]; R = 'd'
        elif kind == 'vec': c.n = c.size('n', (1 << 32) - 1); v, R = c.vector('d', c.n, es); x = [v]
        else: c.n = c.size('n', (1 << 32) - 1); v, R, _ = c.string('d', n=c.n, const=True); x = [v]
        c.d = c.mem(R).read
        return a + x
    def ens(c, st, rv):
        W = {'arr': 0, 'raw': 0, 'short': 2, 'pascal': 1}.get(kind, 4)
        E = elem_byte(c, c.d, es)
        lim = c.n < 256 ** W if kind in ('short', 'pascal') else True
        ex = lambda i: Ite(S(i < W), bytes_of(c.n, W)(i), E(S(i - W))) if W else E(i)
        wr_post(c, st, rv, S(es * c.n + W), ex, (W,), lim)
    return Contract(w, setup, ens, api=api)
def wpad(w, left, api):
    def setup(c):
        a = wr_setup(c); c.n = c.size('n', (1 << 32) - 1); v, R, _ = c.string('d', n=c.n, const=True); c.d = c.mem(R).read
        m = c.int('m', 64); c.m = c.u(m); c.assume(Or(c.m < 1 << 32, c.m > c.L)); ch = c.int('ch', 8); c.ch = c.u(ch)
        return a + [v, c.obj('m', 8, {0: (8, m)}), ch]
    def ens(c, st, rv):
        if left: ex = lambda i: Ite(S(i < c.m - c.n), c.ch, c.d(S(i - c.m + c.n)))
        else: ex = lambda i: Ite(S(i < c.n), c.d(i), c.ch)
        wr_post(c, st, rv, c.m, ex, (), c.n <= c.m)
    return Contract(w, setup, ens, api=api)
def wmove(w, clear, api):
    def setup(c): return wr_setup(c) + [c.int('z', 32)]
    def ens(c, st, rv):
        q = c.x.load_bits(st, c.ptr, 8)
        c.ensure('back at the start', And(Eq(position(c, st), 0), q.r == 'out', Eq(q.o, 0)))
        c.ensure_mem('buffer contents', st, 'out', lambda j: And(j >= 0, j < c.L), lambda j: 0 if clear else Ite(j < c.P, c.pre(j), c.was(j)))
    return Contract(w, setup, ens, api=api)
def wmark():
    def setup(c):
        a = wr_setup(c); v = c.int('v', 32); return a + [c.obj('v', 4, {0: (4, v)}), c.buf('o', 5, 8)]
    def ens(c, st, rv):
        o = [c.mem('o', st).read(i) for i in range(5)]
        c.ensure('two marks can be returned to, a third cannot', rv)
        c.ensure('the last mark first', And(Eq(o[1], o[0]), Eq(o[2], o[0]), Eq(o[0], Ite(c.P + 4 <= c.L, c.P + 4, c.P))))
        c.ensure('then the one before', And(Eq(o[3], c.P), Eq(o[4], c.P)))
        c.ensure('position is the first mark', Eq(position(c, st), c.P))
    return Contract('w_wmark', setup, ens, api='writer::mark/reset_to_mark')
def rtrip(w, vec):
    """what one writer wrote is what a reader of exactly those bytes reads back"""
    def setup(c):
        L = c.size('L'); b = c.buf('buf', L); m = (1 << 32) - 1
        N = 2 if vec else 4
        i, _ = c.bytes_int('i', N); c.i = c.u(i); c.i2 = c.obj('i2', N)
        c.n0 = c.size('n0', m); h = [b, IV(64, L, 0, 1 << 40), c.obj('i', N, {0: (N, i)})]; c.L, c.n, c.N = L, c.obj('n', 8), N
        if vec:
            v, vr = c.vector('v', c.n0, 4); c.v0 = c.mem(vr).read; c.v2, c.vr2 = c.vector('v2', c.size('nv2'), 4)
            return h + [v, c.i2, c.v2, c.n]
        s, sr, _ = c.string('s', n=c.n0, const=True); c.v0 = c.mem(sr).read; c.s2, _, _ = c.string('s2')
        l, _ = c.bytes_int('l', 8); c.l = c.u(l); c.l2 = c.obj('l2', 8)
        return h + [s, c.obj('l', 8, {0: (8, l)}), c.i2, c.s2, c.l2, c.n]
    def ens(c, st, rv):
        tot = 6 + 4 * c.n0 if vec else 16 + c.n0
        ld = lambda p, n: c.u(c.x.load_bits(st, p, n))
        c.ensure('succeeds exactly when everything fits', Eq(rv, tot <= c.L))
        c.ensure('the first value comes back', Implies(rv, Eq(ld(c.i2, c.N), c.i)))
        if vec: e = c.x.load_bits(st, Ptr(c.v2.r, 8), 8); r, n = c.vr2, c.div(e.o, 4)
        else: r, n = c.strbuf(st, c.s2); c.ensure('the last value comes back', Implies(rv, Eq(ld(c.l2, 8), c.l)))
        c.ensure('as many elements come back', Implies(rv, Eq(n, c.n0)))
        c.ensure_mem('the elements come back', st, r, lambda j: And(rv, j >= 0, j < c.n0), lambda j: c.v0(j))
    return Contract(w, setup, ens, api='write then read back (%s)' % ('short, vector<int>' if vec else 'int, string, long long'))
CONTRACTS = [pod('w_rc', 1, api='reader(char)'), pod('w_rh', 2, api='reader(short)'), pod('w_ri', 4, api='reader(int)'), pod('w_rl', 8, api='reader(long long)'), pod('w_rul', 8, api='reader(unsigned long)'),
    pair(), arr(), strr('w_rs', 4, 'reader(string)'), strr('w_rt', None, 'reader(T&,size)'), strr('w_rsh', 2, 'reader(short_string)'), strr('w_rps', 1, 'reader(pascal_string)'),
    vec('w_rv', 4, 'reader(vector<int>)'), vec('w_rvl', 8, 'reader(vector<u64>)'),
    seqr('w_rd', '_ZNSt5dequeIiSaIiEE9push_backERKi', 'reader(deque<int>)'), seqr('w_rli', '_ZNSt7__cxx114listIiSaIiEE9push_backERKi', 'reader(list<int>)'),
    raw('w_rn', 1, 4, False, 'reader(char*,uint32,false)'), raw('w_rni', 4, 4, False, 'reader(int*,uint32,false)'), raw('w_rm', 4, 4, True, 'reader(int*&,uint32,true)'),
    raw('w_rn8', 4, 8, False, 'reader(int*,uint64,false)'), raw('w_rm8', 1, 8, True, 'reader(char*&,uint64,true)'),
    rmove('w_seek', 'seek', 'reader::seek'), rmove('w_rew', 'rewind', 'reader::rewind'), rmove('w_reset', 'reset', 'reader::reset'), rmove('w_clear', 'clear', 'reader::clear'), rmark()]
for w, n, be in (('w_rbh', 2, 1), ('w_rbi', 4, 1), ('w_rbl', 8, 1), ('w_rbuh', 2, 1), ('w_rbui', 4, 1), ('w_rbul', 8, 1), ('w_rlh', 2, 0), ('w_rli4', 4, 0), ('w_rll', 8, 0)):
    CONTRACTS.append(pod(w, n, be, 'reader::%s_to_native (%d bytes)' % ('be' if be else 'le', n)))
for w, n in (('w_wc', 1), ('w_wh', 2), ('w_wi', 4), ('w_wl', 8)): CONTRACTS.append(wpod(w, n, api='writer(%d bytes)' % n))
for w, n, be in (('w_wbh', 2, 1), ('w_wbi', 4, 1), ('w_wbl', 8, 1), ('w_wlh', 2, 0), ('w_wli', 4, 0), ('w_wll', 8, 0)): CONTRACTS.append(wpod(w, n, be, 'writer::native_to_%s (%d bytes)' % ('be' if be else 'le', n)))
CONTRACTS += [wpair(), wraw('w_wa', 4, 'arr', api='writer(int[3])'), wraw('w_ws', 1, 'str', api='writer(string)'), wraw('w_wv', 4, 'vec', api='writer(vector<int>)'),
    wraw('w_wn', 1, 'raw', 4, 'writer(char*,n,false)'), wraw('w_wm', 1, 'rawp', 4, 'writer(char*,n,true)'), wraw('w_wni', 4, 'raw', 4, 'writer(int*,n,false)'), wraw('w_wmi', 4, 'rawp', 4, 'writer(int*,n,true)'),
    wraw('w_wn8', 4, 'rawp', 8, 'writer(int*,uint64 n,true)'), wraw('w_wsh', 1, 'short', api='writer(short_string)'), wraw('w_wps', 1, 'pascal', api='writer(pascal_string)'),
    wpad('w_wpr', False, 'writer(T,size,right_padding)'), wpad('w_wpl', True, 'writer(T,size,left_padding)'), wmove('w_wreset', False, 'writer::reset'), wmove('w_wclear', True, 'writer::clear'), wmark(), rtrip('w_rtrip', False), rtrip('w_rtripv', True)]
ASSUMPTIONS = ['lengths written with a 32-bit prefix are below 2^32', 'misaligned access through reinterpret_cast works as on x86-64 (little-endian, no alignment traps)', 'mark/reset_to_mark proved for two nested marks; deeper nesting rests on the std::stack contract']
