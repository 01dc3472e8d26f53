"""Trusted contracts for compiler intrinsics and the libstdc++ members strtk calls.
Every model used in a run is recorded (USED) and listed in the evidence file."""
import re, subprocess
import z3
from vc import *

USED = set()
_dem = {}
def demangle(names):
    names = [n for n in names if n not in _dem]
    if names:
        out = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True).stdout.split('\n')
        for n, d in zip(names, out): _dem[n] = d.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'string').replace('[abi:cxx11]', '')
MODELS = []
def model(rx):
    def deco(f):
        MODELS.append((re.compile(rx + r'$'), f, rx)); return f
    return deco
_cache = {}
def lookup(name):
    if name is None: return None
    if name not in _cache:
        demangle([name])
        d = _dem[name]
        _cache[name] = None
        for rx, f, pat in MODELS:
            if rx.match(d):
                def g(x, st, ins, a, f=f, d=d):
                    if not d.startswith('llvm.'): USED.add(d)
                    return f(x, st, ins, a)
                _cache[name] = g; break
    return _cache[name]

# ------------------------------------------------------------ intrinsics
@model(r'llvm\.(lifetime|dbg|invariant|experimental|donothing|stacksave|stackrestore).*')
def _nop(x, st, ins, a): return None
@model(r'llvm\.assume')
def _assume(x, st, ins, a): return None
@model(r'llvm\.(memcpy|memmove).*')
def _memcpy(x, st, ins, a):
    x.memcpy(st, a[0], a[1], x.dom.u(a[2]) if x.dom.name == 'int' else S(a[2].t), move='memmove' in ins.d['f'])
@model(r'llvm\.memset.*')
def _memset(x, st, ins, a): x.memset(st, a[0], a[1], x.dom.u(a[2]) if x.dom.name == 'int' else S(a[2].t))
@model(r'(memcpy|memmove)')
def _memcpy2(x, st, ins, a):
    x.memcpy(st, a[0], a[1], x.dom.u(a[2]) if x.dom.name == 'int' else S(a[2].t), move=ins.d['f'] == 'memmove'); return a[0]
@model(r'memset')
def _memset2(x, st, ins, a):
    x.memset(st, a[0], x.dom.cast('trunc', a[1], 8), x.dom.u(a[2]) if x.dom.name == 'int' else S(a[2].t)); return a[0]
@model(r'llvm\.(umax|umin|smax|smin)\.i\d+')
def _minmax(x, st, ins, a):
    k = ins.d['f'].split('.')[1]
    c = x.dom.icmp({'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k], a[0], a[1])
    if c is True: return a[0]
    if c is False: return a[1]
    return x.dom.ite(c, a[0], a[1])
@model(r'llvm\.expect\..*')
def _expect(x, st, ins, a): return a[0]
@model(r'llvm\.is\.constant.*')
def _isconst(x, st, ins, a): return False
@model(r'llvm\.objectsize.*')
def _objsize(x, st, ins, a): return x.dom.const(64, -1)
@model(r'llvm\.bswap\.i\d+')
def _bswap(x, st, ins, a):
    n = a[0].w // 8
    return x.dom.bytes_join(x.dom.bytes_split(a[0], n)[::-1])
@model(r'llvm\.abs\.i\d+')
def _abs(x, st, ins, a):
    z = x.dom.const(a[0].w, 0)
    n = x.dom.bin('sub', {'nsw'} if a[1] is True else set(), z, a[0])
    return x.dom.ite(x.dom.icmp('slt', a[0], z), n, a[0])
@model(r'llvm\.fshl\.i\d+')
def _fshl(x, st, ins, a):
    w = a[0].w
    if x.dom.name != 'bv': 
        if isint(a[2].t):
            k = a[2].t % w
            if k == 0: return a[0]
            return x.dom.bin('or', set(), x.dom.bin('shl', set(), a[0], x.dom.const(w, k)), x.dom.bin('lshr', set(), a[1], x.dom.const(w, w - k)))
        raise Unsupported('fshl')
    A, B, C = [x.dom.T(v) for v in a]
    C = z3.URem(C, w)
    return x.dom.mk(w, z3.If(C == 0, A, (A << C) | z3.LShR(B, w - C)))
@model(r'llvm\.ctpop\.i\d+')
def _ctpop(x, st, ins, a):
    w = a[0].w
    if x.dom.name == 'bv':
        A = x.dom.T(a[0])
        r = z3.BitVecVal(0, w)
        for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, A))
        return x.dom.mk(w, r)
    raise Unsupported('ctpop')
@model(r'llvm\.(umul|uadd|usub)\.with\.overflow\.i\d+')
def _uovf(x, st, ins, a):
    op = {'umul': 'mul', 'uadd': 'add', 'usub': 'sub'}[ins.d['f'].split('.')[1]]
    w = a[0].w
    if x.dom.name != 'int' or (op == 'mul' and not (isint(a[0].t) or isint(a[1].t))): raise Unsupported('overflow intrinsic')
    p, q = x.dom.u(a[0]), x.dom.u(a[1])
    t = S(p * q if op == 'mul' else p + q if op == 'add' else p - q)
    o = S(Or(t < 0, t >= 1 << w)) if not isint(t) else not 0 <= t < 1 << w
    return Agg([x.dom.bin(op, set(), a[0], a[1]), o])
@model(r'llvm\.trap|abort|__clang_call_terminate|std::terminate\(\)')
def _trap(x, st, ins, a):
    x.oblige('safety', False, 'abort reached'); return 'stop'
@model(r'__cxa_allocate_exception')
def _exc(x, st, ins, a): return Ptr(x.new_region(st, 'exc', 'cells', 4096), 0)
@model(r'std::(invalid_argument|runtime_error|logic_error|out_of_range)::.*')
def _excc(x, st, ins, a): return None
@model(r'(__cxa_throw|std::__throw_\w+\(.*\))')
def _throw(x, st, ins, a):
    if not getattr(x.contract, 'may_throw', False): x.oblige('no-throw', False, 'exception thrown')
    elif getattr(x.contract, 'on_throw', None) and not x.mute and not x.dry: x.contract.on_throw(x.contract.c, st)
    return 'stop'
@model(r'operator new(\[\])?\(unsigned long\)')
def _new(x, st, ins, a):
    n = a[0]
    t = x.dom.u(n) if x.dom.name == 'int' else S(n.t)
    return Ptr(x.new_region(st, 'heap', 'array' if not isint(t) else ('array' if getattr(x.contract, 'heap_arrays', True) else 'cells'), t, getattr(x.contract, 'heap_es', 1)), 0)
@model(r'operator delete(\[\])?\(void\*(, unsigned long)?\)')
def _del(x, st, ins, a):
    p = a[0]
    if p.r == NULL: return None
    rs = st.mem[p.r]
    x.oblige('safety', And(rs.alive, Eq(p.o, 0)), 'delete of a live allocation')
    st.mem[p.r] = rs.upd(alive=False)
@model(r'(bcmp|memcmp)')
def _memcmp(x, st, ins, a):
    p, q = a[0], a[1]
    n = S(x.dom.u(a[2]) if x.dom.name == 'int' else a[2].t)
    if isint(n):
        if n == 0: return x.dom.const(32, 0)
        if n > 64: raise Unsupported('memcmp large')
        eq, sg = True, 0
        A = [x.load_bits(st, Ptr(p.r, S(p.o + i)), 1) for i in range(n)]; B = [x.load_bits(st, Ptr(q.r, S(q.o + i)), 1) for i in range(n)]
        r = x.dom.const(32, 0)
        for i in range(n - 1, -1, -1):
            e = x.dom.icmp('eq', A[i], B[i]); l = x.dom.icmp('ult', A[i], B[i])
            r = x.dom.ite(e, r, x.dom.ite(l, x.dom.const(32, -1), x.dom.const(32, 1))) if not isinstance(e, bool) else (r if e else x.dom.ite(l, x.dom.const(32, -1), x.dom.const(32, 1)) if not isinstance(l, bool) else x.dom.const(32, -1 if l else 1))
        return r
    # symbolic length: r==0 -> all equal ; r!=0 -> a witness position w<n with different bytes (first difference)
    rp, rq = st.mem[p.r], st.mem[q.r]
    for pp, rs in ((p, rp), (q, rq)):
        x.oblige('safety', S(And(n >= 0, Or(Eq(n, 0), And(0 <= pp.o, pp.o + n <= rs.size)))), 'memcmp inside %s' % pp.r)
    r = x.dom.fresh(32, 'memcmp', signed=True)
    w = x.dom.fresh_term('mcw')
    mp, mq = rp.mem, rq.mem
    x.assume(Implies(Not(Eq(r.t, 0)), And(w >= 0, w < n, Not(Eq(mp.read(S(p.o + w)), mq.read(S(q.o + w)))))))
    for m, o in ((mp, p.o), (mq, q.o)):
        while isinstance(m, MStore): m = m.p
        if isinstance(m, MBase): x.axiom(m.f, lambda j, o=o: Implies(And(Eq(r.t, 0), j >= o, j < o + n), Eq(mp.read(S(p.o + j - o)), mq.read(S(q.o + j - o)))), fuel=2)
    return r
def seq_equal(x, st, n, m, n2, m2):
    """equality of two texts: equal lengths and no place where they differ (a witness place when they differ)"""
    r = x.dom.fresh_term('streq') ; w = x.dom.fresh_term('sqw'); eq = Eq(r, 1)
    x.assume(And(r >= 0, r <= 1)); x.assume(Implies(eq, Eq(n, n2)))
    x.assume(Implies(And(Not(eq), Eq(n, n2)), And(w >= 0, w < n, Not(Eq(m.read(w), m2.read(w))))))
    for q in (m, m2):
        while isinstance(q, MStore): q = q.p
        if isinstance(q, MBase): x.axiom(q.f, lambda j: Implies(And(eq, j >= 0, j < n), Eq(m.read(j), m2.read(j))), fuel=2)
    return eq
@model(r'bool std::operator(==|!=)<char, .*>\(string const&, string const&\)')
def _streq(x, st, ins, a):
    ra, rb = sbuf(x, st, a[0]), sbuf(x, st, a[1])
    e = seq_equal(x, st, slen(x, st, a[0]), st.mem[ra].mem, slen(x, st, a[1]), st.mem[rb].mem)
    return S(Not(e)) if 'operator!=' in _dem[ins.d['f']] else S(e)
def case_of(x, st, ins, a, lo, d):
    """C locale (glibc: values -128..255 are allowed)"""
    v = a[0]; t = x.dom.s(v); x.oblige('safety', S(And(t >= -128, t <= 255)), 'argument of toupper/tolower')
    i = S(And(t >= lo, t <= lo + 25))
    return x.dom.mk(32, S(Ite(i, t + d, t)), -128, 255) if x.dom.name == 'int' else IV(32, S(Ite(i, t + d, t)))
@model(r'toupper')
def _toupper(x, st, ins, a): return case_of(x, st, ins, a, 97, -32)
@model(r'tolower')
def _tolower(x, st, ins, a): return case_of(x, st, ins, a, 65, 32)
def cstrlen(x, st, p):
    rs = st.mem.get(p.r)
    if p.r in x.cstrs:
        n = x.cstrs[p.r]
        x.oblige('safety', S(And(0 <= p.o, p.o <= n)), 'C string pointer inside its text')
        return S(n - p.o)
    if rs is not None and isinstance(rs.mem, MConst) and isint(p.o):
        v = rs.mem.v; i = p.o
        while v[i] != 0: i += 1
        return i - p.o
    raise Unsupported('C string of unknown length')
@model(r'strlen')
def _strlen(x, st, ins, a): return mksize(x, cstrlen(x, st, a[0]))
@model(r'strnlen')
def _strnlen(x, st, ins, a):
    n = cstrlen(x, st, a[0]); m = uval(x, a[1])
    return mksize(x, S(Ite(S(n <= m), n, m)))
# ------------------------------------------------------------ std::string
# object = cell 0: pointer to a buffer region of size()+1 bytes (terminating NUL kept)
def sbuf(x, st, p):
    v = x.load_bits(st, p, 8)
    if not isinstance(v, Ptr) or v.r == NULL: raise Unsupported('not a constructed std::string')
    return v.r
def slen(x, st, p):
    return S(st.mem[sbuf(x, st, p)].size - 1)
def mksize(x, t):
    return x.dom.mk(64, t, 0, 1 << 61) if x.dom.name == 'int' else x.dom.mk(64, t if not isint(t) else z3.BitVecVal(t, 64))
def uval(x, v): return S(x.dom.u(v)) if x.dom.name == 'int' else S(v.t)
def zero8(x): return 0 if x.dom.name == 'int' else z3.BitVecVal(0, 8)
def snew(x, st, p, n, mem, nm='str'):
    r = x.new_region(st, nm, 'array', S(n + 1), 1, init=MStore(mem, n, zero8(x)))
    x.store_bits(st, p, 8, Ptr(r, 0))
    return r
def sset(x, st, p, n, mem):
    """replace contents: buffer identity kept, contents and size new; outstanding pointers become stale"""
    r = sbuf(x, st, p)
    rs = st.mem[r]
    if rs.const: x.oblige('safety', False, 'modification of const string')
    x.modify(st, ('arr', r)); x.modify(st, ('size', r))
    st.mem[r] = rs.upd(mem=MStore(mem, n, zero8(x)), size=S(n + 1), ep=x.fresh('ep'))
def lim(x, n):
    x.oblige('safety', S(And(0 <= n, n <= 1 << 60)), 'string length is sane')
def src(x, st, p, n):
    """n bytes readable at p"""
    if p.r == NULL:
        x.oblige('safety', Eq(n, 0), 'null pointer with length 0'); return MFun(lambda k: zero8(x)), 0
    rs = st.mem[p.r]
    x.oblige('safety', S(And(rs.alive, Or(Eq(n, 0), And(0 <= p.o, p.o + n <= rs.size)))), 'string source range readable')
    if rs.kind == 'cells':
        if not isint(n) or not isint(p.o) or n > 64: raise Unsupported('string source from cells')
        bs = [x.dom.bytes_split(x.load_bits(st, Ptr(p.r, p.o + i), 1), 1)[0] for i in range(n)]
        def rd(k):
            t = zero8(x)
            for i in range(n - 1, -1, -1): t = Ite2(keq(k, i), bs[i], t) if not isint(k) else (bs[i] if i == k else t)
            return t
        return MFun(rd), 0
    return rs.mem, p.o
@model(r'string::(size|length)\(\) const')
def _ssize(x, st, ins, a): return mksize(x, slen(x, st, a[0]))
@model(r'string::empty\(\) const')
def _sempty(x, st, ins, a): return S(Eq(slen(x, st, a[0]), 0))
@model(r'string::(data|c_str|begin|cbegin|_M_data)\(\)( const)?')
def _sdata(x, st, ins, a):
    r = sbuf(x, st, a[0]); return Ptr(r, 0, st.mem[r].ep)
@model(r'string::(end|cend)\(\)( const)?')
def _send(x, st, ins, a):
    r = sbuf(x, st, a[0]); return Ptr(r, slen(x, st, a[0]), st.mem[r].ep)
@model(r'string::operator\[\]\(unsigned long\)( const)?')
def _sidx(x, st, ins, a):
    r = sbuf(x, st, a[0]); k = uval(x, a[1])
    x.oblige('safety', S(And(0 <= k, k <= slen(x, st, a[0]))), 'string index in range')
    return Ptr(r, k, st.mem[r].ep)
@model(r'string::(front)\(\)( const)?')
def _sfront(x, st, ins, a):
    r = sbuf(x, st, a[0]); return Ptr(r, 0, st.mem[r].ep)
@model(r'string::(back)\(\)( const)?')
def _sback(x, st, ins, a):
    r = sbuf(x, st, a[0]); n = slen(x, st, a[0])
    x.oblige('safety', S(n > 0), 'back() of nonempty string')
    return Ptr(r, S(n - 1), st.mem[r].ep)
@model(r'string::basic_string\((std::allocator<char> const&)?\)')
def _sctor0(x, st, ins, a): snew(x, st, a[0], 0, MFun(lambda k: zero8(x)))
@model(r'string::basic_string\(string const&\)')
def _sctorc(x, st, ins, a):
    r = sbuf(x, st, a[1]); n = slen(x, st, a[1]); snew(x, st, a[0], n, st.mem[r].mem)
@model(r'string::basic_string\(string&&\)')
def _sctorm(x, st, ins, a):
    r = sbuf(x, st, a[1]); n = slen(x, st, a[1]); snew(x, st, a[0], n, st.mem[r].mem); sset(x, st, a[1], 0, st.mem[r].mem)
@model(r'string::basic_string\(char const\*, unsigned long, std::allocator<char> const&\)')
def _sctorpn(x, st, ins, a):
    n = uval(x, a[2]); lim(x, n); m, o = src(x, st, a[1], n)
    snew(x, st, a[0], n, MFun(lambda k: m.read(S(k + o))))
def _cstr(x, st, p):
    n = cstrlen(x, st, p)
    return st.mem[p.r].mem, p.o, n
@model(r'string::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)')
def _sctorcs(x, st, ins, a):
    m, o, n = _cstr(x, st, a[1]); snew(x, st, a[0], n, MFun(lambda k: m.read(S(k + o))))
@model(r'string::basic_string\(unsigned long, char, std::allocator<char> const&\)')
def _sctorfill(x, st, ins, a):
    n = uval(x, a[1]); lim(x, n); c = x.dom.bytes_split(a[2], 1)[0]; snew(x, st, a[0], n, MFun(lambda k: c))
@model(r'(void )?string::(basic_string|append|assign)<.*>\((?:(__gnu_cxx::__normal_iterator<char( const)?\*, string >|char( const)?\*|unsigned char( const)?\*), ){1}(__gnu_cxx::__normal_iterator<char( const)?\*, string >|char( const)?\*|unsigned char( const)?\*)(, std::allocator<char> const&)?\)')
def _srange(x, st, ins, a):
    d = _dem[ins.d['f']]
    p, q = a[1], a[2]
    if p.r != q.r:
        x.oblige('safety', False, 'string range of unrelated pointers'); return None
    n = S(q.o - p.o)
    x.oblige('safety', S(n >= 0), 'string range ordered'); lim(x, n)
    m, o = src(x, st, p, n)
    if 'string::basic_string' in d: snew(x, st, a[0], n, MFun(lambda k: m.read(S(k + o)))); return None
    if 'string::assign' in d: sset(x, st, a[0], n, MFun(lambda k: m.read(S(k + o))))
    else: _append(x, st, a[0], n, MFun(lambda k: m.read(S(k + o))))
    return a[0]
@model(r'string& string::(append|assign)<.*>\((__gnu_cxx::__normal_iterator<char( const)?\*, string >|char( const)?\*|unsigned char( const)?\*), (__gnu_cxx::__normal_iterator<char( const)?\*, string >|char( const)?\*|unsigned char( const)?\*)\)')
def _srange2(x, st, ins, a): return _srange(x, st, ins, a)
@model(r'string::~basic_string\(\)')
def _sdtor(x, st, ins, a):
    r = sbuf(x, st, a[0])
    x.modify(st, ('cell', a[0].r, a[0].o, 8))
    rs = st.mem[a[0].r]; cells = dict(rs.cells); cells.pop(a[0].o, None); st.mem[a[0].r] = rs.upd(cells=cells)
    st.mem[r] = st.mem[r].upd(alive=False)
def _append(x, st, p, n, m):
    r = sbuf(x, st, p); L = slen(x, st, p); old = st.mem[r].mem
    sset(x, st, p, S(L + n), MIf(lambda k: k < L, old, MFun(lambda k: m.read(S(k - L)))))
@model(r'string::append\(string const&\)|string::operator\+=\(string const&\)')
def _sapps(x, st, ins, a):
    r = sbuf(x, st, a[1]); _append(x, st, a[0], slen(x, st, a[1]), st.mem[r].mem); return a[0]
@model(r'string::append\(char const\*, unsigned long\)')
def _sapppn(x, st, ins, a):
    n = uval(x, a[2]); m, o = src(x, st, a[1], n); _append(x, st, a[0], n, MFun(lambda k: m.read(S(k + o)))); return a[0]
@model(r'string::append\(unsigned long, char\)')
def _sappfill(x, st, ins, a):
    n = uval(x, a[1]); lim(x, n); c = x.dom.bytes_split(a[2], 1)[0]; _append(x, st, a[0], n, MFun(lambda k: c)); return a[0]
@model(r'string::(append|operator\+=)\(char const\*\)')
def _sappcs(x, st, ins, a):
    m, o, n = _cstr(x, st, a[1]); _append(x, st, a[0], n, MFun(lambda k: m.read(S(k + o)))); return a[0]
@model(r'string::(push_back|operator\+=)\(char\)')
def _spush(x, st, ins, a):
    c = x.dom.bytes_split(a[1], 1)[0]; _append(x, st, a[0], 1, MFun(lambda k: c)); return a[0]
_ARG = r'(string const&|string&&|char const\*|char)'
@model(r'string std::operator\+<char, .*>\(' + _ARG + ', ' + _ARG + r'\)')
def _splus(x, st, ins, a):
    d = _dem[ins.d['f']]
    ts = d[d.rindex('(') + 1:-1].split(', ')
    parts = []
    for t, v in zip(ts, a[1:]):
        if t == 'char const*':
            m, o, n = _cstr(x, st, v); parts.append((n, (lambda k, m=m, o=o: m.read(S(k + o)))))
        elif t == 'char':
            c = x.dom.bytes_split(v, 1)[0]; parts.append((1, (lambda k, c=c: c)))
        else:
            m = st.mem[sbuf(x, st, v)].mem; parts.append((slen(x, st, v), (lambda k, m=m: m.read(k))))
    (n1, f1), (n2, f2) = parts
    snew(x, st, a[0], S(n1 + n2), MIf(lambda k: k < n1, MFun(f1), MFun(lambda k: f2(S(k - n1)))))
@model(r'string::clear\(\)')
def _sclear(x, st, ins, a): sset(x, st, a[0], 0, MFun(lambda k: zero8(x)))
@model(r'string::resize\(unsigned long(, char)?\)')
def _sresize(x, st, ins, a):
    n = uval(x, a[1]); lim(x, n)
    c = x.dom.bytes_split(a[2], 1)[0] if len(a) > 2 else zero8(x)
    r = sbuf(x, st, a[0]); L = slen(x, st, a[0]); old = st.mem[r].mem
    sset(x, st, a[0], n, MIf(lambda k: k < L, old, MFun(lambda k: c)))
@model(r'string::reserve\(unsigned long\)')
def _sreserve(x, st, ins, a):
    r = sbuf(x, st, a[0]); st.mem[r] = st.mem[r].upd(ep=x.fresh('ep'))
@model(r'string::(operator=|assign)\(string( const)?&&?\)')
def _sassign(x, st, ins, a):
    r = sbuf(x, st, a[1]); sset(x, st, a[0], slen(x, st, a[1]), st.mem[r].mem); return a[0]
@model(r'string::assign\(char const\*, unsigned long\)')
def _sassignpn(x, st, ins, a):
    n = uval(x, a[2]); lim(x, n); m, o = src(x, st, a[1], n); sset(x, st, a[0], n, MFun(lambda k: m.read(S(k + o)))); return a[0]
@model(r'string::assign\(unsigned long, char\)')
def _sassignf(x, st, ins, a):
    n = uval(x, a[1]); lim(x, n); c = x.dom.bytes_split(a[2], 1)[0]; sset(x, st, a[0], n, MFun(lambda k: c)); return a[0]
@model(r'string::(operator=|assign)\(char const\*\)')
def _sassigncs(x, st, ins, a):
    m, o, n = _cstr(x, st, a[1]); sset(x, st, a[0], n, MFun(lambda k: m.read(S(k + o)))); return a[0]
@model(r'string::swap\(string&\)|void std::swap<char, .*>\(string&, string&\)')
def _sswap(x, st, ins, a):
    ra, rb = sbuf(x, st, a[0]), sbuf(x, st, a[1])
    na, nb = slen(x, st, a[0]), slen(x, st, a[1]); ma, mb = st.mem[ra].mem, st.mem[rb].mem
    sset(x, st, a[0], nb, mb); sset(x, st, a[1], na, ma)
@model(r'string::max_size\(\) const')
def _smax(x, st, ins, a): return x.dom.const(64, (1 << 62) - 1)
@model(r'std::allocator<.*>::(~?allocator)\(.*\)|std::__new_allocator<.*>::.*|std::allocator<.*>::.*')
def _alloc(x, st, ins, a): return None

# ------------------------------------------------------------ std::vector<T> (contiguous): cells begin,end,cap
def vget(x, st, p):
    b = x.load_bits(st, p, 8); e = x.load_bits(st, Ptr(p.r, S(p.o + 8)), 8)
    return b, e
_ESZ = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'float': 4, 'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'double': 8}
def vempty(x, st, p, es, nm='vec'):
    r = x.new_region(st, nm, 'array', 0, es)
    for o in (0, 8, 16): x.store_bits(st, Ptr(p.r, S(p.o + o)), 8, Ptr(r, 0))
    return r
def vset(x, st, p, mem, size):
    b, e = vget(x, st, p)
    if not isinstance(b, Ptr) or b.r == NULL: raise Unsupported('not a constructed std::vector')
    x.modify(st, ('arr', b.r)); x.modify(st, ('size', b.r))
    st.mem[b.r] = st.mem[b.r].upd(size=size, mem=mem, ep=x.fresh('ep'))
    x.store_bits(st, Ptr(p.r, S(p.o + 8)), 8, Ptr(b.r, size)); x.store_bits(st, Ptr(p.r, S(p.o + 16)), 8, Ptr(b.r, size))
@model(r'std::vector<.*>::vector\(\)')
def _vctor0(x, st, ins, a):
    t = re.match(r'std::vector<(.*?), std::allocator', _dem[ins.d['f']]).group(1)
    if t not in _ESZ: raise Unsupported('vector of ' + t)
    vempty(x, st, a[0], _ESZ[t])
@model(r'std::vector<.*>::vector\(std::vector<.*> const&\)')
def _vctorc(x, st, ins, a):
    b, e = vget(x, st, a[1]); rs = st.mem[b.r]
    vempty(x, st, a[0], rs.es); vset(x, st, a[0], rs.mem, rs.size)
@model(r'std::vector<.*>::vector\(unsigned long, .* const&, std::allocator<.*> const&\)')
def _vctorn(x, st, ins, a):
    t = re.match(r'std::vector<(.*?), std::allocator', _dem[ins.d['f']]).group(1)
    if t not in _ESZ: raise Unsupported('vector of ' + t)
    es = _ESZ[t]; n = uval(x, a[1]); lim(x, n)
    v = x.load_bits(st, a[2], es)
    e = S(x.dom.u(v)) if es > 1 else x.dom.bytes_split(v, 1)[0]
    vempty(x, st, a[0], es); vset(x, st, a[0], MFun(lambda k: e), S(n * es))
@model(r'std::vector<.*>::operator=\(std::vector<.*> const&\)')
def _vassign(x, st, ins, a):
    b, e = vget(x, st, a[1]); d, _ = vget(x, st, a[0])
    if d.r != b.r: vset(x, st, a[0], st.mem[b.r].mem, st.mem[b.r].size)
    return a[0]
@model(r'std::vector<.*>::~vector\(\)')
def _vdtor(x, st, ins, a):
    b, e = vget(x, st, a[0])
    if isinstance(b, Ptr) and b.r != NULL: st.mem[b.r] = st.mem[b.r].upd(alive=False)
@model(r'std::vector<.*>::push_back\(.*\)')
def _vpush(x, st, ins, a):
    b, e = vget(x, st, a[0])
    if not isinstance(b, Ptr) or b.r == NULL: raise Unsupported('push_back on unmodelled vector')
    rs = st.mem[b.r]; es = rs.es
    v = x.load_bits(st, a[1], es)
    x.modify(st, ('arr', b.r)); x.modify(st, ('size', b.r))
    k = lindiv(rs.size, es)
    st.mem[b.r] = rs.upd(size=S(rs.size + es), mem=MStore(rs.mem, k, S(x.dom.u(v)) if es > 1 else x.dom.bytes_split(v, 1)[0]), ep=x.fresh('ep'))
    x.store_bits(st, Ptr(a[0].r, S(a[0].o + 8)), 8, Ptr(b.r, S(rs.size + es)))
@model(r'std::vector<.*>::resize\(unsigned long\)')
def _vresize(x, st, ins, a):
    b, e = vget(x, st, a[0])
    if not isinstance(b, Ptr) or b.r == NULL: raise Unsupported('resize on unmodelled vector')
    rs = st.mem[b.r]; es = rs.es
    n = uval(x, a[1]); lim(x, n)
    L = lindiv(rs.size, es); old = rs.mem
    z = 0 if x.dom.name == 'int' else z3.BitVecVal(0, 8 * es)
    x.modify(st, ('arr', b.r)); x.modify(st, ('size', b.r))
    st.mem[b.r] = rs.upd(size=S(n * es), mem=MIf(lambda k: k < L, old, MFun(lambda k: z)), ep=x.fresh('ep'))
    x.store_bits(st, Ptr(a[0].r, S(a[0].o + 8)), 8, Ptr(b.r, S(n * es)))
@model(r'std::vector<.*>::reserve\(unsigned long\)')
def _vreserve(x, st, ins, a): return None
@model(r'std::vector<.*>::clear\(\)')
def _vclear(x, st, ins, a):
    b, e = vget(x, st, a[0])
    rs = st.mem[b.r]
    x.modify(st, ('size', b.r))
    st.mem[b.r] = rs.upd(size=0, ep=x.fresh('ep'))
    x.store_bits(st, Ptr(a[0].r, S(a[0].o + 8)), 8, Ptr(b.r, 0))

# ------------------------------------------------------------ std::stack<pair<size_t,char*>>: last in, first out
def _stk(a): return ('stack', a.r, a.o)
@model(r'std::stack<.*>::stack.*\(\)')
def _stkc(x, st, ins, a): x.modify(st, ('ghost', _stk(a[0]))); st.ghost[_stk(a[0])] = ()
@model(r'std::stack<.*>::~stack\(\)')
def _stkd(x, st, ins, a): x.modify(st, ('ghost', _stk(a[0]))); st.ghost.pop(_stk(a[0]), None)
@model(r'std::stack<.*>::push\(.*\)')
def _stkp(x, st, ins, a):
    if st.mem[a[1].r].kind != 'cells': raise Unsupported('stack element')
    r = x.new_region(st, 'stk', 'cells', 16)
    x.memcpy(st, Ptr(r, 0), a[1], 16)
    x.modify(st, ('ghost', _stk(a[0])))
    st.ghost[_stk(a[0])] = st.ghost[_stk(a[0])] + (r,)
@model(r'std::stack<.*>::(empty|size)\(\) const')
def _stke(x, st, ins, a):
    n = len(st.ghost[_stk(a[0])])
    return n == 0 if 'empty' in _dem[ins.d['f']].split('::')[-1] else x.dom.const(64, n)
@model(r'std::stack<.*>::top\(\)( const)?')
def _stkt(x, st, ins, a):
    s = st.ghost[_stk(a[0])]
    if not s: x.oblige('safety', False, 'top() of an empty stack'); return 'stop'
    return Ptr(s[-1], 0)
@model(r'std::stack<.*>::pop\(\)')
def _stkpop(x, st, ins, a):
    s = st.ghost[_stk(a[0])]
    if not s: x.oblige('safety', False, 'pop() of an empty stack'); return 'stop'
    x.modify(st, ('ghost', _stk(a[0]))); st.ghost[_stk(a[0])] = s[:-1]
