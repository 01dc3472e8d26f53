"""Deductive verifier: path-wise VC generation over LLVM IR with cut-point loops,
automatic (Houdini) selection of loop invariants from templates, contracts at calls,
functional memory, and spec functions given by ground-instantiated axioms.
See DESIGN.md section 'The verifier'."""
import os, z3, time, re, sys, itertools
z3.set_param('lp.dio', False)     # the Diophantine module of z3 5.3.2 overruns its time limit on some queries
import llir
sys.setrecursionlimit(100000)

class Unsupported(Exception):
    pass
class Abandon(Exception):
    pass
class Budget(Exception):
    pass

# ---------------------------------------------------------------- values
class IV:
    __slots__ = ('w', 't', 'lo', 'hi', 'pm')
    def __init__(s, w, t, lo=None, hi=None, pm=None):
        s.w, s.t, s.lo, s.hi, s.pm = w, t, lo, hi, pm
    def __repr__(s): return 'i%d(%s)' % (s.w, s.t)
class Ptr:
    __slots__ = ('r', 'o', 'ep')
    def __init__(s, r, o, ep=None):
        s.r, s.o, s.ep = r, o, ep
    def __repr__(s): return '&%s+%s' % (s.r, s.o)
class PInt:
    """integer obtained from a pointer (ptrtoint), 64 bits"""
    __slots__ = ('r', 'o')
    w = 64
    def __init__(s, r, o): s.r, s.o = r, o
class Opaque:
    __slots__ = ('what',)
    def __init__(s, what): s.what = what
    def __repr__(s): return '<%s>' % (self.what if False else s.what,)
class Agg:
    def __init__(s, v): s.v = list(v)
NULL = 'null'

def isint(t): return isinstance(t, int) and not isinstance(t, bool)
def S(t):
    if isinstance(t, (int, bool)): return t
    r = z3.simplify(t)
    if z3.is_int_value(r): return r.as_long()
    if z3.is_bv_value(r): return r.as_long()
    if z3.is_true(r): return True
    if z3.is_false(r): return False
    return r
def zb(b): return z3.BoolVal(b) if isinstance(b, bool) else b
def And(*xs):
    ys = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        ys.append(x)
    return True if not ys else ys[0] if len(ys) == 1 else z3.And(*ys)
def Or(*xs):
    ys = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        ys.append(x)
    return False if not ys else ys[0] if len(ys) == 1 else z3.Or(*ys)
def Not(x): return (not x) if isinstance(x, bool) else z3.Not(x)
def Implies(a, b): return Or(Not(a), b)
def Ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if isint(a) and isint(b) and a == b: return a
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
        return z3.If(c, zb(a), zb(b))
    if isint(a) and isint(b): return z3.If(c, z3.IntVal(a), z3.IntVal(b))
    return z3.If(c, a, b)
def Eq(a, b):
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)): return a == b
    return zb(a) == zb(b) if isinstance(a, bool) or isinstance(b, bool) else a == b
def lin(t, acc=None, k=1):
    """linear decomposition of an Int term: ({id:(term,coef)}, const)"""
    if acc is None: acc = [{}, 0]
    if isint(t): acc[1] += k * t
    elif z3.is_int_value(t): acc[1] += k * t.as_long()
    elif z3.is_add(t):
        for c in t.children(): lin(c, acc, k)
    elif z3.is_sub(t):
        cs = t.children(); lin(cs[0], acc, k)
        for c in cs[1:]: lin(c, acc, -k)
    elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)): lin(t.arg(1), acc, k * t.arg(0).as_long())
    elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(1)): lin(t.arg(0), acc, k * t.arg(1).as_long())
    elif t.decl().kind() == z3.Z3_OP_UMINUS: lin(t.arg(0), acc, -k)
    else:
        i = t.get_id()
        o = acc[0].get(i, (t, 0))
        acc[0][i] = (t, o[1] + k)
        if acc[0][i][1] == 0: del acc[0][i]
    return acc
def unlin(d, c):
    r = c
    for (t, k) in d.values(): r = r + (t if k == 1 else k * t)
    return r
def lindiv(t, c):
    """t/c if t is syntactically divisible by c, else None"""
    if c == 1: return t
    if isint(t): return t // c if t % c == 0 else None
    if z3.is_bv(t): return None
    d, k = lin(t)
    if k % c: return None
    for (_, q) in d.values():
        if q % c: return None
    return unlin({i: (u, q // c) for i, (u, q) in d.items()}, k // c)

# ---------------------------------------------------------------- memory closures
class M:
    pass
class MBase(M):
    def __init__(s, f): s.f = f
    def read(s, k): return s.f(k)
class MConst(M):
    """constant table; read compresses the table into affine runs"""
    def __init__(s, vals, dom):
        s.v, s.dom = vals, dom
        s.cache = {}
        runs, i = [], 0
        while i < len(vals):
            j = i + 1
            if j < len(vals):
                d = vals[j] - vals[i]
                while j + 1 < len(vals) and vals[j + 1] - vals[j] == d: j += 1
                if j == i + 1 and d != 0 and j + 1 < len(vals) and vals[j + 1] == vals[j]:
                    runs.append((i, i, vals[i], 0)); i = i + 1; continue
                runs.append((i, j, vals[i], d)); i = j + 1
            else:
                runs.append((i, i, vals[i], 0)); i += 1
        s.runs = runs
    def read(s, k):
        if isint(k): return s.v[k] if 0 <= k < len(s.v) else 0
        def rec(a, b):
            if a == b:
                i, j, v, d = s.runs[a]
                if d == 0 or i == j: return v
                return v + d * (k - i)
            m = (a + b) // 2
            return s.dom.Ite(k <= s.runs[m][1], rec(a, m), rec(m + 1, b))
        if s.dom.name == 'bv': return s.dom.table(s, k)
        return rec(0, len(s.runs) - 1)
class MStore(M):
    def __init__(s, p, k, v): s.p, s.k, s.v = p, k, v
    def read(s, k):
        c = keq(k, s.k)
        if c is True: return s.v
        if c is False: return s.p.read(k)
        return Ite2(c, s.v, s.p.read(k))
class MSet(M):
    def __init__(s, p, a, n, v): s.p, s.a, s.n, s.v = p, a, n, v
    def read(s, k):
        c = S(And(s.a <= k, k < s.a + s.n))
        if c is True: return s.v
        if c is False: return s.p.read(k)
        return Ite2(c, s.v, s.p.read(k))
class MCopy(M):
    def __init__(s, p, a, n, q, b): s.p, s.a, s.n, s.q, s.b = p, a, n, q, b
    def read(s, k):
        c = S(And(s.a <= k, k < s.a + s.n))
        if c is False: return s.p.read(k)
        v = s.q.read(S(k - s.a + s.b))
        if c is True: return v
        return Ite2(c, v, s.p.read(k))
class MFun(M):
    def __init__(s, fn): s.fn = fn
    def read(s, k): return s.fn(k)
class MIf(M):
    def __init__(s, c, p, q): s.c, s.p, s.q = c, p, q
    def read(s, k):
        c = S(s.c(k))
        return s.p.read(k) if c is True else s.q.read(k) if c is False else Ite2(c, s.p.read(k), s.q.read(k))
class MMap(M):
    """pointwise update: inside [a,a+n): fn(old) """
    def __init__(s, p, c, fn): s.p, s.c, s.fn = p, c, fn
    def read(s, k):
        o = s.p.read(k)
        return Ite2(s.c(k), s.fn(k, o), o)
def keq(a, b):
    if isint(a) and isint(b): return a == b
    if not isint(a) and not isint(b) and a.get_id() == b.get_id(): return True
    r = S(a == b)
    return r
def Ite2(c, a, b):
    if isint(a) and isint(b) and a == b: return a
    if not isint(a) and not isint(b) and a.get_id() == b.get_id(): return a
    return Ite(c, a, b)

class RS:
    """state of one memory region"""
    __slots__ = ('kind', 'size', 'es', 'mem', 'cells', 'alive', 'ep', 'const', 'cap')
    def __init__(s, kind, size, es=1, mem=None, cells=None, alive=True, ep=0, const=False, cap=None):
        s.kind, s.size, s.es, s.mem, s.cells, s.alive, s.ep, s.const, s.cap = kind, size, es, mem, cells, alive, ep, const, cap
    def upd(s, **kw):
        r = RS(s.kind, s.size, s.es, s.mem, s.cells, s.alive, s.ep, s.const, s.cap)
        for k, v in kw.items(): setattr(r, k, v)
        return r

# ---------------------------------------------------------------- domains
class DomInt:
    name = 'int'
    def __init__(s, x): s.x = x; s.rngs = {}; s.joins = {}
    Ite = staticmethod(Ite)
    def const(s, w, v):
        v &= (1 << w) - 1
        if v >= 1 << (w - 1) and w >= 16: return IV(w, v - (1 << w), v - (1 << w), v - (1 << w), pm=v)
        return IV(w, v, v, v, pm=v)
    def mk(s, w, t, lo=None, hi=None, pm=None):
        t = S(t)
        if isint(t): lo = hi = t
        if lo is None: lo = -(1 << 200)
        if hi is None: hi = 1 << 200
        return IV(w, t, lo, hi, pm)
    def fresh_term(s, nm): return z3.Int(s.x.fresh(nm))
    def fresh(s, w, nm, signed=False):
        t = s.fresh_term(nm)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        s.x.assume(z3.And(t >= lo, t <= hi))
        s.reg(t, lo, hi)
        return IV(w, t, lo, hi)
    def uf(s, nm, es): return z3.Function(s.x.fresh(nm), z3.IntSort(), z3.IntSort())
    def elem_axiom(s, f, es):
        hi = (1 << (8 * es)) - 1
        return lambda a: z3.And(f(a) >= 0, f(a) <= hi)
    def elem(s, w, t):
        r = s.mk(w, t, 0, (1 << w) - 1)
        s.reg(r.t, 0, (1 << w) - 1)
        return r
    def reg(s, t, lo, hi):
        """unconditional range of an atom"""
        if not isint(t): s.rngs[t.get_id()] = (t, lo, hi)
    def lrange(s, d, k):
        lo = hi = k
        for (t, q) in d.values():
            r = s.rngs.get(t.get_id())
            if r is None: return None
            lo += q * (r[1] if q > 0 else r[2]); hi += q * (r[2] if q > 0 else r[1])
        return lo, hi
    def split(s, t, m):
        """find g | m with t = g*P + R, 0<=R<g : (P, R, g), g maximal"""
        d, k = lin(t)
        if len(d) > 24: return None
        import math
        gs = {m} | {math.gcd(q, m) for (_, q) in d.values()}
        for g in sorted(gs, reverse=True):
            if g == 1: break
            R = {i: tq for i, tq in d.items() if tq[1] % g}
            kr = k % g
            rr = s.lrange(R, kr)
            if rr and rr[0] >= 0 and rr[1] < g:
                P = unlin({i: (u, q // g) for i, (u, q) in d.items() if q % g == 0}, (k - kr) // g)
                return P, unlin(R, kr), g
        return None
    def tdiv(s, t, m):
        if m == 1: return t
        if isint(t): return t // m
        r = s.split(t, m)
        if r: return r[0] if r[2] == m else s.tdiv(S(r[0]) if not isint(r[0]) else r[0], m // r[2])
        d, k = lin(t)
        P = {i: tq for i, tq in d.items() if tq[1] % m == 0}
        if P and len(P) < len(d):
            Q = {i: tq for i, tq in d.items() if tq[1] % m}
            return unlin({i: (u, q // m) for i, (u, q) in P.items()}, 0) + s.tdiv(S(unlin(Q, k)), m)
        if s.x.opts.get('flatdiv'): return s.quot(S(t), m)
        return t / m
    def quot(s, t, m):
        """floor(t/m) as an uninterpreted application with its linear definition (keeps nested divisions out of the solver)"""
        f = s.x.ufun('quot%d' % m, 1)
        if not s.x.axioms.get(f.name()): s.x.axiom(f, lambda a: And(m * f(a) <= a, a < m * f(a) + m), fuel=50)
        r = f(t)
        d, k = lin(t)
        rr = s.lrange(d, k)
        if rr: s.reg(r, rr[0] // m, rr[1] // m)
        return r
    def tmod(s, t, m):
        if isint(t): return t % m
        d, k = lin(t)
        d = {i: (u, q % m if q % m <= m // 2 or q > 0 else q) for i, (u, q) in d.items() if q % m}
        k %= m
        if not d: return k
        t = unlin(d, k)
        rr = s.lrange(d, k)
        if rr and 0 <= rr[0] and rr[1] < m: return t
        r = s.split(t, m)
        if r:
            P, R, g = r
            if g == m: return R
            if s.x.opts.get('flatdiv') and not isint(P): return g * s.tmod(S(P), m // g) + R
            return g * (P % (m // g)) + R if not isint(P) else g * (P % (m // g)) + R
        if s.x.opts.get('flatdiv'): return S(t - m * s.quot(S(t), m))
        return t % m
    def view(s, v, lo, hi):
        """term of v in window [lo,hi] (hi-lo+1==2^w)"""
        if lo <= v.lo and v.hi <= hi: return v.t
        W = 1 << v.w
        if isint(v.t):
            return (v.t - lo) % W + lo
        if s.x.proved_cached(And(v.t >= lo, v.t <= hi)): return v.t
        k0, k1 = (v.lo - lo) // W, (v.hi - lo) // W      # t - k*W in window for k0..k1
        if k1 - k0 <= 3:
            r = v.t - k1 * W if k1 else v.t
            for k in range(k1 - 1, k0 - 1, -1):
                r = Ite(v.t < lo + (k + 1) * W, v.t - k * W if k else v.t, r)
            return S(r)
        return S(s.tmod(v.t - lo, W) + lo) if lo else S(s.tmod(v.t, W))
    def u(s, v):
        if isinstance(v, PInt): v = s.pint(v)
        return s.view(v, 0, (1 << v.w) - 1)
    def s(s, v):
        if isinstance(v, PInt): v = s.pint(v)
        return s.view(v, -(1 << (v.w - 1)), (1 << (v.w - 1)) - 1)
    def pint(s, p):
        if p.r == NULL: return IV(64, p.o, p.o if isint(p.o) else -(1 << 63), p.o if isint(p.o) else 1 << 63)
        b = s.x.base_addr(p.r)
        return s.mk(64, b + p.o, 0, (1 << 64) - 1)
    def rng(s, v):
        return v.lo, v.hi
    def bin(s, op, fl, a, b):
        x = s.x
        if isinstance(a, PInt) and isinstance(b, PInt) and op == 'sub' and a.r == b.r:
            return s.mk(64, a.o - b.o, -(1 << 62), 1 << 62)
        if isinstance(a, PInt) and op in ('add', 'sub') and isinstance(b, IV):
            return PInt(a.r, S(a.o + (1 if op == 'add' else -1) * s.s(b)))
        if isinstance(b, PInt) and op == 'add' and isinstance(a, IV):
            return PInt(b.r, S(b.o + s.s(a)))
        if isinstance(a, PInt): a = s.pint(a)
        if isinstance(b, PInt): b = s.pint(b)
        w = a.w; W = 1 << w
        slo, shi = -(W >> 1), (W >> 1) - 1
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in fl:
                ta, tb = s.s(a), s.s(b)
                la, ha = s.ivl(a, ta, slo, shi); lb, hb = s.ivl(b, tb, slo, shi)
                t, lo, hi = s.arith(op, ta, tb, la, ha, lb, hb)
                if lo < slo or hi > shi:
                    x.oblige('overflow', And(slo <= t, t <= shi), 'signed %s i%d does not overflow' % (op, w))
                    lo, hi = max(lo, slo), min(hi, shi)
                return s.mk(w, t, lo, hi)
            ta, tb, la, ha, lb, hb = a.t, b.t, a.lo, a.hi, b.lo, b.hi
            t, lo, hi = s.arith(op, ta, tb, la, ha, lb, hb)
            if op == 'mul' and w == 64 and (lo < -(W * 4) or hi > W * 5) and not isint(ta) and not isint(tb):
                # product of two unknowns: exact when both are small
                B = 1 << 32
                if all(s.x.proved_cached(And(q >= -B, q <= B)) for q in (ta, tb)):
                    return s.mk(w, t, -B * B, B * B)
            if lo < -(W * 4) or hi > W * 5:
                # renormalise operands first, then the result
                ta, tb = s.u(a), s.u(b)
                la, ha = s.ivl(a, ta, 0, W - 1); lb, hb = s.ivl(b, tb, 0, W - 1)
                t, lo, hi = s.arith(op, ta, tb, la, ha, lb, hb)
                if lo < -(W * 4) or hi > W * 5:
                    r = s.mk(w, t, lo, hi)
                    return s.mk(w, s.view(r, 0, W - 1), 0, W - 1)
            return s.mk(w, t, lo, hi)
        if op in ('udiv', 'urem'):
            ta, tb = s.u(a), s.u(b)
            if isint(tb):
                if tb == 0: x.oblige('div0', False, 'division by zero')
                la, ha = s.ivl(a, ta, 0, W - 1)
                if op == 'udiv':
                    return s.mk(w, s.tdiv(ta, tb), la // tb, ha // tb)
                return s.mk(w, s.tmod(ta, tb), 0, min(tb - 1, ha))
            x.oblige('div0', tb != 0, 'division by zero')
            q = x.ufun(op, 2)(ta if not isint(ta) else z3.IntVal(ta), tb)
            if op == 'udiv': x.assume(And(q >= 0, q <= ta, Implies(ta < tb, q == 0), Implies(tb == 1, q == ta)))
            else: x.assume(And(q >= 0, q < tb, q <= ta, Implies(ta < tb, q == ta)))
            return s.mk(w, q, 0, W - 1)
        if op in ('sdiv', 'srem'):
            ta, tb = s.s(a), s.s(b)
            if not isint(tb) or tb in (0, -1): 
                x.oblige('div0', And(tb != 0, Or(ta != slo, tb != -1)), 'division by zero / overflow')
                if not isint(tb): raise Unsupported('sdiv by symbolic')
            m = abs(tb)
            la, ha = s.ivl(a, ta, slo, shi)
            if isint(ta):
                q = abs(ta) // m
                q = q if (ta >= 0) == (tb > 0) else -q
                return s.const(w, q if op == 'sdiv' else ta - q * tb)
            if la >= 0 or x.proved_cached(ta >= 0): q = ta / m
            elif ha <= 0: q = -((-ta) / m)
            else: q = Ite(ta >= 0, ta / m, -((-ta) / m))
            if op == 'srem':
                return s.mk(w, ta - m * q, -(m - 1) if la < 0 else 0, m - 1 if ha > 0 else 0)
            if tb < 0: q = -q
            c = [la // m, ha // m, -(la // m), -(ha // m), -((-la) // m), ((-la) // m)]
            return s.mk(w, q, min(c), max(c) + 1)
        if op == 'shl':
            if isint(b.t):
                k = b.t
                r = s.bin('mul', fl & {'nsw'}, a, IV(w, 1 << k, 1 << k, 1 << k))
                r.pm = ((a.pm if a.pm is not None else W - 1) << k) & (W - 1)
                return r
            return s.varshift(op, a, b)
        if op in ('lshr', 'ashr'):
            if isint(b.t):
                k = b.t
                ta = s.u(a) if op == 'lshr' else s.s(a)
                la, ha = s.ivl(a, ta, *((0, W - 1) if op == 'lshr' else (slo, shi)))
                r = s.mk(w, s.tdiv(ta, 1 << k), la >> k, ha >> k)
                if op == 'lshr': r.pm = (a.pm if a.pm is not None else W - 1) >> k
                return r
            return s.varshift(op, a, b)
        if op == 'and':
            if isint(a.t): a, b = b, a
            pa = a.pm if a.pm is not None else W - 1
            if isint(b.t):
                m = b.t & (W - 1) & pa if a.pm is not None else b.t & (W - 1)
                if isint(a.t): return s.const(w, (a.t & m))
                if m == 0: return s.const(w, 0)
                if m == W - 1: return a
                r = s.maskand(a, m)
                return s.mk(w, r, 0, m, pm=m)
            return s.bitwise('and', a, b)
        if op == 'or':
            if isint(a.t) and isint(b.t): return s.const(w, (a.t | b.t))
            pa = a.pm if a.pm is not None else W - 1
            pb = b.pm if b.pm is not None else W - 1
            if isint(b.t) and b.t == 0: return a
            if isint(a.t) and a.t == 0: return b
            if pa & pb == 0:
                ta, tb = s.u(a), s.u(b)
                la, ha = s.ivl(a, ta, 0, W - 1); lb, hb = s.ivl(b, tb, 0, W - 1)
                return s.mk(w, ta + tb, la + lb, min(ha + hb, W - 1), pm=pa | pb)
            for p_, q_, pp, pq in ((a, b, pa, pb), (b, a, pb, pa)):
                # p_ is a multiple of 2^z; q_ provably below 2^z: no overlap
                z = (pp & -pp).bit_length() - 1 if pp else 0
                if z > 0:
                    tp, tq = s.u(p_), s.u(q_)
                    if x.proved_cached(tq < (1 << z)):
                        la, ha = s.ivl(p_, tp, 0, W - 1)
                        return s.mk(w, tp + tq, la, min(ha + (1 << z) - 1, W - 1), pm=pp | (pq & ((1 << z) - 1)))
            if isint(b.t) or isint(a.t):
                if isint(a.t): a, b = b, a
                m = b.t & (W - 1)
                # a | m = a + m - (a & m)
                ta = s.u(a)
                return s.mk(w, ta + m - s.maskand(a, m), 0, W - 1, pm=pa | m)
            return s.bitwise('or', a, b)
        if op == 'xor':
            if isint(a.t) and isint(b.t): return s.const(w, (a.t ^ b.t))
            if isint(a.t): a, b = b, a
            if isint(b.t):
                m = b.t & (W - 1)
                if m == 0: return a
                if m == W - 1: return s.mk(w, -1 - a.t, -1 - a.hi, -1 - a.lo)
                ta = s.u(a)
                return s.mk(w, ta + m - 2 * s.maskand(a, m), 0, W - 1)
            return s.bitwise('xor', a, b)
        raise Unsupported('binop ' + op)
    def ivl(s, v, t, lo, hi):
        if isint(t): return t, t
        if lo <= v.lo and v.hi <= hi: return v.lo, v.hi
        return lo, hi
    def arith(s, op, ta, tb, la, ha, lb, hb):
        if op == 'add': return ta + tb, la + lb, ha + hb
        if op == 'sub': return ta - tb, la - hb, ha - lb
        c = [la * lb, la * hb, ha * lb, ha * hb]
        return ta * tb, min(c), max(c)
    def maskand(s, a, m):
        ta = s.u(a)
        r, k = 0, 0
        while m >> k:
            if (m >> k) & 1:
                j = k
                while (m >> j) & 1: j += 1
                q = s.tdiv(ta, 1 << k)
                la, ha = s.ivl(a, ta, 0, (1 << a.w) - 1)
                if ha >> k >= (1 << (j - k)): q = s.tmod(q, 1 << (j - k))
                r = r + (q if k == 0 else q * (1 << k))
                k = j
            else: k += 1
        return r
    def bitwise(s, op, a, b):
        w = a.w
        ha = min(w, s.nbits(a)); hb = min(w, s.nbits(b))
        n = max(ha, hb)
        if n > 16:
            f = s.x.ufun('bit%s%d' % (op, w), 2)
            t = f(s.u(a), s.u(b))
            s.x.assume(z3.And(t >= 0, t < 1 << w))
            return s.mk(w, t, 0, (1 << w) - 1)
        ta, tb = s.u(a), s.u(b)
        if s.x.opts.get('bitfun') and n <= 8:
            # uninterpreted, with the facts the contract attaches to it
            t = s.x.ufun('bit%s8' % op, 2)(ta if not isint(ta) else z3.IntVal(ta), tb if not isint(tb) else z3.IntVal(tb))
            s.x.assume(z3.And(t >= 0, t < 256))
            return s.mk(w, t, 0, 255)
        r = 0
        for i in range(n):
            x = (ta / (1 << i)) % 2; y = (tb / (1 << i)) % 2
            if op == 'and': c = z3.And(x == 1, y == 1)
            elif op == 'or': c = z3.Or(x == 1, y == 1)
            else: c = x != y
            r = r + z3.If(c, z3.IntVal(1 << i), z3.IntVal(0))
        return s.mk(w, r, 0, (1 << n) - 1)
    def nbits(s, a):
        if a.pm is not None: return a.pm.bit_length()
        if a.lo >= 0: return a.hi.bit_length()
        return a.w
    def varshift(s, op, a, b):
        w = a.w; tb = s.u(b)
        s.x.oblige('shift', And(tb >= 0, tb < w), 'shift amount in range')
        r = None
        nb = w
        if b.hi is not None and b.lo >= 0: nb = min(w, b.hi + 1)
        for k in range(nb - 1, -1, -1):
            v = s.bin(op, set(), a, IV(w, k, k, k))
            t = s.u(v)
            r = t if r is None else Ite(tb == k, t, r)
        return s.mk(w, r, 0, (1 << w) - 1)
    def icmp(s, pr, a, b):
        if isinstance(a, PInt) and isinstance(b, PInt) and a.r == b.r:
            ta, tb = a.o, b.o
        else:
            if isinstance(a, PInt): a = s.pint(a)
            if isinstance(b, PInt): b = s.pint(b)
            W = 1 << a.w
            if pr in ('eq', 'ne'):
                def fits(v, lo, hi): return lo <= v.lo and v.hi <= hi
                if fits(a, -(W >> 1), (W >> 1) - 1) and fits(b, -(W >> 1), (W >> 1) - 1): ta, tb = a.t, b.t
                elif max(a.hi, b.hi) - min(a.lo, b.lo) < W: ta, tb = a.t, b.t
                else: ta, tb = s.u(a), s.u(b)
            elif pr[0] == 'u': ta, tb = s.u(a), s.u(b)
            else: ta, tb = s.s(a), s.s(b)
        p = pr[-2:]
        if isint(ta) and isint(tb):
            return {'eq': ta == tb, 'ne': ta != tb, 'lt': ta < tb, 'le': ta <= tb, 'gt': ta > tb, 'ge': ta >= tb}[p]
        return S({'eq': lambda: ta == tb, 'ne': lambda: ta != tb, 'lt': lambda: ta < tb, 'le': lambda: ta <= tb, 'gt': lambda: ta > tb, 'ge': lambda: ta >= tb}[p]())
    def cast(s, o, v, w2):
        if o == 'zext':
            t = s.u(v); lo, hi = s.ivl(v, t, 0, (1 << v.w) - 1)
            return s.mk(w2, t, lo, hi, pm=v.pm if v.pm is not None else (1 << v.w) - 1)
        if o == 'sext':
            t = s.s(v); lo, hi = s.ivl(v, t, -(1 << (v.w - 1)), (1 << (v.w - 1)) - 1)
            return s.mk(w2, t, lo, hi)
        if o == 'trunc':
            if isinstance(v, PInt): v = s.pint(v)
            pm = None if v.pm is None else v.pm & ((1 << w2) - 1)
            if v.lo < -(1 << (w2 + 2)) or v.hi > (1 << (w2 + 2)):
                t = v.t if isint(v.t) else v.t
                r = IV(w2, v.t, v.lo, v.hi)
                return s.mk(w2, s.view(r, 0, (1 << w2) - 1), 0, (1 << w2) - 1, pm=pm)
            return s.mk(w2, v.t, v.lo, v.hi, pm=pm)
        raise Unsupported('cast ' + o)
    def ofbool(s, b, w):
        if isinstance(b, bool): return s.const(w, int(b))
        return s.mk(w, z3.If(b, z3.IntVal(1), z3.IntVal(0)), 0, 1, pm=1)
    def tobool(s, v):
        t = s.u(v)
        if isint(t): return bool(t & 1)
        return S(t % 2 == 1) if v.hi > 1 or v.lo < 0 else S(t == 1)
    def ite(s, c, a, b):
        pm = None if a.pm is None or b.pm is None else a.pm | b.pm
        return s.mk(a.w, Ite(c, a.t, b.t), min(a.lo, b.lo), max(a.hi, b.hi), pm)
    def bytes_join(s, bs):
        t, lo = 0, 0
        n = len(bs) * 8
        k = tuple(b if isint(b) else ('t', b.get_id()) for b in bs)
        if k in s.joins: return s.mk(n, s.joins[k][0], 0, (1 << n) - 1)
        for i, b in enumerate(bs): t = t + (b if i == 0 else b * (1 << (8 * i)))
        return s.mk(n, t, 0, (1 << n) - 1)
    def bytes_split(s, v, n):
        t = s.u(v)
        if n == 1: return [t]
        if isint(t): return [(t >> (8 * i)) & 255 for i in range(n)]
        L = [S(s.tmod(s.tdiv(t, 1 << (8 * i)), 256) if i < n - 1 else s.tdiv(t, 1 << (8 * i))) for i in range(n)]
        if 8 * n == v.w: s.joins[tuple(b if isint(b) else ('t', b.get_id()) for b in L)] = (t, L)
        return L
    def subbits(s, v, d, n):
        """bits [8d, 8d+8n) of v"""
        r = s.bin('lshr', set(), v, s.const(v.w, 8 * d)) if d else v
        return s.cast('trunc', r, 8 * n) if 8 * n < v.w else r
    def off(s, iv):
        return s.s(iv)
    def pos(s, t): return t

class DomBV:
    name = 'bv'
    def __init__(s, x): s.x = x; s.tabs = {}
    def Ite(s, c, a, b): return Ite(c, a, b)
    def const(s, w, v): return IV(w, v & ((1 << w) - 1))
    def mk(s, w, t):
        t = S(t)
        if isint(t): t &= (1 << w) - 1
        return IV(w, t)
    def T(s, v):
        if isinstance(v, PInt): v = s.pint(v)
        return z3.BitVecVal(v.t, v.w) if isint(v.t) else v.t
    def pint(s, p):
        b = s.x.base_addr(p.r)
        return s.mk(64, b + p.o)
    def fresh_term(s, nm): return z3.BitVec(s.x.fresh(nm), 64)
    def fresh(s, w, nm, signed=False): return IV(w, z3.BitVec(s.x.fresh(nm), w))
    def uf(s, nm, es): return z3.Function(s.x.fresh(nm), z3.BitVecSort(64), z3.BitVecSort(8 * es))
    def elem_axiom(s, f, es): return None
    def elem(s, w, t): return s.mk(w, t)
    def u(s, v): return s.T(v)
    def s(s, v): return s.T(v)
    def table(s, m, k):
        key = id(m)
        n = len(m.v); w = m.w
        if key not in s.tabs:
            s.tabs[key] = (m, {})
        if k.get_id() in s.tabs[key][1]: return s.tabs[key][1][k.get_id()][1]
        bits = max(1, (n - 1).bit_length())
        kk = z3.Extract(bits - 1, 0, k)
        def rec(lo, b):
            if b < 0: return z3.BitVecVal(m.v[lo] if lo < n else 0, w)
            h = rec(lo + (1 << b), b - 1) if lo + (1 << b) < n else None
            l = rec(lo, b - 1)
            if h is None: return l
            return z3.If(z3.Extract(b, b, kk) == 1, h, l)
        def linear():
            """a table whose entries are the exclusive-or of the entries of the index's bits (checked for every entry)"""
            if n < 16 or n != 1 << bits or m.v[0] != 0: return False
            for i in range(n):
                t = 0
                for q in range(bits):
                    if i >> q & 1: t ^= m.v[1 << q]
                if t != m.v[i]: return False
            return True
        if linear():
            r = z3.BitVecVal(0, w)
            for q in range(bits): r = r ^ z3.If(z3.Extract(q, q, kk) == 1, z3.BitVecVal(m.v[1 << q], w), z3.BitVecVal(0, w))
        else: r = rec(0, bits - 1)
        s.tabs[key][1][k.get_id()] = (k, r)
        return r
    def bin(s, op, fl, a, b):
        x = s.x
        if isinstance(a, PInt) and isinstance(b, PInt) and op == 'sub' and a.r == b.r:
            return s.mk(64, a.o - b.o)
        if isinstance(a, PInt) and op in ('add', 'sub') and isinstance(b, IV):
            return PInt(a.r, S(a.o + b.t if op == 'add' else a.o - b.t))
        w = a.w
        A, Bv = s.T(a), s.T(b)
        if 'nsw' in fl and op in ('add', 'sub', 'mul') and not (isint(a.t) and isint(b.t)):
            if op == 'add': g = z3.And(z3.BVAddNoOverflow(A, Bv, True), z3.BVAddNoUnderflow(A, Bv))
            elif op == 'sub': g = z3.And(z3.BVSubNoOverflow(A, Bv), z3.BVSubNoUnderflow(A, Bv, True))
            else: g = z3.And(z3.BVMulNoOverflow(A, Bv, True), z3.BVMulNoUnderflow(A, Bv))
            g = S(g)
            if g is not True: x.oblige('overflow', g, 'signed %s i%d does not overflow' % (op, w))
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            x.oblige('div0', S(Bv != 0), 'division by zero')
        if op in ('shl', 'lshr', 'ashr'):
            g = S(z3.ULT(Bv, w))
            if g is not True: x.oblige('shift', g, 'shift amount in range')
        r = {'add': lambda: A + Bv, 'sub': lambda: A - Bv, 'mul': lambda: A * Bv, 'udiv': lambda: z3.UDiv(A, Bv), 'urem': lambda: z3.URem(A, Bv),
             'sdiv': lambda: A / Bv, 'srem': lambda: z3.SRem(A, Bv), 'and': lambda: A & Bv, 'or': lambda: A | Bv, 'xor': lambda: A ^ Bv,
             'shl': lambda: A << Bv, 'lshr': lambda: z3.LShR(A, Bv), 'ashr': lambda: A >> Bv}[op]()
        return s.mk(w, r)
    def icmp(s, pr, a, b):
        if isinstance(a, PInt) and isinstance(b, PInt) and a.r == b.r: 
            A = z3.BitVecVal(a.o, 64) if isint(a.o) else a.o; Bv = z3.BitVecVal(b.o, 64) if isint(b.o) else b.o
        else: A, Bv = s.T(a), s.T(b)
        return S({'eq': lambda: A == Bv, 'ne': lambda: A != Bv, 'ult': lambda: z3.ULT(A, Bv), 'ule': lambda: z3.ULE(A, Bv), 'ugt': lambda: z3.UGT(A, Bv), 'uge': lambda: z3.UGE(A, Bv),
                'slt': lambda: A < Bv, 'sle': lambda: A <= Bv, 'sgt': lambda: A > Bv, 'sge': lambda: A >= Bv}[pr]())
    def cast(s, o, v, w2):
        A = s.T(v)
        if o == 'zext': return s.mk(w2, z3.ZeroExt(w2 - v.w, A))
        if o == 'sext': return s.mk(w2, z3.SignExt(w2 - v.w, A))
        if o == 'trunc': return s.mk(w2, z3.Extract(w2 - 1, 0, A))
        raise Unsupported('cast ' + o)
    def ofbool(s, b, w):
        if isinstance(b, bool): return s.const(w, int(b))
        return s.mk(w, z3.If(b, z3.BitVecVal(1, w), z3.BitVecVal(0, w)))
    def tobool(s, v):
        if isint(v.t): return bool(v.t & 1)
        return S(z3.Extract(0, 0, v.t) == 1)
    def ite(s, c, a, b): return s.mk(a.w, z3.If(c, s.T(a), s.T(b)))
    def bytes_join(s, bs):
        bs = [z3.BitVecVal(b, 8) if isint(b) else b for b in bs]
        return s.mk(8 * len(bs), z3.Concat(*bs[::-1]) if len(bs) > 1 else bs[0])
    def bytes_split(s, v, n):
        A = s.T(v)
        return [S(z3.Extract(8 * i + 7, 8 * i, A)) for i in range(n)]
    def subbits(s, v, d, n): return s.mk(8 * n, z3.Extract(8 * (d + n) - 1, 8 * d, s.T(v)))
    def off(s, iv):
        t = S(iv.t)
        if isint(t): return t - (1 << 64) if t >= 1 << 63 else t
        return t
    def pos(s, t): return t

# ---------------------------------------------------------------- state
class State:
    __slots__ = ('env', 'mem', 'ghost', 'loops', 'trace', 'extra')
    def __init__(s):
        s.env, s.mem, s.ghost, s.loops, s.trace, s.extra = {}, {}, {}, [], (), {}
    def clone(s):
        n = State()
        n.env, n.mem, n.ghost, n.loops, n.trace, n.extra = dict(s.env), dict(s.mem), dict(s.ghost), list(s.loops), s.trace, dict(s.extra)
        return n

class Binds:
    kappa = None
    """values of loop-carried variables at a loop header (entry / havocked / after an iteration)"""
    def __init__(s, vals, st): s.vals, s.st = vals, st
    def __getitem__(s, k): return s.vals[k]

class Cand:
    """candidate loop invariant.  f(binds)->bool formula, or forall=(region, cond(j,b), expr(j,b)).
    hard: must hold (checked, never dropped)."""
    __slots__ = ('name', 'f', 'forall', 'grp', 'stage')
    def __init__(s, name, f=None, forall=None, grp=None):
        s.name, s.f, s.forall, s.grp = name, f, forall, grp
        s.stage = 2 if forall else 1

class Frame:
    def __init__(s, header, body):
        s.header, s.body = header, body
        s.collect = True
        s.mod = None
        s.missing = set()
        s.on_back = None
        s.exits = 0

class Obl:
    __slots__ = ('fn', 'kind', 'desc', 'ok', 'model', 'loc', 'backend', 't')
    def __init__(s, fn, kind, desc, ok, model, loc, backend, t):
        s.fn, s.kind, s.desc, s.ok, s.model, s.loc, s.backend, s.t = fn, kind, desc, ok, model, loc, backend, t

class Exec:
    def __init__(self, mod, fn, contract, opts):
        self.mod, self.fn, self.contract = mod, fn, contract
        self.opts = dict(timeout=10000, feas_timeout=1500, quick_timeout=700, fuel=2, budget=800.0, max_unroll=70)
        self.cstrs = {}
        self.opts.update(opts or {})
        self.dom = (DomBV if self.opts.get('domain') == 'bv' else DomInt)(self)
        self.solver = z3.Solver()
        if self.opts.get('seed'): self.solver.set('random_seed', self.opts['seed'])
        self.ctr = {}
        self.axioms = {}
        self.seen = {}
        self.noted = {}
        self.trail = []
        self.marks = []
        self.mute = 0
        self.obls = []
        self.loc = None
        self.ufs = {}
        self.tabspecs = {}
        self.tabfull = {}
        self.bases = {}
        self.ncheck = 0
        self.tcheck = 0.0
        self.t0 = time.time()
        self.loopinfo, self.succ, self.pred = llir.loops(fn) if fn.blocks else ({}, {}, {})
        self.rets = 0
        self.dry = 0
        self.last_alive = {}
        self.pcache = {}
        self.stamp = 0
        self.keep = []
        self.verbose = self.opts.get('verbose')
        self.curst = None
        self.rank = {}
        self.paths = 0
    # ---- names / solver
    def fresh(self, nm):
        n = self.ctr.get(nm, 0); self.ctr[nm] = n + 1
        return '%s!%d' % (nm, n) if n else nm
    def ufun(self, nm, ar, rng=None, argsort=None):
        if nm not in self.ufs:
            srt = argsort if argsort is not None else (z3.IntSort() if self.dom.name == 'int' else z3.BitVecSort(64))
            self.ufs[nm] = z3.Function(nm, *((list(srt) if isinstance(srt, list) else [srt] * ar) + [rng if rng is not None else (z3.IntSort() if self.dom.name == 'int' else z3.BitVecSort(64))]))
        return self.ufs[nm]
    def base_addr(self, r):
        if r not in self.bases:
            b = z3.Int('addr_' + str(r)) if self.dom.name == 'int' else z3.BitVec('addr_' + str(r), 64)
            self.bases[r] = b
        b = self.bases[r]
        if self.dom.name == 'int': self.assume(z3.And(b >= 4096, b < 1 << 62))
        return b
    def push(self):
        self.solver.push(); self.marks.append(len(self.trail)); self.stamp += 1
    def pop(self):
        self.solver.pop(); m = self.marks.pop(); self.stamp += 1
        while len(self.trail) > m:
            k = self.trail.pop()
            if k[0] == 'seen':
                if k[2] is None: self.seen.pop(k[1], None)
                else: self.seen[k[1]] = k[2]
            elif k[0] == 'noted':
                if k[2] is None: self.noted.pop(k[1], None)
                else: self.noted[k[1]] = k[2]
            elif k[0] == 'ax': self.axioms[k[1]].pop()
    def axiom(self, decl, fn, fuel=None):
        """register: whenever decl(args) occurs, fn(*args) is a true formula (list allowed)"""
        nm = decl.name()
        self.axioms.setdefault(nm, []).append((fn, fuel if fuel is not None else self.opts['fuel']))
        self.trail.append(('ax', nm))
        # instantiate on already seen applications
        i = len(self.axioms[nm]) - 1
        for key in [k for k, v in self.seen.items() if v[2] == nm]:
            v = self.seen[key]
            self.inst(v[0], v[1], only=i)
    def inst(self, app, depth, only=None):
        nm = app.decl().name()
        axs = self.axioms.get(nm, ())
        for i, (fn, fuel) in enumerate(list(axs)):
            if only is not None and i != only: continue
            if depth >= fuel: continue
            r = fn(*[app.arg(k) for k in range(app.num_args())])
            if r is None or r is True: continue
            for f in (r if isinstance(r, (list, tuple)) else [r]):
                if f is True: continue
                f = zb(f)
                self.solver.add(f)
                self.note(f, depth + 1)
    def note(self, e, depth=0, visited=None):
        """register the uninterpreted applications of e; sub-terms already registered in this scope are skipped"""
        if not isinstance(e, z3.ExprRef): return
        stack = [e]
        noted, trail = self.noted, self.trail
        while stack:
            x = stack.pop()
            i = x.get_id()
            o = noted.get(i)
            if o is not None and o[1] <= depth: continue
            if z3.is_app(x):
                n = x.num_args()
                if n:
                    trail.append(('noted', i, o))
                    noted[i] = (x, depth)
                    stack.extend([x.arg(k) for k in range(n)])
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        old = self.seen.get(i)
                        if old is None or old[1] > depth:
                            trail.append(('seen', i, old))
                            self.seen[i] = (x, depth, x.decl().name())
                            self.inst(x, depth)
    def assume(self, f):
        if f is True: return
        f = zb(f)
        self.stamp += 1
        self.solver.add(f)
        self.note(f)
    def check(self, timeout):
        if time.time() - self.t0 > self.opts['budget']: raise Budget('time budget of %ss exceeded' % self.opts['budget'])
        self.solver.set('timeout', timeout)
        t = time.time(); beat = self.opts.get('beat')
        if beat is not None: beat[0] = t + timeout / 1000.0
        r = self.solver.check()
        if beat is not None: beat[0] = 0
        self.ncheck += 1; self.tcheck += time.time() - t
        if self.opts.get('slow') and time.time() - t > self.opts['slow']: print('SLOW %.1f %s n=%d %s' % (time.time() - t, r, len(self.solver.assertions()), getattr(self, 'what', '')), str(self.solver.assertions()[-1])[:200].replace(chr(10), ' '))
        return r
    def prove(self, g, timeout=None, want_model=False):
        if g is True: return True
        if g is False: g = z3.BoolVal(False)
        self.push()
        try:
            f = z3.Not(g)
            self.solver.add(f); self.note(f)
            r = self.check(timeout or self.opts['timeout'])
            if r == z3.unsat: return True
            self.last_model = None
            if r == z3.sat and want_model: self.last_model = self.solver.model()
            self.last_res = r
            if r == z3.unknown and want_model and not self.mute:
                if self.fallback(): return True
            return False
        finally:
            self.pop()
    def fallback(self):
        import subprocess, tempfile, os
        txt = self.solver.to_smt2()
        if self.dom.name == 'int': txt = '(set-logic ALL)\n' + txt
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
        try:
            for cmd in (['cvc5', '--tlimit=20000', f.name], ['z3', '-T:20', f.name]):
                try:
                    out = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=40).stdout
                except Exception: continue
                if out.strip().startswith('unsat'):
                    self.backend = cmd[0]; return True
            return False
        finally:
            os.unlink(f.name)
    def proved_cached(self, g):
        g = S(g)
        if g is True: return True
        if g is False: return False
        key = (g.get_id(), self.stamp)
        if key in self.pcache: return self.pcache[key]
        st = self.stamp
        r = self.prove(g, self.opts['quick_timeout'])
        if len(self.pcache) > 5000: self.pcache.clear()
        self.pcache[key] = r; self.keep.append(g)
        self.stamp = st
        return r
    def feasible(self):
        return self.check(self.opts['feas_timeout']) != z3.unsat
    def oblige(self, kind, goal, desc):
        """proof obligation at the current program point; assumed afterwards"""
        goal = S(goal) if not isinstance(goal, bool) else goal
        if goal is True:
            if not self.mute and not self.dry: self.obls.append(Obl(self.fn.name, kind, desc, True, None, self.loc, 'simplifier', 0))
            return True
        if self.mute or self.dry:
            self.assume(goal)
            return True
        t = time.time()
        self.backend = 'z3-5.3.2'
        ok = self.prove(goal, want_model=True)
        m = None
        if not ok:
            m = str(self.last_model)[:3000] if self.last_model is not None else str(self.last_res)
            if self.verbose: print('FAILED', kind, desc, self.loc, '\n   goal', str(goal)[:600], '\n  ', (m or '')[:1500].replace('\n', ' '))
        self.obls.append(Obl(self.fn.name, kind, desc, ok, m, self.loc, self.backend, time.time() - t))
        if not ok and self.opts.get('stop_on_fail', 6) <= sum(1 for o in self.obls if not o.ok): raise Budget('too many failing obligations')
        self.assume(goal)
        return ok
    # ---- regions
    def new_region(self, st, name, kind='array', size=0, es=1, init=None, const=False):
        r = self.fresh(name)
        rs = RS(kind, size, es, const=const)
        if kind == 'array':
            if init is None: rs.mem = self.fresh_mem(r, es)
            else: rs.mem = init
        else: rs.cells = {}
        st.mem[r] = rs
        return r
    def fresh_mem(self, nm, es):
        f = self.dom.uf('mem_' + nm, es)
        ax = self.dom.elem_axiom(f, es)
        if ax: self.axiom(f, ax, fuel=9)
        return MBase(f)
    def glob_region(self, st, name):
        r = 'g:' + name
        if r in st.mem: return r
        g = self.mod.glob(name)
        if g is None or g['parsed'][1] is None:
            st.mem[r] = RS('cells', 1 << 20, cells={})
            return r
        t, v = g['parsed']; rt = self.mod.res(t)
        es, ctx = None, None
        def flat(t, v):
            t = self.mod.res(t)
            if v[0] == 'bytes': return list(v[1])
            if v[0] == 'zero' or v[0] == 'undef':
                if t[0] == 'arr': return flat(t[2], ('zero', t[2])) * t[1]
                if t[0] == 'st': return sum((flat(f, ('zero', f)) for f in t[1]), [])
                return [0]
            if v[0] == 'agg': return sum((flat(a, b) for a, b in v[1]), [])
            if v[0] == 'int': return [v[2] & ((1 << v[1]) - 1)]
            raise Unsupported('global initialiser ' + name)
        def leaf(t):
            t = self.mod.res(t)
            return leaf(t[2]) if t[0] == 'arr' else t
        def leaves(t):
            t = self.mod.res(t)
            if t[0] == 'arr': return leaves(t[2]) if t[1] else set()
            if t[0] == 'st':
                if not t[2] and len({x for f in t[1] for x in leaves(f)}) > 1: return {None}
                return set().union(*[leaves(f) for f in t[1]]) if t[1] else set()
            return {t}
        lt = leaf(t)
        ls = leaves(t)
        if len(ls) == 1 and None not in ls and rt[0] == 'st' and any(self.mod.res(f)[0] == 'arr' for f in rt[1]): lt = next(iter(ls))
        if g['const'] and rt[0] in ('arr', 'st') and lt[0] == 'i':
            try:
                vals = flat(t, v)
            except Unsupported:
                vals = None
            if vals is not None:
                es = self.mod.size(lt)
                m = MConst(vals, self.dom); m.w = 8 * es
                st.mem[r] = RS('array', len(vals) * es, es, mem=m, const=True)
                return r
        if g['const'] and rt[0] == 'arr' and lt[0] == 'st':
            # array of small structs: keep as concrete cells
            cells = {}
            sz = self.mod.size(lt)
            def walk(t, v, o):
                t = self.mod.res(t)
                if v[0] == 'zero':
                    if t[0] == 'arr':
                        for i in range(t[1]): walk(t[2], ('zero', t[2]), o + i * self.mod.size(t[2]))
                    elif t[0] == 'st':
                        for i in range(len(t[1])):
                            fo, ft = self.mod.field(t, i); walk(ft, ('zero', ft), o + fo)
                    elif t[0] == 'ptr': cells[o] = (8, Ptr(NULL, 0))
                    else: cells[o] = (self.mod.size(t), self.dom.const(8 * self.mod.size(t), 0))
                elif v[0] == 'bytes':
                    for i, b in enumerate(v[1]): cells[o + i] = (1, self.dom.const(8, b))
                elif v[0] == 'agg':
                    if t[0] == 'arr':
                        for i, (et, ev) in enumerate(v[1]): walk(et, ev, o + i * self.mod.size(t[2]))
                    else:
                        for i, (et, ev) in enumerate(v[1]): walk(et, ev, o + self.mod.field(t, i)[0])
                elif v[0] == 'int': cells[o] = (self.mod.size(t), self.dom.const(8 * self.mod.size(t), v[2]))
            walk(t, v, 0)
            st.mem[r] = RS('cells', self.mod.size(t), cells=cells, const=True)
            return r
        if name.startswith('_ZTV') and v[0] == 'agg':
            # virtual function tables: cells holding the functions
            cells = {}
            for (ft, fv), o in [((ft2, fv2), 8 * i) for i, (ft2, fv2) in enumerate(v[1][0][1][1])]:
                if fv[0] == 'glob' and fv[1] in self.mod.fns or fv[0] == 'glob' and fv[1] not in self.mod.globals: cells[o] = (8, Opaque(('fn', fv[1])))
            st.mem[r] = RS('cells', self.mod.size(t), cells=cells, const=True)
            return r
        if g['const'] and rt[0] in ('i', 'f', 'st', 'ptr'):
            st.mem[r] = RS('cells', self.mod.size(t), cells={}, const=True)
            if v[0] == 'int': st.mem[r].cells[0] = (self.mod.size(t), self.dom.const(v[1], v[2]))
            return r
        st.mem[r] = RS('cells', self.mod.size(t), cells={})
        return r
    # ---- operand evaluation
    def val(self, st, t, v):
        k = v[0]
        if k == 'loc':
            try: return st.env[v[1]]
            except KeyError: raise Unsupported('undefined local ' + v[1])
        if k == 'int':
            if v[1] == 1: return bool(v[2] & 1)
            return self.dom.const(v[1], v[2])
        if k == 'null': return Ptr(NULL, 0)
        if k == 'glob': return Ptr(self.glob_region(st, v[1]), 0) if v[1] not in self.mod.fns else Opaque(('fn', v[1]))
        if k == 'undef' or k == 'zero':
            rt = self.mod.res(t)
            if rt[0] == 'i':
                if k == 'zero': return self.dom.const(rt[1], 0) if rt[1] > 1 else False
                return z3.Bool(self.fresh('undef')) if rt[1] == 1 else self.dom.fresh(rt[1], 'undef')
            if rt[0] == 'ptr': return Ptr(NULL, 0)
            if rt[0] == 'st': return Agg([self.val(st, f, (k, f)) for f in rt[1]])
            if rt[0] == 'arr': return Agg([self.val(st, rt[2], (k, rt[2])) for _ in range(rt[1])])
            if rt[0] == 'f': return Opaque('fpundef')
            raise Unsupported('undef %s' % (rt,))
        if k == 'cgep':
            b = self.val(st, ('ptr',), v[2])
            return self.gep(st, v[1], b, [(it, self.val(st, it, iv)) for it, iv in v[3]])
        if k == 'ccast':
            a = self.val(st, v[2], v[3])
            if isinstance(a, Opaque): return a
            if v[1] == 'ptrtoint': return PInt(a.r, a.o)
            if v[1] == 'inttoptr': return Ptr(NULL, 0)
            return a
        if k == 'fp': return self.fpconst(v)
        if k == 'agg': return Agg([self.val(st, a, b) for a, b in v[1]])
        raise Unsupported('value %s' % k)
    def fpconst(self, v):
        import struct
        s = v[2]
        if s.startswith('0x'):
            return Opaque(('fpc', v[1], int(s[2:], 16)))
        return Opaque(('fpc', v[1], struct.unpack('<Q', struct.pack('<d', float(s)))[0]))
    def gep(self, st, bt, p, idx):
        if not isinstance(p, Ptr): raise Unsupported('gep on %r' % (p,))
        off = p.o
        t = bt
        for n, (it, iv) in enumerate(idx):
            if n == 0:
                off = off + self.dom.off(self.ext64(iv)) * self.mod.size(t)
            else:
                rt = self.mod.res(t)
                if rt[0] == 'st':
                    o, t = self.mod.field(rt, iv.t); off = off + o
                else:
                    t = rt[2]; off = off + self.dom.off(self.ext64(iv)) * self.mod.size(t)
        return Ptr(p.r, S(off), p.ep)
    def ext64(self, iv):
        if isinstance(iv, PInt): return self.dom.pint(iv)
        if iv.w == 64: return iv
        return self.dom.cast('sext', iv, 64)
    # ---- memory
    def bounds(self, st, p, n, what):
        rs = st.mem.get(p.r)
        if p.r == NULL or rs is None:
            self.oblige('safety', False, '%s through null/invalid pointer' % what)
            raise Abandon()
        if not rs.alive or (p.ep is not None and p.ep != rs.ep):
            self.oblige('safety', False, '%s through dangling pointer' % what)
            raise Abandon()
        g = And(0 <= p.o, p.o + n <= rs.size)
        g = S(g) if not isinstance(g, bool) else g
        self.oblige('safety', g, '%s of %s bytes inside %s' % (what, n, p.r))
        return rs
    def idx(self, p, rs):
        k = lindiv(p.o, rs.es) if rs.es > 1 else p.o
        if k is None:
            if self.dom.name == 'bv':
                self.oblige('safety', S(z3.URem(p.o, rs.es) == 0), 'aligned access')
                return z3.UDiv(p.o, z3.BitVecVal(rs.es, 64))
            self.oblige('safety', p.o % rs.es == 0, 'aligned access')
            k = p.o / rs.es
        return S(k)
    def load_bits(self, st, p, n, what='read'):
        rs = self.bounds(st, p, n, what)
        if rs.kind == 'cells':
            o = S(p.o)
            if not isint(o): return self.load_cells_sym(st, rs, p, n)
            c = rs.cells.get(o)
            if c and c[0] == n: return c[1]
            # from a covering cell
            for co, (cs, cv) in rs.cells.items():
                if co <= o and o + n <= co + cs and isinstance(cv, (IV,)):
                    return self.dom.subbits(cv, o - co, n)
            # composed of smaller cells
            bs, i, ok = [], 0, True
            while i < n:
                got = None
                for co, (cs, cv) in rs.cells.items():
                    if co <= o + i < co + cs and isinstance(cv, IV):
                        got = self.dom.bytes_split(self.dom.subbits(cv, o + i - co, 1), 1)[0]
                        break
                if got is None: ok = False; break
                bs.append(got); i += 1
            if ok: return self.dom.bytes_join(bs)
            v = self.dom.fresh(8 * n, 'uninit')
            return v
        if rs.es == n:
            if isinstance(rs.mem, MConst) and self.dom.name == 'int':
                pm = 0
                for q in rs.mem.v: pm |= q
                k = self.idx(p, rs)
                if isint(k): return self.dom.mk(8 * n, S(rs.mem.read(k)), min(rs.mem.v), max(rs.mem.v), pm=pm)
                f, new = self.table_fn(p.r, rs.mem)
                t = f(k)
                self.note(t)
                r = self.dom.mk(8 * n, t, min(rs.mem.v), max(rs.mem.v), pm=pm)
                self.dom.reg(r.t, min(rs.mem.v), max(rs.mem.v))
                return r
            return self.dom.elem(8 * n, S(rs.mem.read(self.idx(p, rs))))
        if rs.es == 1:
            q = self.rmem(p.r, rs)
            return self.dom.bytes_join([self.dom.elem(8, S(q.read(S(p.o + i)))).t for i in range(n)])
        if n % rs.es == 0:
            k = self.idx(p, rs)
            r = None
            es8 = rs.es * 8
            vals = [self.dom.elem(es8, S(rs.mem.read(S(k + i)))) for i in range(n // rs.es)]
            bs = []
            for v in vals: bs += self.dom.bytes_split(v, rs.es)
            return self.dom.bytes_join(bs)
        # sub-element access
        o = S(p.o)
        if isint(o):
            k, d = o // rs.es, o % rs.es
            if d + n <= rs.es: return self.dom.subbits(self.dom.elem(8 * rs.es, S(rs.mem.read(k))), d, n)
        raise Unsupported('load %d from es=%d' % (n, rs.es))
    def rmem(self, r, rs):
        """memory of a region for reading: constant tables indexed symbolically go through their table function"""
        m = rs.mem
        if not isinstance(m, MConst) or self.dom.name != 'int': return m
        def rd(k):
            if isint(k): return m.read(k)
            f, _ = self.table_fn(r, m)
            t = f(k); self.note(t)
            self.dom.reg(t, min(m.v), max(m.v))
            return t
        return MFun(rd)
    def table_fn(self, r, m):
        nm = 'tab_' + str(r)
        new = nm not in self.ufs
        f = self.ufun(nm, 1)
        if new or not self.axioms.get(nm):
            n = len(m.v); lo, hi = min(m.v), max(m.v)
            ts = self.tabspecs.get(r, [])
            def ax(k):
                L = [f(k) >= lo, f(k) <= hi] + [Implies(D(k), Eq(f(k), g(k))) for g, D in ts]
                c = And(k >= 0, k < n, *[Not(D(k)) for g, D in ts])
                if r not in self.tabfull: L.append(Implies(c, Eq(f(k), m.read(k))))
                else: L += [Implies(Eq(k, u), Eq(f(k), m.v[u])) for u in self.tabfull[r]]
                return L
            self.axiom(f, ax, fuel=9)
        return f, new
    def load_cells_sym(self, st, rs, p, n):
        """symbolic index into an array of concrete cells (constant tables of structs)"""
        ks = sorted(o for o, (cs, cv) in rs.cells.items() if cs == n)
        r = None
        for o in ks:
            v = rs.cells[o][1]
            if not isinstance(v, IV): raise Unsupported('symbolic offset into pointer cells')
            r = v if r is None else self.dom.ite(S(p.o == o), v, r)
        if r is None: raise Unsupported('symbolic offset into cells')
        self.oblige('safety', S(Or(*[p.o == o for o in ks])), 'access hits a cell')
        return r
    def load(self, st, p, t):
        rt = self.mod.res(t)
        if not isinstance(p, Ptr): raise Unsupported('load via %r' % (p,))
        if rt[0] == 'st' or rt[0] == 'arr':
            if rt[0] == 'st':
                return Agg([self.load(st, Ptr(p.r, S(p.o + self.mod.field(rt, i)[0]), p.ep), f) for i, f in enumerate(rt[1])])
            return Agg([self.load(st, Ptr(p.r, S(p.o + i * self.mod.size(rt[2])), p.ep), rt[2]) for i in range(rt[1])])
        n = self.mod.size(rt)
        v = self.load_bits(st, p, n)
        if rt[0] == 'ptr':
            if isinstance(v, (Ptr, Opaque)): return v
            if isinstance(v, IV) and isint(v.t) and v.t == 0: return Ptr(NULL, 0)
            rs = st.mem[p.r]
            if rs.kind == 'cells' and isinstance(v, IV): return Opaque('uninit-ptr')
            raise Unsupported('load pointer from non-pointer memory')
        if rt[0] == 'i':
            if isinstance(v, Ptr): return PInt(v.r, v.o)
            if isinstance(v, Opaque):
                if isinstance(v.what, tuple) and v.what[0] == 'fn': return v
                raise Unsupported('int load of opaque')
            if rt[1] == 1: return self.dom.tobool(v)
            if rt[1] < 8 * n: return self.dom.cast('trunc', v, rt[1])
            return v
        if rt[0] == 'f':
            if isinstance(v, IV): return Opaque(('fpbits', rt[1], v))
            return v
        raise Unsupported('load %s' % (rt,))
    def modify(self, st, key):
        for f in st.loops:
            if f.mod is not None and key not in f.mod: f.missing.add(key)
    def store(self, st, p, t, v):
        rt = self.mod.res(t)
        if not isinstance(p, Ptr): raise Unsupported('store via %r' % (p,))
        if rt[0] == 'st':
            for i, f in enumerate(rt[1]): self.store(st, Ptr(p.r, S(p.o + self.mod.field(rt, i)[0]), p.ep), f, v.v[i])
            return
        if rt[0] == 'arr':
            for i in range(rt[1]): self.store(st, Ptr(p.r, S(p.o + i * self.mod.size(rt[2])), p.ep), rt[2], v.v[i])
            return
        n = self.mod.size(rt)
        if isinstance(v, (bool, z3.BoolRef)): v = self.dom.ofbool(v, 8 * n)
        if isinstance(v, IV) and v.w < 8 * n: v = self.dom.cast('zext', v, 8 * n)
        if rt[0] == 'f' and isinstance(v, Opaque):
            if isinstance(v.what, tuple) and v.what[0] == 'fpbits' and v.what[1] == rt[1]: v = v.what[2]
            elif isinstance(v.what, tuple) and v.what[0] == 'fpc' and rt[1] == 64: v = self.dom.const(64, v.what[2])
        self.store_bits(st, p, n, v)
    def store_bits(self, st, p, n, v):
        rs = self.bounds(st, p, n, 'write')
        if rs.const: self.oblige('safety', False, 'write to read-only memory ' + str(p.r))
        if rs.kind == 'cells':
            o = S(p.o)
            if not isint(o): raise Unsupported('symbolic offset store into cells')
            self.modify(st, ('cell', p.r, o, n))
            cells = dict(rs.cells)
            for co, (cs, cv) in list(cells.items()):
                if co < o + n and o < co + cs and not (co == o and cs == n):
                    del cells[co]
                    if isinstance(cv, IV):
                        if co < o: 
                            for b in range(o - co): cells[co + b] = (1, self.dom.subbits(cv, b, 1))
                        if co + cs > o + n:
                            for b in range(o + n - co, cs): cells[co + b] = (1, self.dom.subbits(cv, b, 1))
            cells[o] = (n, v)
            st.mem[p.r] = rs.upd(cells=cells)
            return
        if isinstance(v, PInt): v = self.dom.pint(v)
        if not isinstance(v, IV): raise Unsupported('store of %r into array memory' % (v,))
        self.modify(st, ('arr', p.r))
        m = rs.mem
        if rs.es == n: m = MStore(m, self.idx(p, rs), self.dom.bytes_split(v, 1)[0] if n == 1 else S(self.dom.u(v)))
        elif rs.es == 1:
            for i, b in enumerate(self.dom.bytes_split(v, n)): m = MStore(m, S(p.o + i), b)
        elif n % rs.es == 0:
            k = self.idx(p, rs)
            for i in range(n // rs.es): m = MStore(m, S(k + i), S(self.dom.u(self.dom.subbits(v, i * rs.es, rs.es))))
        else: raise Unsupported('store %d to es=%d' % (n, rs.es))
        st.mem[p.r] = rs.upd(mem=m)
    def memcpy(self, st, d, s, n, move=False):
        n = S(n)
        if isint(n) and n == 0: return
        if isinstance(d, Ptr) and (d.r == NULL or s.r == NULL):
            self.oblige('safety', Eq(n, 0), 'memcpy with null pointer has length 0'); return
        rd, rsrc = st.mem.get(d.r), st.mem.get(s.r)
        def chk(p, rs, what):
            if rs is None or not rs.alive or (p.ep is not None and p.ep != rs.ep):
                self.oblige('safety', False, what + ' dangling'); raise Abandon()
            self.oblige('safety', S(And(n >= 0, Or(Eq(n, 0), And(0 <= p.o, p.o + n <= rs.size)))), '%s of n bytes inside %s' % (what, p.r))
        chk(d, rd, 'memcpy write'); chk(s, rsrc, 'memcpy read')
        if d.r == s.r and not move:
            self.oblige('safety', S(Or(Eq(n, 0), d.o + n <= s.o, s.o + n <= d.o)), 'memcpy ranges do not overlap')
        if rd.const: self.oblige('safety', False, 'write to read-only memory ' + str(d.r))
        if rd.kind == 'cells' or rsrc.kind == 'cells':
            if not isint(n): raise Unsupported('symbolic memcpy on cells')
            so, do = S(s.o), S(d.o)
            if rsrc.kind == 'cells':
                if not isint(so): raise Unsupported('symbolic memcpy from cells')
                for co, (cs, cv) in sorted(rsrc.cells.items()):
                    if so <= co and co + cs <= so + n:
                        self.store_bits(st, Ptr(d.r, S(do + co - so)), cs, cv)
                    elif co < so + n and so < co + cs:
                        a, b = max(co, so), min(co + cs, so + n)
                        self.store_bits(st, Ptr(d.r, S(do + a - so)), b - a, self.dom.subbits(cv, a - co, b - a))
                return
            i = 0
            while i < n:
                c = rsrc.es if rsrc.kind == 'array' and rsrc.es in (1, 2, 4, 8) and n - i >= rsrc.es else 8 if n - i >= 8 else 4 if n - i >= 4 else 2 if n - i >= 2 else 1
                v = self.load_bits(st, Ptr(s.r, S(s.o + i)), c)
                self.store_bits(st, Ptr(d.r, S(do + i)), c, v)
                i += c
            return
        if rd.es == rsrc.es:
            self.modify(st, ('arr', d.r))
            k = lindiv(n, rd.es)
            if k is None: raise Unsupported('memcpy size not multiple of element')
            if k is not None:
                st.mem[d.r] = rd.upd(mem=MCopy(rd.mem, self.idx(d, rd), S(k), self.rmem(s.r, rsrc), self.idx(s, rsrc)))
            return
        if isint(n) and n <= 64:
            c = max(rd.es, rsrc.es)
            vals = [self.load_bits(st, Ptr(s.r, S(s.o + i)), c) for i in range(0, n, c)]
            for i, v in enumerate(vals): self.store_bits(st, Ptr(d.r, S(d.o + i * c)), c, v)
            return
        self.modify(st, ('arr', d.r))
        if rd.es == 1 and rsrc.es > 1:
            es, q, b = rsrc.es, rsrc.mem, s.o
            def rdbyte(k):
                # byte k of the element memory
                if self.dom.name == 'int': j, r = S(self.dom.tdiv(k, es)), S(self.dom.tmod(k, es))
                else: j, r = S(z3.UDiv(k, es)) if not isint(k) else k // es, S(z3.URem(k, es)) if not isint(k) else k % es
                bs = self.dom.bytes_split(self.dom.elem(8 * es, S(q.read(j))), es)
                if isint(r): return bs[r]
                t = bs[es - 1]
                for i in range(es - 2, -1, -1): t = Ite(r == i, bs[i], t)
                return t
            st.mem[d.r] = rd.upd(mem=MCopy(rd.mem, d.o, n, MFun(rdbyte), b))
            return
        if rd.es > 1 and rsrc.es == 1:
            es, q = rd.es, rsrc.mem
            k = lindiv(n, es)
            if k is None: raise Unsupported('memcpy size')
            so = s.o; dk = self.idx(d, rd)
            def rdel(j):
                return self.dom.u(self.dom.bytes_join([self.dom.elem(8, S(q.read(S(so + j * es + i)))).t for i in range(es)]))
            st.mem[d.r] = rd.upd(mem=MCopy(rd.mem, dk, k, MFun(rdel), 0))
            return
        raise Unsupported('memcpy es %d<-%d' % (rd.es, rsrc.es))
    def memset(self, st, d, v, n):
        n = S(n)
        if isint(n) and n == 0: return
        if d.r == NULL:
            self.oblige('safety', Eq(n, 0), 'memset with null pointer has length 0'); return
        rd = st.mem.get(d.r)
        if rd is None or not rd.alive: self.oblige('safety', False, 'memset dangling'); raise Abandon()
        self.oblige('safety', S(And(n >= 0, Or(Eq(n, 0), And(0 <= d.o, d.o + n <= rd.size)))), 'memset inside %s' % d.r)
        b = self.dom.bytes_split(v, 1)[0] if v.w == 8 else self.dom.u(self.dom.cast('trunc', v, 8))
        if rd.kind == 'cells':
            if not isint(n): raise Unsupported('symbolic memset on cells')
            i = 0
            if isint(b):
                while i < n:
                    c = 8 if n - i >= 8 else 4 if n - i >= 4 else 2 if n - i >= 2 else 1
                    self.store_bits(st, Ptr(d.r, S(d.o + i)), c, self.dom.const(8 * c, int.from_bytes(bytes([b] * c), 'little')))
                    i += c
            else:
                for i in range(n): self.store_bits(st, Ptr(d.r, S(d.o + i)), 1, v)
            return
        self.modify(st, ('arr', d.r))
        if rd.es > 1:
            if not isint(b): raise Unsupported('memset symbolic on wide elements')
            b = int.from_bytes(bytes([b] * rd.es), 'little')
            k = lindiv(n, rd.es)
            if k is None: raise Unsupported('memset size')
            st.mem[d.r] = rd.upd(mem=MSet(rd.mem, self.idx(d, rd), k, b))
            return
        st.mem[d.r] = rd.upd(mem=MSet(rd.mem, d.o, n, b))
    # ---- pointer comparison
    def pcmp(self, st, pr, a, b):
        if isinstance(a, PInt): a = Ptr(a.r, a.o)
        if isinstance(b, PInt): b = Ptr(b.r, b.o)
        if not isinstance(a, Ptr) or not isinstance(b, Ptr): raise Unsupported('pointer compare')
        if a.r == b.r:
            o = {'eq': lambda: Eq(a.o, b.o), 'ne': lambda: Not(Eq(a.o, b.o)), 'lt': lambda: a.o < b.o, 'le': lambda: a.o <= b.o, 'gt': lambda: a.o > b.o, 'ge': lambda: a.o >= b.o}[pr[-2:]]()
            return S(o)
        if pr == 'eq': return False
        if pr == 'ne': return True
        self.oblige('safety', False, 'relational comparison of unrelated pointers')
        raise Abandon()
    # ---- execution
    def run(self, st, label, prev):
        """execute from block label; explores all paths"""
        try:
            self._run(st, label, prev)
        except Abandon:
            pass
    def _run(self, st, label, prev):
        while True:
            # leaving loops
            while st.loops and label not in st.loops[-1].body:
                fr = st.loops.pop()
                fr.exits += 1
                if fr.collect: return
            if label in self.loopinfo:
                for fr in st.loops:
                    if fr.header == label:
                        while st.loops[-1] is not fr: st.loops.pop()
                        fr.on_back(st, self.phi_vals(st, label, prev))
                        return
                r = self.enter_loop(st, label, prev)
                if r is None: return
                # unrolled: fall through as an ordinary block
            vals = self.phi_vals(st, label, prev)
            st.env.update(vals)
            nxt = self.block(st, label)
            if nxt is None: return
            if len(nxt) == 1:
                prev, label = label, nxt[0][1]
                if nxt[0][0] is not True: self.assume(nxt[0][0])
                continue
            for c, tgt in nxt:
                self.push()
                try:
                    self.assume(c)
                    if self.feasible():
                        self.run(st.clone(), tgt, label)
                finally:
                    self.pop()
            return
    def phi_vals(self, st, label, prev):
        vals = {}
        for ins in self.fn.blocks[label]:
            if ins.op != 'phi': break
            for v, lb in ins.d['inc']:
                if lb == prev: vals[ins.res] = self.val(st, ins.d['t'], v); break
            else: raise Unsupported('phi without predecessor')
        return vals
    def block(self, st, label):
        for ins in self.fn.blocks[label]:
            if ins.op == 'phi': continue
            self.loc = label
            r = self.step(st, ins)
            if r is not None: return None if isinstance(r, str) else r
        raise Unsupported('fallthrough')
    def step(self, st, ins):
        op, d = ins.op, ins.d
        env = st.env
        if op == 'bin':
            a, b = self.val(st, d['t'], d['a']), self.val(st, d['t'], d['b'])
            if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
                o = d['o']
                if o == 'and': r = And(a, b)
                elif o == 'or': r = Or(a, b)
                elif o in ('xor', 'sub', 'add'): r = Not(Eq(a, b)) if not (isinstance(a, bool) and isinstance(b, bool)) else a != b
                else: raise Unsupported('bool ' + o)
                env[ins.res] = S(r) if not isinstance(r, bool) else r
            elif d['o'] == 'and' and isinstance(a, Opaque) and isinstance(a.what, tuple) and a.what[0] == 'fn' and isinstance(b, IV) and isint(b.t) and b.t == 1:
                env[ins.res] = self.dom.const(64, 0)              # functions are at even addresses (Itanium member pointers)
            elif isinstance(a, Opaque) or isinstance(b, Opaque):
                env[ins.res] = Opaque(('fp', d['o'], a, b))
            else: env[ins.res] = self.dom.bin(d['o'], d['fl'], a, b)
        elif op == 'icmp':
            a, b = self.val(st, d['t'], d['a']), self.val(st, d['t'], d['b'])
            if isinstance(a, Opaque) or isinstance(b, Opaque): raise Unsupported('icmp opaque')
            if isinstance(a, Ptr) or isinstance(b, Ptr): env[ins.res] = self.pcmp(st, d['pr'], a, b)
            elif isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
                e = Eq(a, b)
                if d['pr'] not in ('eq', 'ne'): 
                    e = self.dom.icmp(d['pr'], self.dom.ofbool(a, 8), self.dom.ofbool(b, 8)); env[ins.res] = e
                else: env[ins.res] = S(e if d['pr'] == 'eq' else Not(e))
            else: env[ins.res] = self.dom.icmp(d['pr'], a, b)
        elif op == 'cast':
            a = self.val(st, d['t'], d['a']); o = d['o']
            t2 = self.mod.res(d['t2'])
            if o in ('ptrtoint', 'inttoptr') and isinstance(a, Opaque) and isinstance(a.what, tuple) and a.what[0] == 'fn': env[ins.res] = a
            elif o == 'ptrtoint': env[ins.res] = PInt(a.r, a.o) if isinstance(a, Ptr) else a
            elif o == 'inttoptr': env[ins.res] = Ptr(a.r, a.o) if isinstance(a, PInt) else Ptr(NULL, self.dom.u(a))
            elif o == 'bitcast' and isinstance(a, Opaque) and isinstance(a.what, tuple) and a.what[0] == 'fpbits' and t2[0] == 'i': env[ins.res] = a.what[2]
            elif o == 'bitcast' and isinstance(a, IV) and t2[0] == 'f': env[ins.res] = Opaque(('fpbits', t2[1], a))
            elif isinstance(a, Opaque) or t2[0] == 'f': 
                env[ins.res] = self.contract.fpcast(self, st, o, a, d['t'], t2) if hasattr(self.contract, 'fpcast') else Opaque(('fpcast', o, a))
            elif isinstance(a, (bool, z3.BoolRef)):
                if t2[1] == 1: env[ins.res] = a
                elif o == 'zext': env[ins.res] = self.dom.ofbool(a, t2[1])
                else:
                    v = self.dom.ofbool(a, t2[1]); env[ins.res] = self.dom.bin('sub', set(), self.dom.const(t2[1], 0), v)
            elif t2[1] == 1 and o == 'trunc': env[ins.res] = self.dom.tobool(a)
            elif o == 'bitcast': env[ins.res] = a
            else: env[ins.res] = self.dom.cast(o, a, t2[1])
        elif op == 'select':
            c = self.val(st, ('i', 1), d['c']); a = self.val(st, d['t'], d['a']); b = self.val(st, d['t'], d['b'])
            if c is True: env[ins.res] = a
            elif c is False: env[ins.res] = b
            elif self.opts.get('split_select') and not isinstance(a, (bool, z3.BoolRef)) and not isinstance(b, (bool, z3.BoolRef)): return self.fork_select(st, ins, c, a, b)
            else:
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    if a.r == b.r: env[ins.res] = Ptr(a.r, S(Ite(c, a.o, b.o)), a.ep if a.ep == b.ep else None)
                    else: return self.fork_select(st, ins, c, a, b)
                elif isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)): env[ins.res] = S(Ite(c, a, b))
                elif isinstance(a, IV) and isinstance(b, IV): env[ins.res] = self.dom.ite(c, a, b)
                else: return self.fork_select(st, ins, c, a, b)
        elif op == 'gep':
            env[ins.res] = self.gep(st, d['bt'], self.val(st, ('ptr',), d['p']), [(it, self.val(st, it, iv)) for it, iv in d['idx']])
        elif op == 'load':
            env[ins.res] = self.load(st, self.val(st, ('ptr',), d['p']), d['t'])
        elif op == 'store':
            self.store(st, self.val(st, ('ptr',), d['p']), d['t'], self.val(st, d['t'], d['v']))
        elif op == 'alloca':
            t = self.mod.res(d['t']); n = self.val(st, ('i', 64), d['n'])
            if not isint(n.t): raise Unsupported('vla')
            lt = t
            while lt[0] == 'arr' or (lt[0] == 'st' and len(lt[1]) == 1): lt = self.mod.res(lt[2] if lt[0] == 'arr' else lt[1][0])
            if lt[0] == 'i' and self.mod.size(t) > self.mod.size(lt):
                es = self.mod.size(lt)
                env[ins.res] = Ptr(self.new_region(st, 'a:' + ins.res, 'array', self.mod.size(t) * n.t, es), 0)
            else:
                env[ins.res] = Ptr(self.new_region(st, 'a:' + ins.res, 'cells', self.mod.size(t) * n.t), 0)
        elif op == 'br': return [(True, d['tgt'])]
        elif op == 'cbr':
            c = self.val(st, ('i', 1), d['c'])
            c = S(c)
            if c is True: return [(True, d['a'])]
            if c is False: return [(True, d['b'])]
            if self.dry and any(f.dryloop and ((d['a'] in f.body) != (d['b'] in f.body)) for f in self.drystack): raise DryFail()
            return [(c, d['a']), (Not(c), d['b'])]
        elif op == 'switch':
            v = self.val(st, d['t'], d['v'])
            out, neg = [], []
            for cv, tgt in d['cs']:
                c = self.dom.icmp('eq', v, self.dom.const(v.w, cv))
                if c is True: return [(True, tgt)]
                if c is False: continue
                out.append((c, tgt)); neg.append(Not(c))
            out.append((And(*neg), d['d']))
            # group equal targets without phis
            if self.dry and any(f.dryloop and any((t in f.body) != (out[0][1] in f.body) for _, t in out) for f in self.drystack): raise DryFail()
            return out if len(out) > 1 else [(True, d['d'])]
        elif op == 'ret':
            self.rets += 0 if (self.mute or self.dry) else 1
            rv = None if d['v'] is None else self.val(st, d['t'], d['v'])
            if not self.dry: self.contract.on_ret(self, st, rv)
            return 'stop'
        elif op == 'unreachable':
            return 'stop'
        elif op == 'call':
            return self.call(st, ins)
        elif op == 'extractvalue':
            a = self.val(st, d['t'], d['a'])
            for i in d['ix']: a = a.v[i]
            env[ins.res] = a
        elif op == 'insertvalue':
            a = self.val(st, d['t'], d['a']); b = self.val(st, d['t2'], d['b'])
            def ins_(x, ix):
                y = Agg(x.v)
                if len(ix) == 1: y.v[ix[0]] = b
                else: y.v[ix[0]] = ins_(x.v[ix[0]], ix[1:])
                return y
            env[ins.res] = ins_(a, d['ix'])
        elif op == 'freeze': env[ins.res] = self.val(st, d['t'], d['a'])
        elif op == 'fcmp' or op == 'fneg':
            h = getattr(self.contract, op, None)
            if h is None: raise Unsupported(op)
            env[ins.res] = h(self, st, ins)
        else: raise Unsupported(ins.text[:100])
        return None
    def fork_select(self, st, ins, c, a, b):
        """select between pointers into different objects: fork the path"""
        lab = self.loc
        blk = self.fn.blocks[lab]
        i = next(k for k, x in enumerate(blk) if x is ins)
        for cc, v in ((c, a), (Not(c), b)):
            self.push()
            try:
                self.assume(cc)
                if self.feasible():
                    s2 = st.clone(); s2.env[ins.res] = v
                    try: self.resume(s2, lab, i + 1)
                    except Abandon: pass
            finally: self.pop()
        return 'stop'
    def fork(self, st, ins, alts):
        """alts: list of (cond, fn(state))  - continue after ins on each"""
        lab = self.loc
        blk = self.fn.blocks[lab]
        i = next(k for k, x in enumerate(blk) if x is ins)
        for cc, g in alts:
            self.push()
            try:
                self.assume(cc)
                if self.feasible():
                    s2 = st.clone()
                    try:
                        g(s2)
                        self.loc = lab
                        self.resume(s2, lab, i + 1)
                    except Abandon: pass
            finally: self.pop()
        return 'stop'
    def resume(self, st, lab, i):
        nxt = None
        for ins in self.fn.blocks[lab][i:]:
            self.loc = lab
            r = self.step(st, ins)
            if r is not None:
                nxt = None if isinstance(r, str) else r
                break
        if nxt is None: return
        for c, tgt in nxt:
            if c is True:
                self._run(st, tgt, lab); return
            self.push()
            try:
                self.assume(c)
                if self.feasible(): self.run(st.clone(), tgt, lab)
            finally: self.pop()
    def call(self, st, ins):
        import models
        d = ins.d
        name = d['f']
        if name is None and d['fp'][0] == 'loc':
            fv = st.env.get(d['fp'][1].lstrip('%').strip('"'), st.env.get(d['fp'][1]))
            if isinstance(fv, Opaque) and isinstance(fv.what, tuple) and fv.what[0] == 'fn': name = fv.what[1]
        args = [self.val(st, t, v) if v is not None else None for t, v in d['args']]
        h = self.contract.hooks.get(name) if name else None
        if h is None: h = models.lookup(name)
        if h is None: raise Unsupported('call to %s without a contract' % name)
        r = h(self, st, ins, args)
        if isinstance(r, (str, list)): return r
        if ins.res is not None and r is not None: st.env[ins.res] = r
        return None
    # ---- loops
    def enter_loop(self, st, header, prev):
        body = self.loopinfo[header]
        n = st.extra.get(('unroll', header), 0)
        if n < self.opts.get('unwind', 0):
            # complete symbolic unrolling (the exit paths must become infeasible; otherwise the cut below takes over)
            st.extra[('unroll', header)] = n + 1
            return 'unrolled'
        if self.opts.get('unroll', True) and n < self.opts['max_unroll'] and self.try_dry(st, header, prev, body):
            st.extra[('unroll', header)] = n + 1
            return 'unrolled'
        st.extra.pop(('unroll', header), None)
        if self.dry: raise DryFail()
        self.cut(st, header, prev, body)
        return None
    def try_dry(self, st, header, prev, body):
        """one iteration: are all exit decisions concrete?"""
        self.push()
        self.dry += 1
        fr = Frame(header, body); fr.dryloop = True; fr.mod = None
        fr.on_back = lambda s, v: None
        if not hasattr(self, 'drystack'): self.drystack = []
        self.drystack.append(fr)
        s2 = st.clone()
        s2.loops = s2.loops + [fr]
        fr.collect = True
        try:
            vals = self.phi_vals(s2, header, prev)
            s2.env.update(vals)
            nxt = self.block(s2, header)
            if nxt is None: return True
            if len(nxt) > 1:
                ok = True
                for c, tgt in nxt:
                    self.push()
                    try:
                        self.assume(c)
                        if self.feasible(): self._run(s2.clone(), tgt, header)
                    finally: self.pop()
            else: self._run(s2, nxt[0][1], header)
            return True
        except (DryFail, Unsupported):
            return False
        except Abandon:
            return True
        finally:
            self.drystack.pop(); self.dry -= 1; self.pop()
    def havoc_like(self, nm, v, hint=None):
        if isinstance(v, (bool, z3.BoolRef)): return z3.Bool(self.fresh(nm))
        if isinstance(v, IV):
            signed = self.dom.name == 'int' and v.lo < 0 and v.w > 8
            return self.dom.fresh(v.w, nm, signed)
        if isinstance(v, Ptr):
            if v.r == NULL: return v
            return Ptr(v.r, None, None)
        if isinstance(v, PInt): return PInt(v.r, self.dom.fresh_term(nm))
        if isinstance(v, Opaque): return Opaque(('havoc', self.fresh(nm)))
        raise Unsupported('havoc %r' % (v,))
    def cut(self, st0, header, prev, body):
        entry = {k: self.canon(v) for k, v in self.phi_vals(st0, header, prev).items()}
        mod = set()
        ctxname = header
        plain = set()
        rounds = 0
        alive = None
        region_of = {k: v.r for k, v in entry.items() if isinstance(v, Ptr)}
        affine_done = False
        discovered = False
        induct, ind_done = {}, self.dom.name == 'bv'
        later = []
        self.loopdepth = getattr(self, 'loopdepth', 0) + 1
        while True:
            rounds += 1
            if rounds > 60: raise Unsupported('houdini does not converge')
            self.push()
            try:
                st, b, b0 = self.havoc(st0, header, entry, mod, plain, induct)
                if alive is None and not discovered:
                    alive = []
                    disc = True
                elif alive is None:
                    cands = self.gen_cands(st0, st, b, b0, header, body)
                    alive = []
                    self.pop()
                    try:
                        for c in cands:
                            if c.forall and c.forall[0] is not None and not isinstance(st.mem[c.forall[0]].mem, MBase): continue
                            if self.check_cand(c, b0, 'entry'): alive.append(c)
                        if self.opts.get('staged', True):
                            later = [c for c in alive if c.stage == 2]
                            alive = [c for c in alive if c.stage == 1]
                    finally: self.push()
                    # havoc again under fresh scope
                    self.pop(); self.push()
                    st, b, b0 = self.havoc(st0, header, entry, mod, plain, induct)
                    cached = self.last_alive.get((header, len(st0.loops)))
                    if cached is not None and self.mute:
                        alive = [c for c in alive if c.name in cached]
                        later = [c for c in later if c.name in cached]
                for c in alive: self.assume_cand(c, b)
                disc = not discovered
                fr = Frame(header, body); fr.dryloop = False
                fr.mod = mod
                drop = set()
                deltas = []
                backs = []
                newplain = set()
                badind = set()
                def on_back(s, vals, fr=fr, b=b, drop=drop, deltas=deltas, newplain=newplain, st=st):
                    nb = self.back_binds(s, vals, b, st)
                    for k, v in vals.items():
                        if isinstance(v, Ptr) and k not in plain and isinstance(b.vals.get(k), Ptr) and v.r != NULL and st.mem[v.r].es > 1 and lindiv(v.o, st.mem[v.r].es) is None: newplain.add(k)
                        if isinstance(v, Ptr) and isinstance(entry[k], Ptr) and v.r != entry[k].r:
                            raise Unsupported('loop pointer %s changes object' % k)
                    dl = {}
                    for k, v in b.vals.items():
                        n = nb.vals.get(k)
                        if isinstance(v, IV) and isinstance(n, IV): dl[k] = S(n.t - v.t)
                        elif isinstance(v, Ptr) and isinstance(n, Ptr) and v.r == n.r: dl[k] = S(n.o - v.o)
                    deltas.append(dl)
                    for k, q in induct.items():
                        if not isint(dl.get(k)) or dl.get(k) != q: badind.add(k)
                    todo = [c for c in alive if c.name not in drop]
                    # batch first
                    for c in todo:
                        if c.name in drop: continue
                        if not self.check_cand(c, nb, 'back'): drop.add(c.name)
                    fr.backs.append(nb)
                fr.backs = []
                fr.on_back = on_back
                st.loops = st.loops + [fr]
                self.mute += 1
                try:
                    self.explore_header(st, header)
                finally: self.mute -= 1
            finally:
                self.pop()
            if fr.missing or newplain or disc or badind: self.forget_inner(st0)
            if fr.missing:
                mod |= fr.missing; alive = None; continue
            if newplain:
                plain |= newplain; alive = None; continue
            if disc:
                discovered = True; alive = None; continue
            if badind:
                for k in badind: induct.pop(k, None)
                alive = None; continue
            if not ind_done and deltas:
                ind_done = True
                for k in deltas[0]:
                    q = deltas[0][k]
                    if isint(q) and q != 0 and all(isint(d.get(k)) and d[k] == q for d in deltas) and (k in entry or k.startswith('cell:')) and not isinstance(b.vals[k], PInt): induct[k] = q
                if induct: alive = None; self.forget_inner(st0); continue
            aff = []
            if not affine_done and deltas:
                affine_done = True
                aff = self.affine(entry, b, b0, deltas)
                aff = [c for c in aff if c.name not in {a.name for a in alive}]
            if drop:
                alive = [c for c in alive if c.name not in drop]
            if aff:
                alive = alive + aff; self.forget_inner(st0)
            if not drop and not aff and later:
                # scalar bounds are stable: now the memory and contract invariants
                alive = alive + later; later = []; self.forget_inner(st0); continue
            if not drop and not aff: break
        self.last_alive[(header, len(st0.loops))] = {c.name for c in alive}
        if self.verbose and not self.mute:
            print('  loop %s: mod=%s rounds=%d alive=%s' % (header, sorted(map(str, mod)), rounds, [c.name for c in alive]))
        # final pass: inductive set established; explore body with obligations on, and the exits
        self.push()
        try:
            st, b, b0 = self.havoc(st0, header, entry, mod, plain, induct)
            for c in alive: self.assume_cand(c, b)
            fr = Frame(header, body); fr.dryloop = False
            fr.mod = mod; fr.collect = False; fr.backs = []
            for f in st.loops: pass
            names = [c.name for c in alive]
            ranks = self.rank_terms(b, alive)
            prog = []
            def on_back2(s, vals, fr=fr, b=b, st=st):
                nb = self.back_binds(s, vals, b, st)
                for k, q in induct.items():
                    v, n = b.vals[k], nb.vals[k]
                    dq = S(self.num(n) - self.num(v))
                    if not (isint(dq) and dq == q): raise Unsupported('induction variable %s changes its step' % k)
                if self.mute: return
                for k, q in induct.items(): self.obls.append(Obl(self.fn.name, 'invariant', '%s == entry + %d*iterations' % (k, q), True, None, header, 'simplifier', 0))
                # every surviving invariant is re-established: these are the obligations of the loop contract
                ct0 = self.opts.get('cand_timeout', 3000)
                self.opts['cand_timeout'] = max(ct0, self.opts['timeout'])
                for c in alive:
                    ok = self.check_cand(c, nb, 'back')
                    self.obls.append(Obl(self.fn.name, 'invariant', c.name, ok, None, header, 'z3-5.3.2', 0))
                self.opts['cand_timeout'] = ct0
                if self.opts.get('termination', True) and self.contract.terminates:
                    prog.append(self.progress(ranks, b, nb))
            fr.on_back = on_back2
            st.loops = st.loops + [fr]
            if not self.mute:
                for c in alive: self.obls.append(Obl(self.fn.name, 'invariant', c.name + ' on entry', True, None, header, 'z3-5.3.2', 0))
            self.explore_header(st, header)
            if not self.mute: self.conclude_rank(prog, header)
        finally:
            self.pop()
            self.loopdepth -= 1
        if fr.missing: raise Unsupported('late modification %s' % fr.missing)
    def forget_inner(self, st0):
        """the assumed outer invariants changed other than by shrinking: inner loops start from all their candidates again"""
        for k in [k for k in self.last_alive if k[1] > len(st0.loops)]: del self.last_alive[k]
    def explore_header(self, st, header):
        nxt = self.block_safe(st, header)
        if nxt is None: return
        for c, tgt in nxt:
            if c is True:
                self.run(st, tgt, header); return
            self.push()
            try:
                self.assume(c)
                if self.feasible(): self.run(st.clone(), tgt, header)
            finally: self.pop()
    def block_safe(self, st, label):
        try: return self.block(st, label)
        except Abandon: return None
    def havoc(self, st0, header, entry, mod, plain, induct=()):
        st = st0.clone()
        b0, b = Binds(dict(entry), st0), Binds({}, st)
        kap = None
        if induct:
            # ghost iteration counter: variables advancing by the same constant on every back edge
            kap = self.dom.fresh_term('iter'); self.assume(kap >= 0)
            b.kappa = kap; b0.kappa = 0
        def indval(k, v):
            d = induct[k]
            if isinstance(v, Ptr): return Ptr(v.r, S(v.o + d * kap), None)
            if isinstance(v, PInt): return PInt(v.r, S(v.o + d * kap))
            t = S(v.t + d * kap)
            lo, hi = (-(1 << (v.w - 1)), (1 << (v.w - 1)) - 1) if (v.lo < 0 and v.w > 8) else (0, (1 << v.w) - 1)
            self.assume(And(t >= lo, t <= hi))
            return IV(v.w, t, lo, hi)
        for k, v in entry.items():
            if k in induct:
                st.env[k] = b.vals[k] = indval(k, v); continue
            n = self.havoc_like(k, v)
            if isinstance(n, Ptr) and n.o is None:
                es = st.mem[n.r].es if n.r in st.mem else 1
                if es > 1 and k not in plain and lindiv(v.o, es) is not None: n = Ptr(n.r, es * self.dom.fresh_term(k), None)
                else: n = Ptr(n.r, self.dom.fresh_term(k), None)
            st.env[k] = n
            b.vals[k] = n
        for key in sorted(mod, key=str):
            if key[0] == 'arr':
                r = key[1]
                if r not in st.mem: continue
                rs = st.mem[r]
                st.mem[r] = rs.upd(mem=self.fresh_mem(str(r), rs.es))
            elif key[0] == 'cell':
                _, r, o, n = key
                if r not in st.mem: continue
                rs = st.mem[r]
                old = rs.cells.get(o)
                if old is not None and old[0] == n:
                    old = (n, self.canon(old[1]))
                    ck = 'cell:%s:%s' % (r, o)
                    v = indval(ck, old[1]) if ck in induct else self.havoc_like('cell_%s_%s' % (r, o), old[1])
                    if isinstance(v, Ptr) and v.o is None: v = Ptr(v.r, self.dom.fresh_term('cell_%s_%s' % (r, o)), None)
                    cells = dict(rs.cells); cells[o] = (n, v)
                    b.vals['cell:%s:%s' % (r, o)] = v; b0.vals['cell:%s:%s' % (r, o)] = old[1]
                else:
                    cells = {co: c for co, c in rs.cells.items() if not (co < o + n and o < co + c[0])}
                st.mem[r] = rs.upd(cells=cells)
            elif key[0] == 'ghost':
                g = key[1]
                old = st.ghost[g]
                if isinstance(old, (int, z3.ArithRef)) or z3.is_bv(old):
                    t = self.dom.fresh_term('g_' + g)
                    if self.dom.name == 'int': self.assume(t >= 0)
                    st.ghost[g] = t
                    b.vals['ghost:' + g] = IV(64, t, 0, (1 << 62)) if self.dom.name == 'int' else IV(64, t)
                    b0.vals['ghost:' + g] = IV(64, old, 0, 1 << 62) if self.dom.name == 'int' else IV(64, old)
                elif z3.is_bool(old) or isinstance(old, bool):
                    t = z3.Bool(self.fresh('g_' + g)); st.ghost[g] = t
                    b.vals['ghost:' + g] = t; b0.vals['ghost:' + g] = old
                else: raise Unsupported('ghost havoc')
            elif key[0] == 'size':
                r = key[1]
                rs = st.mem[r]
                t = self.dom.fresh_term('size_' + str(r))
                if self.dom.name == 'int': self.assume(And(t >= 0, t <= 1 << 60))
                if rs.es > 1: t = rs.es * t
                st.mem[r] = rs.upd(size=t, ep=self.fresh('ep'))
                b.vals['size:%s' % r] = IV(64, t, 0, 1 << 61) if self.dom.name == 'int' else IV(64, t)
                b0.vals['size:%s' % r] = IV(64, st0.mem[r].size, 0, 1 << 61) if self.dom.name == 'int' else IV(64, st0.mem[r].size)
        return st, b, b0
    def canon(self, v, like=None):
        # canonical representative: the window a havocked value of this kind is assumed to lie in
        if self.dom.name != 'int' or not isinstance(v, IV): return v
        ref = like if like is not None else v
        signed = ref.lo < 0 and v.w > 8
        t = self.dom.s(v) if signed else self.dom.u(v)
        lo, hi = (-(1 << (v.w - 1)), (1 << (v.w - 1)) - 1) if signed else (0, (1 << v.w) - 1)
        la, ha = self.dom.ivl(v, t, lo, hi)
        return IV(v.w, t, max(la, lo), min(ha, hi), v.pm)
    def back_binds(self, s, vals, b, sthead):
        nb = Binds({k: self.canon(v, b.vals.get(k) if isinstance(b.vals.get(k), IV) else None) for k, v in vals.items()}, s)
        for k in b.vals:
            if k.startswith('cell:'):
                _, r, o = k.split(':', 1)[0], k.split(':', 1)[1].rsplit(':', 1)[0], int(k.rsplit(':', 1)[1])
                c = s.mem[r].cells.get(o)
                if c is None: raise Unsupported('loop-carried cell %s disappears' % k)
                if isinstance(c[1], Ptr) and (not isinstance(b.vals[k], Ptr) or b.vals[k].r != c[1].r): raise Unsupported('loop-carried pointer cell %s changes object' % k)
                nb.vals[k] = self.canon(c[1], b.vals[k] if isinstance(b.vals[k], IV) else None)
            elif k.startswith('ghost:'):
                g = s.ghost[k[6:]]
                nb.vals[k] = g if (z3.is_bool(g) or isinstance(g, bool)) else IV(64, g, 0, 1 << 62)
            elif k.startswith('size:'):
                nb.vals[k] = IV(64, s.mem[k[5:]].size, 0, 1 << 61)
        return nb
    def check_cand(self, c, b, where):
        r = self.check_cand_(c, b, where)
        w = self.opts.get('why')
        if w and not r and re.search(w, c.name):
            print('WHY', c.name, where, self.loc, 'goal', str(c.f(b) if c.forall is None else '')[:300], str(getattr(self, 'last_res', '')), {k: str(v)[:40] for k, v in b.vals.items()})
            if c.forall is None and not isinstance(S(c.f(b)), bool) and os.environ.get('WHYM'): print('   ', self.prove(S(c.f(b)), want_model=True), str(self.last_model)[:1500].replace(chr(10), ' '))
        return r
    def check_cand_(self, c, b, where):
        self.what = c.name + ' ' + where
        try:
            if c.forall is None:
                g = c.f(b)
                if g is None: return False
                g = S(g) if not isinstance(g, bool) else g
                if g is True: return True
                if g is False: return False
                return self.prove(g, self.opts.get('cand_timeout', 3000))
            r, cond, expr = c.forall
            j = self.dom.fresh_term('j')
            if r is None:
                g = Implies(cond(j, b), expr(j, b))
            else:
                for g in self.mem_goals(b.st.mem[r].mem, j, lambda j: cond(j, b), lambda j: expr(j, b)):
                    if g is None: return False
                    g = S(g) if not isinstance(g, bool) else g
                    if g is True: continue
                    if g is False or not self.prove(g, self.opts.get('cand_timeout', 3000)): return False
                return True
            g = S(g) if not isinstance(g, bool) else g
            if g is True: return True
            if g is False: return False
            return self.prove(g, self.opts.get('cand_timeout', 3000))
        except (KeyError, AttributeError, TypeError, z3.Z3Exception) as e:
            if self.opts.get('debugc'): 
                import traceback; traceback.print_exc()
            return False
    def mem_goals(self, m, j, cond, expr):
        """forall j: cond(j) ==> m[j]==expr(j), split at the stores on top of m"""
        keys = []
        while isinstance(m, MStore) and len(keys) < 12:
            mk = m.k if not isint(m.k) else (z3.IntVal(m.k) if self.dom.name == 'int' else z3.BitVecVal(m.k, 64))
            e = expr(mk)
            yield None if e is None else Implies(And(cond(mk), *[Not(keq(m.k, q)) for q in keys]), Eq(m.v, e))
            keys.append(m.k); m = m.p
        if isinstance(m, MIf):
            c0 = lambda j: And(cond(j), *[Not(keq(j, q)) for q in keys])
            yield from self.mem_goals(m.p, j, lambda j: And(c0(j), m.c(j)), expr)
            yield from self.mem_goals(m.q, j, lambda j: And(c0(j), Not(m.c(j))), expr)
            return
        e = expr(j)
        yield None if e is None else Implies(And(cond(j), *[Not(keq(j, q)) for q in keys]), Eq(m.read(j), e))
    def assume_cand(self, c, b):
        if c.forall is None:
            g = c.f(b)
            if g is not None: self.assume(g)
            return
        r, cond, expr = c.forall
        if r is None:
            # fact over spec functions: expr(j,b) with trigger given in grp
            for decl in c.grp: self.axiom(decl, lambda j: Implies(cond(j, b), expr(j, b)))
            return
        rs = b.st.mem[r]
        if not isinstance(rs.mem, MBase): raise Unsupported('forall candidate on unmodified memory ' + c.name)
        f = rs.mem.f
        self.axiom(f, lambda j: Implies(cond(j, b), f(j) == expr(j, b)), fuel=3)
    # ---- candidate generation
    def num(self, v):
        """math term of an int or pointer bind"""
        if isinstance(v, Ptr): return v.o
        if isinstance(v, PInt): return v.o
        if isinstance(v, IV): return v.t
        return None
    def loop_terms(self, st0, st, body):
        """loop-invariant operands of comparisons in the loop: [(kind, name, term, region/w)]"""
        out, seen = [], set()
        def add(v, nm):
            if isinstance(v, Ptr) and v.r != NULL:
                k = ('p', v.r, v.o if isint(v.o) else v.o.get_id())
                if k not in seen: seen.add(k); out.append(('p', nm, v.o, v.r))
            elif isinstance(v, IV):
                for t in ((v.t,) if self.dom.name == 'int' else (v.t,)):
                    k = ('i', v.w, t if isint(t) else t.get_id())
                    if k not in seen: seen.add(k); out.append(('i', nm, t, v.w))
            elif isinstance(v, PInt):
                add(Ptr(v.r, v.o), nm)
        for lb in body:
            for ins in self.fn.blocks[lb]:
                ops = []
                if ins.op == 'icmp' or ins.op == 'bin': ops = [(ins.d['t'], ins.d['a']), (ins.d['t'], ins.d['b'])]
                elif ins.op == 'switch': ops = [(('i', ins.d['t'][1]), ('int', ins.d['t'][1], cv)) for cv, _ in ins.d['cs'][:4]]
                elif ins.op == 'gep': ops = [(('ptr',), ins.d['p'])]
                for t, v in ops:
                    try:
                        if v[0] == 'loc':
                            if v[1] in st0.env and v[1] not in self.defined_in(body): add(st0.env[v[1]], v[1])
                        elif v[0] == 'int' and ins.op == 'icmp': add(self.val(st0, t, v), str(v[2]))
                    except Unsupported: pass
        return out
    def defined_in(self, body):
        key = id(body)
        if not hasattr(self, '_def'): self._def = {}
        if key not in self._def:
            self._def[key] = {ins.res for lb in body for ins in self.fn.blocks[lb] if ins.res}
        return self._def[key]
    def gen_cands(self, st0, st, b, b0, header, body):
        C = []
        num = self.num
        ks = [k for k, v in b.vals.items() if isinstance(v, (IV, Ptr, PInt)) and num(v) is not None and not (isinstance(v, Ptr) and v.r == NULL)]
        terms = self.loop_terms(st0, st, body)
        def mk(name, k, op, T):
            if op == 'le': C.append(Cand(name, lambda b, k=k, T=T: num(b[k]) <= T))
            elif op == 'ge': C.append(Cand(name, lambda b, k=k, T=T: num(b[k]) >= T))
            elif op == 'eq': C.append(Cand(name, lambda b, k=k, T=T: Eq(num(b[k]), T)))
        for k in ks:
            v = b[k]
            e = num(b0[k])
            if isinstance(v, PInt): e = b0[k].o
            mk('%s==entry' % k, k, 'eq', e)
            mk('%s>=entry' % k, k, 'ge', e)
            mk('%s<=entry' % k, k, 'le', e)
            if isinstance(v, (Ptr, PInt)):
                r = v.r
                if r in st0.mem:
                    mk('%s<=size' % k, k, 'le', st0.mem[r].size)
                mk('%s>=0' % k, k, 'ge', 0)
                for kind, nm, T, rr in terms:
                    if kind == 'p' and rr == r and not (isint(T) and T == 0): mk('%s<=%s' % (k, nm), k, 'le', T); mk('%s>=%s' % (k, nm), k, 'ge', T)
                for k2 in ks:
                    if k2 != k and isinstance(b0[k2], (Ptr,)) and b0[k2].r == r: mk('%s>=%s0' % (k, k2), k, 'ge', num(b0[k2]))
            else:
                if not (isint(e) and e == 0): mk('%s>=0' % k, k, 'ge', 0)
                if v.w == 8: mk('%s is a boolean' % k, k, 'le', 1)
                for kind, nm, T, w in terms:
                    if kind == 'i' and (w == v.w or k.startswith('ghost')):
                        mk('%s<=%s' % (k, nm), k, 'le', T); mk('%s>=%s' % (k, nm), k, 'ge', T)
                        if isint(T): mk('%s<%s' % (k, nm), k, 'le', T - 1)
            for m in (2, 3, 4, 8):
                if self.dom.name == 'int' and not k.startswith('size'):
                    C.append(Cand('%s%%%d' % (k, m), lambda b, k=k, m=m, e=e: (num(b[k]) - e) % m == 0))
        for x, y in itertools.combinations(ks, 2):
            vx, vy = b[x], b[y]
            if type(vx) is type(vy) and ((isinstance(vx, Ptr) and vx.r == vy.r) or (isinstance(vx, IV) and vx.w == vy.w)):
                C.append(Cand('%s<=%s' % (x, y), lambda b, x=x, y=y: num(b[x]) <= num(b[y])))
                C.append(Cand('%s<=%s' % (y, x), lambda b, x=x, y=y: num(b[y]) <= num(b[x])))
                C.append(Cand('%s<%s' % (x, y), lambda b, x=x, y=y: num(b[x]) < num(b[y])))
                C.append(Cand('%s<%s' % (y, x), lambda b, x=x, y=y: num(b[y]) < num(b[x])))
        for k in ks:
            # a cursor kept at the end of its growing storage (std::vector)
            if isinstance(b[k], Ptr) and 'size:%s' % b[k].r in b.vals: C.append(Cand('%s is the size of its storage' % k, lambda b, k=k: Eq(num(b[k]), num(b['size:%s' % b[k].r]))))
        for k, v in b.vals.items():
            if isinstance(v, z3.BoolRef):
                e = b0[k]
                C.append(Cand('%s==entry' % k, lambda b, k=k, e=e: Eq(b[k], e)))
        # frame candidates: part of a modified array still as at loop entry
        for r in {v.r for v in b.vals.values() if isinstance(v, Ptr)} | set(st.mem):
            if r in st.mem and st.mem[r].kind == 'array' and r in st0.mem and st.mem[r].mem is not st0.mem[r].mem:
                m0, es = st0.mem[r].mem, st.mem[r].es
                for k in ks:
                    if isinstance(b[k], Ptr) and b[k].r == r:
                        C.append(Cand('frame %s >=%s' % (r, k), forall=(r, lambda j, b, k=k, es=es: j * es >= num(b[k]), lambda j, b, m0=m0: m0.read(j))))
                        C.append(Cand('frame %s <%s' % (r, k), forall=(r, lambda j, b, k=k, es=es: j * es < num(b[k]), lambda j, b, m0=m0: m0.read(j))))
                        e = num(b0[k])
                        C.append(Cand('frame %s <entry %s' % (r, k), forall=(r, lambda j, b, e=e, es=es: j * es < e, lambda j, b, m0=m0: m0.read(j))))
                        C.append(Cand('frame %s >=entry %s' % (r, k), forall=(r, lambda j, b, e=e, es=es: j * es >= e, lambda j, b, m0=m0: m0.read(j))))
        T = self.contract.templates(self, st0, st, b, b0, header) or []
        for c in T: c.stage = 2
        C += T
        seen, out = set(), []
        for c in C:
            if c.name not in seen: seen.add(c.name); out.append(c)
        return out
    def affine(self, entry, b, b0, deltas):
        """linear equalities between loop-carried values implied by constant per-path increments"""
        from fractions import Fraction
        num = self.num
        ks = [k for k in b.vals if all(k in d for d in deltas) and num(b[k]) is not None]
        const = [k for k in ks if all(isint(d[k]) for d in deltas)]
        if self.dom.name == 'bv': 
            return []
        C = []
        def rel(x, y, a, c):
            # a*(x-x0) == c*(y-y0)
            x0, y0 = num(b0[x]), num(b0[y])
            nm = 'affine %d*%s==%d*%s' % (a, x, c, y)
            C.append(Cand(nm, lambda bb: a * (num(bb[x]) - x0) == c * (num(bb[y]) - y0)))
        import math
        for x, y in itertools.combinations(const, 2):
            vx = [d[x] for d in deltas]; vy = [d[y] for d in deltas]
            if not any(vx) or not any(vy): continue
            i = next((i for i in range(len(vx)) if vx[i] or vy[i]), None)
            p, q = vx[i], vy[i]
            if p == 0 or q == 0: continue
            g = math.gcd(abs(p), abs(q)); p //= g; q //= g
            if all(q * vx[j] == p * vy[j] for j in range(len(vx))): rel(x, y, q, p)
        # symbolic but equal/opposite deltas
        for x, y in itertools.combinations(ks, 2):
            if x in const and y in const: continue
            try:
                if all(S(d[x] - d[y]) == 0 and isint(S(d[x] - d[y])) for d in deltas): rel(x, y, 1, 1)
                elif all(isint(S(d[x] + d[y])) and S(d[x] + d[y]) == 0 for d in deltas): rel(x, y, 1, -1)
            except Exception: pass
        for k in const:
            g = 0
            for d in deltas: g = math.gcd(g, abs(d[k]))
            if g > 1:
                e = num(b0[k])
                C.append(Cand('%s%%%d*' % (k, g), lambda bb, k=k, g=g, e=e: (num(bb[k]) - e) % g == 0))
        # triples with constant deltas: a*x+b*y+c*z const
        if len(const) <= 8:
            for x, y, z in itertools.combinations(const, 3):
                X, Y, Z = ([d[k] for d in deltas] for k in (x, y, z))
                for (p, q, r) in ((1, -1, -1), (1, 1, -1), (1, -1, 1), (1, 1, 1)):
                    if all(p * X[i] + q * Y[i] + r * Z[i] == 0 for i in range(len(X))) and any(X) and any(Y) and any(Z):
                        x0, y0, z0 = num(b0[x]), num(b0[y]), num(b0[z])
                        C.append(Cand('affine3 %s %s %s %s' % (x, y, z, (p, q, r)), lambda bb, x=x, y=y, z=z, p=p, q=q, r=r, x0=x0, y0=y0, z0=z0: p * (num(bb[x]) - x0) + q * (num(bb[y]) - y0) + r * (num(bb[z]) - z0) == 0))
        C += self.contract.affine_hints(self, b, b0, deltas) or []
        return C
    # ---- termination
    def rank_terms(self, b, alive):
        up, dn = set(), set()
        for c in alive:
            m = re.match(r'^([^<>=]+)(<=|<|>=|>|==)(.+)$', c.name)
            if not m or c.forall: continue
            k, op, T = m.groups()
            if k in b.vals and not (T in b.vals):
                if op in ('<=', '<') and T != k: up.add(k)
                if op in ('>=', '>') : dn.add(k)
        for k, v in b.vals.items():
            if isinstance(v, IV): dn.add(k); up.add(k)   # machine integers are bounded both ways
        return up, dn
    def progress(self, ranks, b, nb):
        """per loop variable: 'S' strictly progresses towards its bound on this back edge, 'W' does not regress"""
        res = {}
        for d, ks in (('u', ranks[0]), ('d', ranks[1])):
            for k in sorted(ks):
                n = self.num(nb.vals.get(k)) if k in nb.vals else None
                if n is None: continue
                o = self.num(b.vals[k])
                if self.dom.name == 'int':
                    df = S(n - o)
                    if isint(df):
                        if df == 0: res[(d, k)] = 'W'
                        elif (df > 0) == (d == 'u'): res[(d, k)] = 'S'
                        continue
                g = S(n > o if d == 'u' else n < o)
                if g is True or (g is not False and self.prove(zb(g), 2000)): res[(d, k)] = 'S'; continue
                g = S(n >= o if d == 'u' else n <= o)
                if g is True or (g is not False and self.prove(zb(g), 2000)): res[(d, k)] = 'W'
        h = getattr(self.contract, 'rank', None)
        if h:
            for i, g in enumerate(h(self, b, nb)):
                if self.prove(zb(g), 3000): res[('c', 'contract%d' % i)] = 'S'
        return res
    def conclude_rank(self, prog, header):
        """lexicographic argument over the back edges' progress tables"""
        left, used = list(prog), []
        while left:
            ks = set.intersection(*[set(p) for p in left])
            best = None
            for k in sorted(ks):
                n = [p for p in left if p[k] != 'S']
                if len(n) < len(left) and (best is None or len(n) < len(best[1])): best = (k, n)
            if best is None:
                self.obls.append(Obl(self.fn.name, 'termination', 'loop %s: every iteration makes progress towards a bound' % header, False, None, header, 'z3-5.3.2', 0))
                if self.verbose: print('FAILED termination', header, prog)
                return
            used.append(best[0]); left = best[1]
        if prog: self.obls.append(Obl(self.fn.name, 'termination', 'loop %s terminates: %s' % (header, used), True, None, header, 'z3-5.3.2', 0))

class DryFail(Exception):
    pass
