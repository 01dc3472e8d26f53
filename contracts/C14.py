"""C14 text comparison and search."""
from common import *
import C13
def up(ch): return Ite(And(ch >= 97, ch <= 122), ch - 32, ch)
def same(ic): return (lambda a, b: Eq(up(a), up(b))) if ic else Eq
def two(c, kind, names=('t', 't2')):
    """two texts: lengths m and n"""
    a, b = names
    if kind == 's': p, c.pr, c.m = c.string(a, const=True); q, c.tr, c.n = c.string(b, const=True); args = [p, q]
    else:
        c.m = c.size('m'); c.n = c.size('n'); p = c.buf(a, c.m, const=True); q = c.buf(b, c.n, const=True); c.pr, c.tr = a, b
        args = [p, Ptr(a, c.m), q, Ptr(b, c.n)]
    c.P, c.T = c.mem(c.pr).read, c.mem(c.tr).read
    return args
def diff(c, off, L, ic):
    """D: the first of the L places where the two texts (the second from off on) differ, L if none"""
    D = c.D = c.dom.fresh_term('D'); eq = same(ic)
    c.assume(And(D >= 0, Or(D <= L, L < 0)))
    c.assume(Implies(And(D >= 0, D < L), Not(eq(c.P(D), c.T(S(off + D))))))
    c.axiom(c.mem(c.pr).f if isinstance(c.mem(c.pr), MBase) else c.mem(c.pr).p.f, lambda k: Implies(And(k >= 0, k < D), eq(c.P(k), c.T(S(off + k)))), fuel=3)
def setup(kind, what, ic):
    def f(c):
        a = two(c, kind); L = c.m
        off = S(c.n - c.m) if what == 'end' else 0
        if what == 'eq': c.assume(True); L = Ite(c.m <= c.n, c.m, c.n)
        diff(c, off, S(L), ic)
        c.want = And(c.m == c.n if what == 'eq' else c.m <= c.n, Eq(c.D, c.m))
        return a
    return f
def tmpl(c, st0, st, b, b0):
    return [Cand('no difference before %s' % k, lambda b, k=k: b[k].o <= c.D) for k, v in b.vals.items() if isinstance(v, Ptr) and v.r == c.pr]
def ens(c, st, rv): c.ensure('the answer', Eq(rv, c.want))
def s_ch(c): c.a, c.b = c.int('a', 8), c.int('b', 8); return [c.a, c.b]
# ---- search: NEXT(s) is the first place from s on where the pattern occurs (n when there is none)
SEARCH = {'_ZSt6searchIPKcS1_ET_S2_S2_T0_S3_': False, '_ZSt6searchIPKhS1_ET_S2_S2_T0_S3_': False, '_ZSt6searchIPKcS1_PFbccEET_S4_S4_T0_S5_T1_': True}
IMCH = '_ZN5strtk11imatch_charEcc'
def zi(t): return z3.IntVal(t) if isint(t) else t
def next_of(c):
    N = c.x.ufun('NEXT', 1)
    c.axiom(N, lambda s: Implies(And(s >= 0, s <= c.n), Or(Eq(N(s), c.n), And(N(s) >= s, N(s) + c.m <= c.n, N(s) < c.n))), fuel=3)
    c.N = lambda s: N(zi(S(s)))
def h_search(ic):
    def h(x, st, ins, a):
        c = x.contract.c; b, e, pb, pe = a[:4]
        cmp = len(a) > 4
        x.oblige('post', cmp == c.ic and (not cmp or (isinstance(a[4], Opaque) and a[4].what == ('fn', IMCH))), 'elements are compared the way this function promises')
        ok = all(isinstance(q, Ptr) for q in (b, e, pb, pe)) and b.r == e.r == c.tr and pb.r == pe.r == c.pr
        x.oblige('post', ok, 'searched text and pattern')
        if not ok: return 'stop'
        x.oblige('post', S(And(b.o >= 0, b.o <= c.n, Eq(e.o, c.n))), 'the search covers the rest of the text')
        x.oblige('post', S(And(Eq(pb.o, 0), Eq(pe.o, c.m))), 'the whole pattern is searched')
        return Ptr(c.tr, c.N(b.o))
    return h
HS = {k: h_search(v) for k, v in SEARCH.items()}
def s_find(kind, ic):
    def f(c):
        a = two(c, kind); c.ic = ic; next_of(c)
        # E(i): place of the i-th match, each search starts behind the previous match
        E = c.x.ufun('E', 1); c.E = lambda i: E(zi(S(i)))
        c.axiom(E, lambda i: Implies(i >= 0, Eq(E(i), Ite(Eq(i, 0), c.N(0), c.N(E(zi(S(i - 1))) + c.m)))), fuel=2)
        c.st.ghost['cnt'] = 0
        return a
    return f
def emit(x, st, ins, a):
    c = x.contract.c; i = st.ghost['cnt']; b, e = a
    x.modify(st, ('ghost', 'cnt')); st.ghost['cnt'] = S(i + 1)
    if x.dry: return None
    ok = isinstance(b, Ptr) and isinstance(e, Ptr) and b.r == e.r == c.tr
    x.oblige('post', ok, 'reported range lies in the text')
    if ok:
        x.oblige('post', S(And(Eq(b.o, c.E(i)), c.E(i) < c.n)), 'the next match is reported, at its place')
        x.oblige('post', S(Eq(e.o, b.o + c.m)), 'the reported range has the length of the pattern')
def e_find(c, st, rv):
    cnt = st.ghost['cnt']
    c.ensure('returns the number of reported matches', Eq(c.u(rv), cnt))
    c.ensure('an empty pattern is reported nowhere', Implies(Eq(c.m, 0), Eq(cnt, 0)))
    c.ensure('no further match', Implies(c.m > 0, Eq(c.E(cnt), c.n)))
def t_find(c, st0, st, b, b0):
    L = []
    for k, v in b.vals.items():
        if isinstance(v, Ptr) and v.r == c.tr:
            L.append(Cand('at most one match per place before %s' % k, lambda b, k=k: b.st.ghost['cnt'] <= b[k].o))
            L.append(Cand('the next search starts at %s' % k, lambda b, k=k: Eq(c.E(b.st.ghost['cnt']), c.N(b[k].o))))
        if isinstance(v, IV) and v.w == 64: L.append(Cand('%s counts the matches' % k, lambda b, k=k: Eq(c.u(b[k]), b.st.ghost['cnt'])))
    return L
def s_first(ic):
    def f(c): a = two(c, 's'); c.ic = ic; next_of(c); return a
    return f
def e_first(ic):
    def e(c, st, rv):
        npos = (1 << 64) - 1
        none = Or(Eq(c.N(0), c.n), c.m > c.n) if ic else Or(Eq(c.N(0), c.n), Eq(c.m, 0), Eq(c.n, 0), c.m > c.n)
        c.ensure('the first place where the pattern occurs, npos if there is none', Eq(c.u(rv), Ite(none, npos, c.N(0))))
    return e
# ---- conditions
CM = {k: '_ZNK5strtk16string_condition%d%sEPKhS2_' % (len(n), n) for k, n in ((k, 'condition_' + k) for k in ('equal', 'notequal', 'like', 'begins_with', 'ends_with', 'within', 'notwithin'))}
def cond_obj(c):
    """a condition on the text c.pr: members at their offsets in the IR type"""
    p, c.pr, c.m = c.string('cond', const=True)
    o = c.obj('this', 72, {8: (8, Ptr(c.pr, 0)), 40: (8, Ptr(c.pr, 0)), 48: (8, Ptr(c.pr, c.m))})
    c.n = c.size('n'); t = c.buf('t', c.n, const=True); c.tr = 't'
    c.P, c.T = c.mem(c.pr).read, c.mem(c.tr).read
    return [o, t, Ptr('t', c.n)]
def s_cond(k):
    def f(c):
        a = cond_obj(c); c.ic = False
        if k in ('within', 'notwithin'): next_of(c); w = And(c.m <= c.n, Not(Eq(c.N(0), c.n))); c.want = w if k == 'within' else Not(w); return a
        what = {'equal': 'eq', 'notequal': 'eq', 'begins_with': 'beg', 'ends_with': 'end'}[k]
        diff(c, S(c.n - c.m) if what == 'end' else 0, S(Ite(c.m <= c.n, c.m, c.n)) if what == 'eq' else c.m, False)
        w = And(c.m == c.n if what == 'eq' else c.m <= c.n, Eq(c.D, c.m))
        c.want = Not(w) if k == 'notequal' else w
        return a
    return f
def s_like(c):
    c.es = 1; a = cond_obj(c); c.z, c.o = 42, 63; C13.language(c); return a
def rec(k, want):
    def h(x, st, ins, a):
        c = x.contract.c
        x.modify(st, ('ghost', 'asked')); st.ghost['asked'] = S(st.ghost['asked'] + 1)
        x.oblige('post', k == want, 'the condition that was asked for is evaluated')
        s, b, e = [x.load_bits(st, Ptr(a[0].r, a[0].o + o), 8) for o in (8, 40, 48)]
        rs = st.mem[s.r]; j = x.dom.fresh_term('j')
        x.oblige('post', And(rs.alive, Eq(rs.size, c.m + 1), Implies(And(j >= 0, j < c.m), Eq(rs.mem.read(j), c.P(j)))), 'the condition holds the text it was given')
        x.oblige('post', And(b.r == s.r, Eq(b.o, 0), e.r == s.r, Eq(e.o, c.m)), 'its range is its own text')
        x.oblige('post', And(a[1].r == c.tr, Eq(a[1].o, 0), a[2].r == c.tr, Eq(a[2].o, c.n)), 'the text given is examined')
        return z3.Bool('answer')
    return h
def s_sc(kind):
    def f(c):
        p, c.pr, c.m = c.string('cond', const=True); c.P = c.mem(c.pr).read; c.st.ghost['asked'] = 0
        if kind == '': c.n = c.size('n'); t = c.buf('t', c.n, const=True); c.tr = 't'; return [p, t, Ptr('t', c.n)]
        q, c.tr, c.n = c.string('t', const=True); return [p, q] + ([c.obj('m', 72)] if kind in 'ca' else [])
    return f
def e_sc(c, st, rv):
    c.ensure('its answer is returned', Eq(rv, z3.Bool('answer'))); c.ensure('evaluated once', Eq(st.ghost['asked'], 1))
NM = {'c': 'char*', 's': 'std::string', 'u': 'unsigned char*', 'r': 'range'}
CONTRACTS = [Contract('w_im' + k, setup(k, 'eq', True), ens, tmpl, api='imatch(%s)' % NM[k]) for k in 'crs']
CONTRACTS += [Contract('w_imch', s_ch, lambda c, st, rv: c.ensure('equal up to case', Eq(rv, Eq(up(c.u(c.a)), up(c.u(c.b))))), api='imatch_char')]
for k in 'cs':
    CONTRACTS += [Contract('w_%s%s' % (f, k), setup(k, w, ic), ens, tmpl, api='%s(%s)' % (n, NM[k])) for f, w, ic, n in (('bw', 'beg', 0, 'begins_with'), ('ibw', 'beg', 1, 'ibegins_with'), ('ew', 'end', 0, 'ends_with'), ('iew', 'end', 1, 'iends_with'))]
CONTRACTS += [Contract('w_bwu', setup('u', 'beg', 0), ens, tmpl, api='begins_with(unsigned char*)'), Contract('w_ewu', setup('u', 'end', 0), ens, tmpl, api='ends_with(unsigned char*)')]
for k in 'cs':
    for ic in (0, 1):
        for q in ('', 'q'):
            if ic and k == 'c' and q: continue
            CONTRACTS.append(Contract('w_%sfa%s%s' % ('i' * ic, k, q), s_find(k, bool(ic)), e_find, t_find, hooks=dict(HS, hook_emit=emit), api='%sfind_all(%s%s)' % ('i' * ic, NM[k], ',sequence' if q else '')))
CONTRACTS += [Contract('w_ifind', s_first(True), e_first(True), hooks=HS, api='ifind'), Contract('w_idx', s_first(False), e_first(False), hooks=HS, api='index_of')]
for k in CM:
    CONTRACTS.append(Contract(CM[k], s_like, C13.ens, C13.tmpl, api='string_condition like') if k == 'like' else Contract(CM[k], s_cond(k), ens, tmpl, hooks=HS, api='string_condition ' + k))
    for kind in ('', 's', 'c', 'a'): CONTRACTS.append(Contract('w_sc%s_%s' % (kind, k), s_sc(kind), e_sc, hooks={CM[q]: rec(q, k) for q in CM}, api='string_condition(%s)%s' % (k, {'': '', 's': ' on a string', 'c': ' copied', 'a': ' assigned'}[kind])))
ASSUMPTIONS = ['std::search returns the first occurrence (assumed contract)', 'toupper as in the C locale', 'memcmp, std::string members (assumed contracts)']
