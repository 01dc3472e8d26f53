"""C11 Bloom filter: no false negatives; every bit operation stays inside the table."""
from contract import *
HASH = '_ZNK5strtk5bloom6filter7hash_apEPKhmj'
CI = '_ZNK5strtk5bloom6filter15compute_indicesERKjRmS4_'
INS = '_ZN5strtk5bloom6filter6insertEPKhRKm'
NOINLINE = [INS, HASH, CI, r'_ZNK5strtk5bloom6filter8containsEPKhm$', r'_ZNK5strtk5bloom19compressible_filter15compute_indices']
BV = {'domain': 'bv'}
B = lambda n, w=64: z3.BitVecVal(n, w)
def at(c, m):
    fn = c.x.mod.fns['w_at_' + m]
    return next(i.d['v'][2] for b in fn.order for i in fn.blocks[b] if i.op == 'ret')
def sz(c, nm): return next(i.d['v'][2] for b in c.x.mod.fns[nm].order for i in c.x.mod.fns[nm].blocks[b] if i.op == 'ret')
def POS(c): return c.x.ufun('POS', 2, z3.BitVecSort(64), [z3.BitVecSort(32), z3.BitVecSort(64)])
def H(c): return c.x.ufun('HASH', 3, z3.BitVecSort(32), [z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(32)])
def bit(mem, p): return (mem.read(S(z3.LShR(p, 3))) & (B(1, 8) << z3.Extract(7, 0, p & 7))) != 0
def mkfilter(c, nm, comp=False, like=None):
    """an arbitrary filter whose table has room for the bits of its table size (every constructed filter is one: w_make)"""
    if like: raw, T, m = like['raw'], like['T'], like['m']
    else:
        raw = c.size('raw_' + nm); T = c.size('T_' + nm); m = c.size('m_' + nm, 1 << 32)
        c.assume(And(T <= raw * 8, raw * 8 < T + 8))
    salt = c.buf('salt_' + nm, m, 4); tab = c.buf('tab_' + nm, raw)
    v = {k: c.int(nm + '_' + k, w) for k, w in (('salt_count_', 32), ('projected_element_count_', 64), ('inserted_element_count_', 32), ('random_seed_', 64), ('desired_false_positive_probability_', 64))}
    F = dict(raw=raw, T=T, m=m, salt=c.mem(salt.r), tab=tab.r, was=c.mem(tab.r), v=v, saltr=salt.r, comp=comp)
    o = lambda k: at(c, k)
    T0 = c.size('T0_' + nm) if comp else T
    cells = {0: (8, Ptr(c.x.glob_region(c.st, '_ZTVN5strtk5bloom%sE' % ('19compressible_filter' if comp else '6filter')), 16)),
             o('salt_'): (8, Ptr(salt.r, 0)), o('salt_') + 8: (8, Ptr(salt.r, S(m * 4))), o('salt_') + 16: (8, Ptr(salt.r, S(m * 4))),
             o('bit_table_'): (8, tab), o('table_size_'): (8, c.iv(64, T0)), o('raw_table_size_'): (8, c.iv(64, raw))}
    F['table_size_'] = T0
    if comp:
        k = F['k'] = c.size('k_' + nm, 1 << 30, 1); sl = c.buf('sizes_' + nm, k, 8); o2 = sz(c, 'w_at_size_list')
        F['sizes'] = c.mem(sl.r); F['sizesr'] = sl.r
        cells.update({o2: (8, sl), o2 + 8: (8, Ptr(sl.r, S(k * 8))), o2 + 16: (8, Ptr(sl.r, S(k * 8)))})
        c.assume(Eq(F['sizes'].read(S(k - 1)), T))
        c.axiom(F['sizes'].f, lambda j: And(F['sizes'].f(j) > 0, F['sizes'].f(j) <= 1 << 40), fuel=9)
    for k in v: cells[o(k)] = (v[k].w // 8, v[k])
    F['p'] = c.obj(nm, sz(c, 'w_sizeof_comp' if comp else 'w_sizeof_filter'), cells)
    c.st.mem[F['p'].r].cells.update(cells)
    return F
def field(c, st, f, k): return c.x.load_bits(st, Ptr(f['p'].r, at(c, k)), {'salt_count_': 4, 'inserted_element_count_': 4}.get(k, 8))
def key(c):
    c.n = c.size('n'); k = c.buf('key', c.n, const=True); c.k0 = 0
    return k
def Pj(c, f, j): return POS(c)(H(c)(B(0), c.n, f['salt'].read(j)), f['T'])
def hook_hash(x, st, ins, a):
    c = x.contract.c
    x.oblige('callee-pre', a[1].r == 'key', 'the hash reads the key given by the caller')
    o = a[1].o; T = x.dom.T
    x.oblige('callee-pre', S(And(0 <= o, o + T(a[2]) <= c.n)), 'the hash is asked for bytes of the key only')
    return IV(32, H(c)(B(o) if isint(o) else o, T(a[2]), T(a[3])))
def hook_ci(x, st, ins, a):
    c = x.contract.c
    h = x.load_bits(st, a[1], 4)
    if c.f['comp']:
        T = c.f['T']; x.oblige('callee-pre', a[0].r == c.f['p'].r, 'the sizes are those of this filter')
    else: T = x.dom.T(x.load_bits(st, Ptr(a[0].r, at(c, 'table_size_')), 8))
    x.oblige('callee-pre', T != 0, 'table_size_ is not zero')
    p = POS(c)(x.dom.T(h), T)
    x.assume(z3.ULT(p, T))
    x.store_bits(st, a[2], 8, IV(64, p)); x.store_bits(st, a[3], 8, IV(64, p & 7))
CI2 = CI.replace('6filter', '19compressible_filter')
HOOKS = {HASH: hook_hash, CI: hook_ci, CI2: hook_ci}
def unchanged(c, st, f, but=()):
    for k, w in [('table_size_', f['table_size_']), ('raw_table_size_', f['raw'])] + [(k, c.u(v)) for k, v in f['v'].items()]:
        if k not in but: c.ensure('%s is kept' % k, c.u(field(c, st, f, k)) == w)
    t = field(c, st, f, 'bit_table_')
    c.ensure('the table is the same storage', isinstance(t, Ptr) and t.r == f['tab'] and t.o == 0)
    c.ensure('the table keeps its size', S(st.mem[f['tab']].size == f['raw']))
    j = c.dom.fresh_term('j')
    c.ensure('the hash seeds are kept', Implies(And(0 <= j, j < f['m']), c.mem(f['saltr'], st).read(j) == f['salt'].read(j)))
def s_insert(c, comp=False):
    f = c.f = mkfilter(c, 'f', comp); k = key(c)
    c.assume(Or(f['T'] > 0, f['m'] == 0))
    c.j0 = c.dom.fresh_term('j0'); c.assume(And(0 <= c.j0, c.j0 < f['m']))
    c.q = c.dom.fresh_term('q'); c.assume(z3.ULT(c.q, f['T']))
    nb = c.obj('len', 8, {0: (8, IV(64, c.n))})
    return [f['p'], k, nb]
def e_insert(c, st, rv):
    f = c.f; new = c.mem(f['tab'], st)
    c.ensure('every bit position of the key is set', bit(new, Pj(c, f, c.j0)))
    c.ensure('no bit is ever cleared', Implies(bit(f['was'], c.q), bit(new, c.q)))
    c.ensure('one more element', c.u(field(c, st, f, 'inserted_element_count_')) == c.u(f['v']['inserted_element_count_']) + 1)
    unchanged(c, st, f, ('inserted_element_count_',))
def t_insert(c, st0, st, b, b0):
    f = c.f; tb = f['tab']; L = []
    new = lambda b: c.mem(tb, b.st)
    L.append(Cand('no bit is ever cleared', lambda b: Implies(bit(f['was'], c.q), bit(new(b), c.q))))
    for k, v in b.vals.items():
        if isinstance(v, IV) and v.w == 64: L.append(Cand('bits below %s' % k, lambda b, k=k: Implies(z3.ULT(c.j0, c.dom.T(b[k])), bit(new(b), Pj(c, f, c.j0)))))
    return L
def s_contains(all, comp=False):
    def f(c):
        F = c.f = mkfilter(c, 'f', comp); k = key(c)
        c.assume(Or(F['T'] > 0, F['m'] == 0))
        c.j0 = c.dom.fresh_term('j0'); c.assume(And(0 <= c.j0, c.j0 < F['m']))
        if all: c.axiom(F['salt'].f, lambda j: Implies(And(0 <= j, j < F['m']), bit(F['was'], Pj(c, F, j))), fuel=2)
        return [F['p'], k, IV(64, c.n)]
    return f
def t_contains(c, st0, st, b, b0):
    f = c.f; L = []
    for k, v in b.vals.items():
        if isinstance(v, IV) and v.w == 64: L.append(Cand('bits below %s' % k, lambda b, k=k: Implies(z3.ULT(c.j0, c.dom.T(b[k])), bit(f['was'], Pj(c, f, c.j0)))))
    return L
def e_all(c, st, rv): c.ensure('reported as contained', rv); unchanged(c, st, c.f)
def e_one(c, st, rv): c.ensure('contained only when every position is set', Implies(rv, bit(c.f['was'], Pj(c, c.f, c.j0)))); unchanged(c, st, c.f)
def s_clear(c):
    c.f = mkfilter(c, 'f'); c.q = c.dom.fresh_term('q'); c.assume(z3.ULT(c.q, c.f['T'])); return [c.f['p']]
def e_clear(c, st, rv):
    f = c.f
    c.ensure('every bit is cleared', Not(bit(c.mem(f['tab'], st), c.q)))
    c.ensure('no elements', c.u(field(c, st, f, 'inserted_element_count_')) == 0)
    unchanged(c, st, f, ('inserted_element_count_',))
def s_op(like):
    def f(c):
        c.f = mkfilter(c, 'f'); c.g = mkfilter(c, 'g', like=c.f if like else None)
        same = And(*[c.u(c.f['v'][k]) == c.u(c.g['v'][k]) for k in ('salt_count_', 'random_seed_')])
        if like: c.assume(same)
        else: c.assume(Not(And(same, c.f['T'] == c.g['T'])))
        return [c.f['p'], c.g['p']]
    return f
def opexpr(c, op): return lambda j, b=None: {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[op](c.f['was'].read(j), c.g['was'].read(j))
def t_op(op):
    def t(c, st0, st, b, b0):
        tb, raw, L = c.f['tab'], c.f['raw'], []
        for k, v in b.vals.items():
            if isinstance(v, IV) and v.w == 64:
                L.append(Cand('combined below %s' % k, forall=(tb, lambda j, b, k=k: And(j >= 0, j < c.u(b[k]), j < raw), opexpr(c, op))))
                L.append(Cand('untouched from %s' % k, forall=(tb, lambda j, b, k=k: And(j >= c.u(b[k]), j < raw), lambda j, b: c.f['was'].read(j))))
        return L
    return t
def e_op(op):
    def e(c, st, rv):
        c.ensure_mem('each bit is combined (%s)' % op, st, c.f['tab'], lambda j: And(j >= 0, j < c.f['raw']), opexpr(c, op))
        c.ensure_mem('the operand is not written', st, c.g['tab'], lambda j: And(j >= 0, j < c.g['raw']), lambda j: c.g['was'].read(j))
        unchanged(c, st, c.f)
    return e
def e_noop(c, st, rv):
    c.ensure_mem('filters of other parameters are left alone', st, c.f['tab'], lambda j: And(j >= 0, j < c.f['raw']), lambda j: c.f['was'].read(j))
    unchanged(c, st, c.f)
def s_hash(c):
    c.n = c.size('n'); k = c.buf('key', c.n, const=True)
    return [c.obj('this', 0), k, c.iv(64, c.n), c.int('seed', 32)]
def s_ci(c):
    c.h = c.int('h', 32); c.T = c.size('T', lo=1)
    c.o = [c.obj('bi', 8), c.obj('b', 8)]
    return [c.obj('this', sz(c, 'w_sizeof_filter'), {at(c, 'table_size_'): (8, c.iv(64, c.T))}), c.obj('hash', 4, {0: (4, c.h)})] + c.o
def e_ci(c, st, rv):
    i, b = [c.u(c.x.load_bits(st, o, 8)) for o in c.o]
    c.ensure('the bit lies in the table', And(i >= 0, i < c.T)); c.ensure('bit number inside its byte', Eq(b, c.mod(i, 8)))
# ---- construction and copies
def blank(c, nm='m', comp=False): return c.obj(nm, sz(c, 'w_sizeof_comp' if comp else 'w_sizeof_filter'))
def s_make(c):
    c.T = c.size('T'); c.cnt = c.size('hashes', 128); o = lambda n: sz(c, 'w_par_' + n)
    c.seed, c.count, c.fpp = [c.int(n, 64) for n in ('seed', 'count', 'fpp')]
    c.p = c.obj('par', sz(c, 'w_sizeof_par'), {o('hashes'): (4, c.iv(32, c.cnt, 0, 128)), o('table'): (8, c.iv(64, c.T)), o('seed'): (8, c.seed), o('count'): (8, c.count), o('fpp'): (8, c.fpp)})
    c.m = blank(c); return [c.m, c.p]
def fld(c, st, p, k): return c.x.load_bits(st, Ptr(p.r, S(p.o + at(c, k))), {'salt_count_': 4, 'inserted_element_count_': 4}.get(k, 8))
def e_make(c, st, rv):
    raw = c.div(c.T + 7, 8)
    c.ensure('table_size_ is the requested size', Eq(c.u(fld(c, st, c.m, 'table_size_')), c.T))
    c.ensure('raw_table_size_ has room for every bit', Eq(c.u(fld(c, st, c.m, 'raw_table_size_')), raw))
    t = fld(c, st, c.m, 'bit_table_')
    c.ensure('the table has raw_table_size_ bytes', And(t.o == 0, Eq(st.mem[t.r].size, raw)))
    c.ensure_mem('the table is empty', st, t.r, lambda j: And(j >= 0, j < raw), lambda j: 0)
    c.ensure('no elements', Eq(c.u(fld(c, st, c.m, 'inserted_element_count_')), 0))
    b = fld(c, st, c.m, 'salt_'); e = c.x.load_bits(st, Ptr(c.m.r, at(c, 'salt_') + 8), 8)
    c.ensure('one seed per hash function', And(b.r == e.r, Eq(S(e.o - b.o), S(4 * c.cnt)), Eq(c.u(fld(c, st, c.m, 'salt_count_')), c.cnt)))
def s_copy(assign):
    def f(c):
        c.g = mkfilter(c, 'g'); c.f = mkfilter(c, 'f') if assign else None
        c.m = c.f['p'] if assign else blank(c)
        return [c.m, c.g['p']]
    return f
def e_copy(c, st, rv):
    g = c.g
    for k in ('table_size_', 'raw_table_size_') + tuple(g['v']): c.ensure('%s is copied' % k, Eq(c.u(fld(c, st, c.m, k)), c.u(fld(c, st, g['p'], k))))
    t = fld(c, st, c.m, 'bit_table_')
    c.ensure('the copy has a table of its own', t.r != g['tab'] and t.o == 0)
    c.ensure('table size', Eq(st.mem[t.r].size, g['raw']))
    c.ensure_mem('table contents', st, t.r, lambda j: And(j >= 0, j < g['raw']), lambda j: g['was'].read(j))
    b = fld(c, st, c.m, 'salt_'); e = c.x.load_bits(st, Ptr(c.m.r, at(c, 'salt_') + 8), 8)
    c.ensure('hash seeds', And(b.o == 0, b.r != g['saltr'], Eq(e.o, S(4 * g['m']))))
    c.ensure_mem('hash seeds', st, b.r, lambda j: And(j >= 0, j < g['m']), lambda j: g['salt'].read(j))
    unchanged(c, st, g)
    if c.f: c.ensure('the old table is released', Not(st.mem[c.f['tab']].alive))
CON = '_ZNK5strtk5bloom6filter8containsEPKhm'
CONTRACTS = [Contract(INS, s_insert, e_insert, t_insert, hooks=HOOKS, opts=dict(BV,cand_timeout=15000), api='bloom::filter::insert(key,length)'),
             Contract(CON, s_contains(True), e_all, t_contains, hooks=HOOKS, opts=BV, api='bloom::filter::contains(key,length), all bits set'),
             Contract(CON, s_contains(False), e_one, t_contains, hooks=HOOKS, opts=BV, api='bloom::filter::contains(key,length)'),
             Contract('w_clear', s_clear, e_clear, opts=BV, api='bloom::filter::clear'),
             Contract('w_make', s_make, e_make, api='bloom::filter::filter(parameters)'),
             Contract('w_copy', s_copy(False), e_copy, api='bloom::filter copy constructor'), Contract('w_assign', s_copy(True), e_copy, api='bloom::filter::operator='),
             Contract(HASH, s_hash, lambda c, st, rv: None, api='bloom::filter::hash_ap (reads the key only, so equal keys have equal hashes)'),
             Contract(CI, s_ci, e_ci, api='bloom::filter::compute_indices')]
CONTRACTS += [Contract('w_' + o, s_op(True), e_op(o), t_op(o), opts=BV, api='bloom::filter::operator%s= (same parameters)' % s) for o, s in (('and', '&'), ('or', '|'), ('xor', '^'))]
CONTRACTS += [Contract('w_' + o, s_op(False), e_noop, t_op(o), opts=BV, api='bloom::filter::operator%s= (other parameters)' % s) for o, s in (('and', '&'), ('or', '|'), ('xor', '^'))]

# ---- compressible filters: the position is reduced by every size in turn; compressing folds the table onto its first part
def chain(c, F, h):
    um = c.x.ufun('urem', 2); CH = c.x.ufun('CH', 1)
    c.axiom(CH, lambda i: And(Implies(Eq(i, 0), Eq(CH(i), h)), Implies(And(i >= 0, i < F['k']), Eq(CH(S(i + 1)), um(CH(i), F['sizes'].read(i))))), fuel=3)
    c.assume(Eq(CH(z3.IntVal(0)), h))
    return CH
def s_ci2(c):
    F = c.f = mkfilter(c, 'f', True); c.h = c.int('h', 32); c.CH = chain(c, F, c.u(c.h))
    c.o = [c.obj('bi', 8), c.obj('b', 8)]
    return [F['p'], c.obj('hash', 4, {0: (4, c.h)})] + c.o
def e_ci2(c, st, rv):
    i, b = [c.u(c.x.load_bits(st, o, 8)) for o in c.o]
    c.ensure('the position is reduced by every size in turn', Eq(i, c.CH(c.f['k'])))
    c.ensure('the bit lies in the table', And(i >= 0, i < c.f['T'])); c.ensure('bit number inside its byte', Eq(b, c.mod(i, 8)))
def t_ci2(c, st0, st, b, b0):
    L = []; o = c.o[0]
    val = lambda b: c.u(c.x.load_bits(b.st, o, 8))
    for k, v in b.vals.items():
        if isinstance(v, IV) and v.w == 64:
            L.append(Cand('reduced by the sizes below %s' % k, lambda b, k=k: Eq(val(b), c.CH(c.u(b[k])))))
            L.append(Cand('%s within the list' % k, lambda b, k=k: c.u(b[k]) <= c.f['k']))
            L.append(Cand('in range below %s' % k, lambda b, k=k: Implies(c.u(b[k]) > 0, val(b) < c.f['sizes'].read(S(c.u(b[k]) - 1)))))
    return L
def s_compress(c):
    F = c.f = mkfilter(c, 'f', True)
    c.BIT = c.x.ufun('BIT', 1, z3.BoolSort()); orf = c.x.ufun('bitor8', 2)
    c.axiom(orf, lambda p, q: Eq(c.BIT(orf(p, q)), Or(c.BIT(p), c.BIT(q))))          # any one bit of the byte
    c.W = c.x.ufun('W', 1); c.e0 = c.dom.fresh_term('e0'); c.assume(And(c.e0 >= 0, c.e0 < F['raw']))
    c.nb = None
    return [F['p'], c.obj('percentage', 8, {0: (8, c.int('pc', 64))})]
def fpcast(x, st, o, a, t, t2):
    c = x.contract.c
    if t2[0] == 'f': return Opaque(('fpcast', o, a))
    v = x.dom.fresh(t2[1], 'fpto')
    return v
def fcmp(x, st, ins): return z3.Bool(x.fresh('fcmp'))
def hook_new(x, st, ins, a):
    """the new table: n bytes; its size fixes what the fold has to be"""
    p = models.lookup('_Znam')(x, st, ins, a); c = x.contract.c
    nb = st.mem[p.r].size; W = c.W; c.nb, c.tmp = nb, p.r
    c.axiom(W, lambda e: Implies(And(nb > 0, e >= 0), And(W(e) >= 0, W(e) < nb, Implies(e < nb, Eq(W(e), e)), Implies(Eq(e, nb), Eq(W(e), 0)), Eq(W(S(e + 1)), Ite(Eq(W(e) + 1, nb), 0, W(e) + 1)))), fuel=2)
    return p
def t_compress(c, st0, st, b, b0):
    L = []; F = c.f
    if c.nb is None: return L
    src = [k for k, v in b.vals.items() if isinstance(v, Ptr) and v.r == F['tab']]; dst = [k for k, v in b.vals.items() if isinstance(v, Ptr) and v.r == c.tmp]
    kept = lambda b: c.BIT(c.mem(c.tmp, b.st).read(c.W(c.e0)))
    for k in src:
        L.append(Cand('folded below %s' % k, lambda b, k=k: Implies(And(c.e0 < b[k].o, c.BIT(F['was'].read(c.e0))), kept(b))))
        for d in dst: L.append(Cand('%s at %s modulo the new size' % (d, k), lambda b, k=k, d=d: Eq(b[d].o, c.W(b[k].o))))
    return L
def e_compress(c, st, rv):
    F = c.f; rv = zb(rv)
    o2 = sz(c, 'w_at_size_list'); b = c.x.load_bits(st, Ptr(F['p'].r, o2), 8); e = c.x.load_bits(st, Ptr(F['p'].r, o2 + 8), 8)
    sl = c.mem(b.r, st); t = fld(c, st, F['p'], 'bit_table_'); raw = c.u(fld(c, st, F['p'], 'raw_table_size_')); n = sl.read(F['k'])
    j = c.dom.fresh_term('j')
    c.ensure('the earlier sizes are kept', Implies(And(j >= 0, j < F['k']), Eq(sl.read(j), F['sizes'].read(j))))
    c.ensure('one size is added exactly when it returns true', And(Eq(b.o, 0), Eq(e.o, S(8 * F['k'] + Ite(rv, 8, 0)))))
    c.ensure('a refused compression changes nothing', Implies(Not(rv), And(t.r == F['tab'], Eq(raw, F['raw']))))
    c.ensure('table in place', And(t.o == 0, st.mem[t.r].alive, Eq(st.mem[t.r].size, raw)))
    c.ensure('the new size is smaller, not empty and a whole number of bytes', Implies(rv, And(n >= 8, n < F['T'], Eq(8 * raw, n))))
    c.ensure('no element is added or lost', Eq(c.u(fld(c, st, F['p'], 'inserted_element_count_')), c.u(F['v']['inserted_element_count_'])))
    if t.r != F['tab']: c.ensure('every set bit is set again at its place modulo the new size', Implies(And(rv, c.BIT(F['was'].read(c.e0))), c.BIT(c.mem(t.r, st).read(c.W(c.e0)))))
def fold_lemma(c):
    """W (the cursor that restarts at nb) is the remainder: position p of the old table lands at p mod the new size"""
    nb, e, w, a, q, r = [z3.Int(n) for n in ('nb', 'e', 'w', 'a', 'q', 'r')]
    c.assume(And(nb > 0, e >= 0, a >= 0, e == a * nb + w, w >= 0, w < nb))
    w2 = Ite(w + 1 == nb, 0, w + 1); a2 = Ite(w + 1 == nb, a + 1, a)
    c.ensure('the remainder of e+1 follows from the remainder of e', And(e + 1 == a2 * nb + w2, w2 >= 0, w2 < nb))
    # bit p = 8*e+r: (8e+r) mod (8nb) = 8*(e mod nb)+r
    c.assume(And(r >= 0, r < 8))
    c.ensure('bits keep their place inside the byte', And(8 * e + r == a * (8 * nb) + (8 * w + r), 8 * w + r >= 0, 8 * w + r < 8 * nb))
SZ2 = '_ZNK5strtk5bloom19compressible_filter4sizeEv'
def s_size(c): c.f = mkfilter(c, 'f', True); return [c.f['p']]
nofp = lambda x, st, ins, a: Opaque('fp')
CONTRACTS += [Contract(CI2, s_ci2, e_ci2, t_ci2, api='bloom::compressible_filter::compute_indices'),
              Contract(INS, lambda c: s_insert(c, True), e_insert, t_insert, hooks=HOOKS, opts=dict(BV, cand_timeout=15000), api='bloom::compressible_filter::insert(key,length)'),
              Contract(CON, s_contains(True, True), e_all, t_contains, hooks=HOOKS, opts=BV, api='bloom::compressible_filter::contains, all bits set'),
              Contract(CON, s_contains(False, True), e_one, t_contains, hooks=HOOKS, opts=BV, api='bloom::compressible_filter::contains'),
              Contract('w_compress', s_compress, e_compress, t_compress, hooks={'_Znam': hook_new, SZ2: lambda x, st, ins, a: x.contract.c.iv(64, x.contract.c.f['T'], 0, 1 << 41), 'pow': nofp, 'exp': nofp}, opts={'bitfun': True}, fpcast=fpcast, fcmp=fcmp, api='bloom::compressible_filter::compress'),
              Contract('w_size', s_size, lambda c, st, rv: c.ensure('the current table size', Eq(c.u(rv), c.f['T'])), api='bloom::compressible_filter::size'),
              Lemma('fold', fold_lemma, api='folding a table is reduction modulo its new size')]

# ---- the other overloads hand exactly the bytes of their argument to insert(key,length) / contains(key,length)
def rec_insert(x, st, ins, a):
    c = x.contract.c; n = x.dom.u(x.load_bits(st, a[2], 8)); g = st.ghost['n']
    x.oblige('callee-pre', a[0].r == c.f['p'].r, 'this filter'); r, o, l = c.arg(g)
    x.oblige('post', And(a[1].r == r, Eq(a[1].o, o), Eq(n, l)), 'the key is exactly the bytes of the argument')
    x.modify(st, ('ghost', 'n')); st.ghost['n'] = S(g + 1)
def rec_contains(x, st, ins, a):
    c = x.contract.c; g = st.ghost['n']; r, o, l = c.arg(g)
    x.oblige('callee-pre', a[0].r == c.f['p'].r, 'this filter')
    x.oblige('post', And(a[1].r == r, Eq(a[1].o, o), Eq(x.dom.u(a[2]), l)), 'the key is exactly the bytes of the argument')
    x.modify(st, ('ghost', 'n')); st.ghost['n'] = S(g + 1)
    return Eq(c.CONT(g if not isint(g) else z3.IntVal(g)), 1)
RH = {INS: rec_insert, CON: rec_contains}
def s_over(kind):
    def f(c):
        c.f = mkfilter(c, 'f'); c.CONT = c.x.ufun('CONT', 1); c.st.ghost['n'] = 0; c.N = 1
        if kind in ('i', 'd'):
            w = 4 if kind == 'i' else 8
            p = c.obj('t', w, {0: (w, c.int('tv', 8 * w))}); c.arg = lambda g: (p.r, 0, w); return [c.f['p'], p]
        if kind == 's':
            p, r, n = c.string('t', const=True); c.arg = lambda g: (r, 0, n); return [c.f['p'], p]
        if kind == 'c':
            n = c.size('n'); p = c.buf('t', n, const=True); c.arg = lambda g: (p.r, 0, n); return [c.f['p'], p, c.obj('len', 8, {0: (8, c.iv(64, n))})]
        c.N = c.size('N'); p = c.buf('t', c.N, 4, const=True); c.arg = lambda g: (p.r, S(4 * g), 4); return [c.f['p'], p, Ptr(p.r, S(4 * c.N))]
    return f
def e_over(con):
    def e(c, st, rv):
        c.ensure('every element is handed over once', Eq(st.ghost['n'], c.N))
        if con: c.ensure('the answer for the key', Eq(rv, Eq(c.CONT(z3.IntVal(0)), 1)))
        else: unchanged(c, st, c.f)
    return e
def e_range(want):
    def e(c, st, rv):
        k = c.div(rv.o, 4); j = c.dom.fresh_term('j')
        c.ensure('the result lies in the range', And(rv.r == 't', rv.o >= 0, k <= c.N, Eq(4 * k, rv.o)))
        c.ensure('every element before it was %s' % ('found' if want else 'not found'), Implies(And(c.q >= 0, c.q < k), Eq(c.CONT(c.q), want)))
        c.ensure('it is the first other element, or the end', Or(Eq(k, c.N), Not(Eq(c.CONT(k), want))))
    return e
def s_range(want):
    def f(c):
        L = s_over('r')(c); c.q = c.dom.fresh_term('q')
        c.axiom(c.CONT, lambda g: Or(Eq(c.CONT(g), 0), Eq(c.CONT(g), 1))); return L
    return f
def t_range(want):
    def t(c, st0, st, b, b0):
        L = [Cand('answers so far', lambda b: Implies(And(c.q >= 0, c.q < b.st.ghost['n']), Eq(c.CONT(c.q), want)))]
        for k, v in b.vals.items():
            if isinstance(v, Ptr) and v.r == 't': L.append(Cand('%s is the element asked next' % k, lambda b, k=k: Eq(b[k].o, S(4 * b.st.ghost['n']))))
        return L
    return t
t_cnt = lambda c, st0, st, b, b0: [Cand('%s is the element handed over next' % k, lambda b, k=k: Eq(b[k].o, S(4 * b.st.ghost['n']))) for k, v in b.vals.items() if isinstance(v, Ptr) and v.r == 't']
for k, nm in (('i', 'int'), ('d', 'double'), ('s', 'std::string'), ('c', 'char*,length')):
    CONTRACTS += [Contract('w_ins' + k, s_over(k), e_over(False), hooks=RH, api='bloom::filter::insert(%s)' % nm), Contract('w_con' + k, s_over(k), e_over(True), hooks=RH, api='bloom::filter::contains(%s)' % nm)]
CONTRACTS += [Contract('w_insr', s_over('r'), e_over(False), t_cnt, hooks=RH, api='bloom::filter::insert(range)'),
              Contract('w_all', s_range(1), e_range(1), t_range(1), hooks=RH, api='bloom::filter::contains_all'), Contract('w_none', s_range(0), e_range(0), t_range(0), hooks=RH, api='bloom::filter::contains_none')]
ASSUMPTIONS = ['hash_ap and compute_indices are called through their contracts (deterministic in key, seed and sizes; proved separately)', 'floating-point values are arbitrary (the conversion of the new size in compress is assumed defined)', 'operator new returns memory', 'at most 128 hash functions in the constructor contract (more are drawn from rand())']
