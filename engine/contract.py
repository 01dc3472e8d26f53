"""Contract language: a Contract describes one harness wrapper (= one strtk API entry point)."""
import z3
from vc import *
import models

class Contract:
    """setup(c) -> list of argument values (requires via c.assume);
       ensures(c, st, rv): postconditions via c.ensure / c.ensure_forall;
       templates: extra invariant candidates."""
    may_throw = False
    terminates = True
    def __init__(self, fn, setup, ensures, templates=None, hooks=None, opts=None, api='', rank=None, affine_hints=None, **kw):
        self.fname, self._setup, self._ensures, self._templates = fn, setup, ensures, templates
        self.hooks = hooks or {}
        self.opts = opts or {}
        self.api = api
        self._ah = affine_hints
        if rank: self.rank = rank
        for k, v in kw.items(): setattr(self, k, v)
    def templates(self, x, st0, st, b, b0, header):
        return self._templates(self.c, st0, st, b, b0) if self._templates else []
    def affine_hints(self, x, b, b0, deltas): return self._ah(self.c, b, b0, deltas) if self._ah else []
    def on_ret(self, x, st, rv):
        if x.mute: return
        x.paths += 1
        if not getattr(x, 'covered', False): x.covered = x.check(5000) == z3.sat
        self.c.st = st
        self._ensures(self.c, st, rv)

class Lemma:
    """pure statement over spec functions (connects the postconditions of several contracts)"""
    may_throw = False
    def __init__(self, name, body, opts=None, api='', **kw):
        self.fname, self.body, self.opts, self.api = name, body, opts or {}, api
        for k, v in kw.items(): setattr(self, k, v)

class _NoFn:
    def __init__(s, name): s.name, s.blocks, s.order, s.params = name, {}, [], []
def merge(o, extra):
    for k, v in (extra or {}).items(): o[k] = max(v, o[k]) if k in ('timeout', 'cand_timeout') and k in o else v
def prove_lemma(con, verbose, extra):
    import time
    t0 = time.time()
    res = {'fn': con.fname, 'api': con.api, 'obls': [], 'error': None}
    o = dict(con.opts); o['verbose'] = verbose; merge(o, extra)
    x = Exec(None, _NoFn(con.fname), con, o)
    x.loc = 'lemma'
    try:
        x.push()
        st = State(); c = Ctx(x, st)
        con.body(c)
        r = x.check(20000)
        x.obls.append(Obl(con.fname, 'cover', 'hypotheses satisfiable', r != z3.unsat, None, 'lemma', 'z3-5.3.2', 0))
    except Budget as e: res['error'] = 'budget: %s' % e
    res['obls'] = [dict(kind='lemma' if o.kind == 'post' else o.kind, desc=o.desc, ok=o.ok, loc=o.loc, backend=o.backend, model=o.model) for o in x.obls]
    res.update(checks=x.ncheck, solver_s=round(x.tcheck, 3), paths=1, wall=round(time.time() - t0, 3), models=[])
    return res

class Ctx:
    """handle given to contract code"""
    def __init__(self, x, st):
        self.x, self.st, self.dom = x, st, x.dom
        self.bv = x.dom.name == 'bv'
        self.v = {}
    def assume(self, f): self.x.assume(f)
    def axiom(self, decl, fn, fuel=None): self.x.axiom(decl, fn, fuel)
    def size(self, nm, hi=1 << 40, lo=0):
        """symbolic length"""
        t = self.dom.fresh_term(nm)
        self.assume(z3.And(t >= lo, t <= hi))
        return t
    def iv(self, w, t, lo=0, hi=None):
        if self.bv: return IV(w, t)
        return IV(w, t, lo, (1 << w) - 1 if hi is None else hi)
    def int(self, nm, w, signed=False):
        return self.dom.fresh(w, nm, signed) if w > 1 else z3.Bool(nm)
    def bytes_int(self, nm, size):
        """arbitrary integer of size bytes, given by its bytes (least significant first) -> (value, bytes)"""
        bs = [self.u(self.int('%s%d' % (nm, i), 8)) for i in range(size)]
        for b in bs: self.dom.reg(b, 0, 255)
        return self.dom.bytes_join(bs), bs
    def buf(self, nm, n, es=1, const=False):
        """array of n elements of es bytes"""
        r = self.x.new_region(self.st, nm, 'array', n * es, es, const=const)
        self.v[nm] = r
        return Ptr(r, 0)
    def obj(self, nm, size, cells=None):
        r = self.x.new_region(self.st, nm, 'cells', size)
        if cells: self.st.mem[r].cells.update(cells)
        self.v[nm] = r
        return Ptr(r, 0)
    def string(self, nm, n=None, const=False):
        n = self.size('len_' + nm) if n is None else n
        r = self.x.new_region(self.st, nm, 'array', S(n + 1), 1, const=const)
        rs = self.st.mem[r]
        m = rs.mem
        self.st.mem[r] = rs.upd(mem=MStore(m, n, models.zero8(self.x)))
        self.v[nm] = r
        p = self.obj('obj_' + nm, 32, {0: (8, Ptr(r, 0))})
        return p, r, n
    def vector(self, nm, n, es):
        r = self.x.new_region(self.st, nm, 'array', n * es, es)
        self.v[nm] = r
        p = self.obj('obj_' + nm, 24, {0: (8, Ptr(r, 0)), 8: (8, Ptr(r, n * es)), 16: (8, Ptr(r, n * es))})
        return p, r
    def cstr(self, nm):
        """NUL-terminated text: n characters, none of them NUL, then NUL"""
        n = self.size('len_' + nm)
        r = self.x.new_region(self.st, nm, 'array', S(n + 1), 1, const=True)
        base = self.st.mem[r].mem
        self.axiom(base.f, lambda k: And(Implies(And(k >= 0, k < n), Not(Eq(base.f(k), 0))), Implies(Eq(k, n), Eq(base.f(k), 0))), fuel=9)
        self.x.cstrs[r] = n
        self.v[nm] = r
        return Ptr(r, 0), n, base
    def mem(self, r, st=None):
        return (st or self.st).mem[r].mem
    def strbuf(self, st, p):
        r = models.sbuf(self.x, st, p)
        return r, S(st.mem[r].size - 1)
    def defun(self, nm, ar, axiom=None, fuel=None, rng=None, args=None):
        f = self.x.ufun(nm, ar, rng, args)
        if axiom: self.x.axiom(f, axiom, fuel)
        return f
    def spec(self, nm, fn, lo=None, hi=None, dom=None, ctrange=None, opaque=True, facts=None):
        """total spec function of one integer, defined by fn; optional range.
        ctrange=(a,b): a constant table of the code that agrees with fn on every index of dom in [a,b) is
        identified with it (checked entry by entry), and fn is then kept opaque in the queries.
        facts(f,k): consequences of the definition for k in ctrange, checked for every k, then assumed at each use"""
        f = self.x.ufun(nm, 1)
        matched = False
        if ctrange:
            st = State()
            for g in list(self.x.mod.globals if self.x.mod else []):
                try: r = self.x.glob_region(st, g)
                except Unsupported: continue
                rs = st.mem[r]
                if rs.kind != 'array' or not isinstance(rs.mem, MConst): continue
                v = rs.mem.v
                if len(v) < ctrange[1]: continue
                ok = True
                for k in range(*ctrange):
                    if dom is not None and not S(dom(k)): continue
                    if S(fn(k)) != v[k]: ok = False; break
                if ok:
                    matched = True
                    D = (lambda k: And(k >= ctrange[0], k < ctrange[1], True if dom is None else dom(k)))
                    self.x.tabspecs.setdefault(r, []).append((f, D))
                    if dom is None and ctrange[0] <= 0 and ctrange[1] >= len(v) - 64: self.x.tabfull[r] = range(ctrange[1], len(v))
        if facts:
            bad = [k for k in range(*ctrange) if S(facts(fn, k)) is not True]
            self.x.oblige('lemma', not bad, 'derived facts of %s hold for every argument in [%d,%d)' % (nm, *ctrange))
            self.x.axiom(f, lambda k: Implies(And(k >= ctrange[0], k < ctrange[1]), facts(f, k)), fuel=9)
        self.x.axiom(f, lambda k: And(*([Eq(f(k), fn(k))] if not (matched and opaque) else []), *([f(k) >= lo, f(k) <= hi] if lo is not None else [])), fuel=9)
        def app(k):
            t = f(k if not isint(k) else z3.IntVal(k))
            if lo is not None and not self.bv: self.dom.reg(t, lo, hi)
            return t
        return app
    def div(self, a, m): return S(self.dom.tdiv(S(a), m))
    def mod(self, a, m): return S(self.dom.tmod(S(a), m))
    def ensure(self, desc, goal):
        goal = S(goal) if not isinstance(goal, bool) else goal
        self.x.oblige('post', goal, desc)
    def ensure_forall(self, desc, goal):
        """goal: function of a fresh index"""
        j = self.dom.fresh_term('j')
        self.x.oblige('post', S(goal(j)) if True else None, desc)
    def ensure_mem(self, desc, st, r, cond, expr):
        """postcondition: every element j of region r with cond(j) equals expr(j)"""
        j = self.dom.fresh_term('j')
        for g in self.x.mem_goals(st.mem[r].mem, j, cond, expr): self.x.oblige('post', S(g) if not isinstance(g, bool) else g, desc)
    def cover(self, desc, f):
        pass
    # signed/unsigned numeric views
    def u(self, v): return self.dom.u(v)
    def s(self, v): return self.dom.s(v)

def verify(mod, con, verbose=False, extra=None):
    """-> dict with obligations of one wrapper"""
    import time
    if isinstance(con, Lemma): return prove_lemma(con, verbose, extra)
    t0 = time.time()
    fn = mod.fns.get(con.fname)
    res = {'fn': con.fname, 'api': con.api, 'obls': [], 'error': None}
    if fn is None or fn.error:
        res['error'] = 'extraction: %s' % (fn.error if fn else 'wrapper missing from the IR'); return res
    o = dict(con.opts); o['verbose'] = verbose
    merge(o, extra)
    x = Exec(mod, fn, con, o)
    try:
        x.push()
        st = State()
        c = Ctx(x, st); con.c = c
        args = con._setup(c)
        if len(args) != len(fn.params): raise Unsupported('arity %d vs %d' % (len(args), len(fn.params)))
        for (t, nm), a in zip(fn.params, args): st.env[nm] = a
        # vacuity guard: the precondition is satisfiable
        r = x.check(20000)
        x.obls.append(Obl(con.fname, 'cover', 'precondition satisfiable', r != z3.unsat, None, 'entry', 'z3-5.3.2', 0))
        x.run(st, fn.order[0], None)
        if not getattr(x, 'covered', False) and not getattr(con, 'may_not_return', False):
            x.obls.append(Obl(con.fname, 'cover', 'some path reaches the postcondition', False, None, 'exit', 'z3-5.3.2', 0))
    except Unsupported as e:
        res['error'] = 'unsupported: %s (at %s)' % (e, x.loc)
    except Budget as e:
        res['error'] = 'budget: %s' % e
    except z3.Z3Exception as e:
        import traceback
        res['error'] = 'z3 exception: %s' % (traceback.format_exc()[-800:],)
    res['obls'] = [dict(kind=o.kind, desc=o.desc, ok=o.ok, loc=o.loc, backend=o.backend, model=o.model) for o in x.obls]
    res['checks'] = x.ncheck; res['solver_s'] = round(x.tcheck, 3); res['paths'] = x.paths
    res['wall'] = round(time.time() - t0, 3)
    res['models'] = sorted(models.USED)
    return res
