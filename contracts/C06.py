"""C06 tokenizer: iterating from begin to end visits exactly the fields of the text."""
from tokens import *
def setup(kind, opt):
    def f(c):
        isd = None; pre = []
        if kind in ('it', 'it2', 'char'):
            n = c.size('n'); p = c.buf('in', n, const=True)
            c.n, c.src = n, c.mem('in').read; a = [p, Ptr('in', n)]; R = 'in'
            if kind == 'char': d = c.int('d', 8); isd = lambda ch: Eq(ch, c.u(d)); a.append(d)
        else:
            if kind == 'as': q, _, _ = c.string('old', 1, const=True); pre = [q]
            p, R, n = c.string('in', const=True); c.n, c.src = n, c.mem(R).read; a = pre + [p]
        specs(c, R, isd)
        ghost_init(c, c.st)
        con.hooks.update({'hook_emit': emit_hook(c, opt), 'hook_pred': pred_hook(c), 'hook_reset': h_reset})
        c.opt = opt
        o2 = [c.int('o2', 64)] if kind == 'it2' else []
        return a + [c.dom.const(64, opt)] + o2
    con = Contract('', f, ens, tpl, hooks={})
    return con
def h_reset(x, st, ins, a):
    for g in list(st.ghost): x.modify(st, ('ghost', g))
    ghost_init(x.contract.c, st)
def ens(c, st, rv):
    c.ensure('every token was visited', Eq(st.ghost['cur'], Ite(Eq(c.n, 0), 0, S(c.n + 1))))
    c.ensure('visited as many tokens as counted', Eq(c.u(rv), st.ghost['cnt']))
def tpl(c, st0, st, b, b0):
    L = tok_tpl(c, st0, st, b, b0)
    if 'ghost:cur' not in b.vals: return L
    n = c.n
    gc = lambda b: b['ghost:cur'].t
    te = lambda b: next_token(c, gc(b), c.opt)[0]
    nx = lambda b: next_token(c, gc(b), c.opt)[1]
    L.append(Cand('cur<=n+1', lambda b: gc(b) <= n + 1))
    ps = [k for k, v in b.vals.items() if isinstance(v, Ptr) and v.r == c.R]
    # a flag of the iterator that says the last token is out
    fl = [(k, (lambda b, k=k: Not(Eq(b[k].t, 0)))) for k, v in b.vals.items() if isinstance(v, IV) and v.w in (1, 8)] + [(k, (lambda b, k=k: b[k])) for k, v in b.vals.items() if isinstance(v, z3.BoolRef)]
    for k in ps:
        L.append(Cand('finished or %s==cur' % k, lambda b, k=k: Or(gc(b) > n, Eq(b[k].o, gc(b)))))
        L.append(Cand('finished or %s==token end' % k, lambda b, k=k: Or(gc(b) > n, Eq(b[k].o, te(b)))))
        L.append(Cand('finished or %s==next token' % k, lambda b, k=k: Or(gc(b) > n, Eq(b[k].o, nx(b)))))
        L.append(Cand('finished iff %s==n' % k, lambda b, k=k: Eq(gc(b) > n, Eq(b[k].o, n))))
        for f, F in fl:
            L.append(Cand('%s or %s==next token' % (f, k), lambda b, k=k, F=F: Or(F(b), Eq(b[k].o, nx(b)))))
            L.append(Cand('%s or %s==cur' % (f, k), lambda b, k=k, F=F: Or(F(b), Eq(b[k].o, gc(b)))))
            L.append(Cand('%s or delimiter before %s' % (f, k), lambda b, k=k, F=F: Or(F(b), c.D(S(b[k].o - 1)))))
            L.append(Cand('%s: %s==n' % (f, k), lambda b, k=k, F=F: Implies(F(b), Eq(b[k].o, n))))
            L.append(Cand('%s: finished iff %s==n' % (f, k), lambda b, k=k, F=F: Implies(F(b), Eq(gc(b) > n, Eq(b[k].o, n)))))
    for f, F in fl:
        L.append(Cand('%s: last token' % f, lambda b, F=F: Implies(F(b), Or(gc(b) > n, Eq(c.nd(zi(gc(b))), n)))))
        L.append(Cand('not %s: a delimiter follows' % f, lambda b, F=F: Or(F(b), And(gc(b) < n, c.nd(zi(gc(b))) < n))))
    return L
CONTRACTS = []
OPTN = lambda o: '|'.join(n for i, n in ((1, 'compress'), (2, 'include_1st'), (4, 'include_all')) if o & i) or 'default'
for w, kind, api in (('w_tok', 'it', 'tokenizer(begin,end,pred,%s)'), ('w_toks', 's', 'tokenizer(string,pred,%s)'), ('w_post', 'it', 'tokenizer %s, postfix increment'),
                     ('w_assign', 'it', 'tokenizer %s, assign(begin,end)'), ('w_assigns', 'as', 'tokenizer %s, assign(string)'), ('w_copy', 'it2', 'tokenizer %s, assignment'), ('w_itas', 'it2', 'tokenizer %s, iterator assignment'), ('w_reuse', 'it', 'tokenizer %s, used iterator assigned'),
                     ('w_char', 'char', 'tokenizer(begin,end,char predicate,%s)')):
    for o in range(6):
        k = setup(kind, o); k.fname, k.api = w, api % OPTN(o); CONTRACTS.append(k)
CONTRACTS.append(Lemma('scan', scan_lemma, api='meaning of the scan functions'))
