"""C05 split: the emitted ranges are exactly the fields of the text, for every predicate, option and overload."""
from tokens import *
def setup(kind, opt):
    def f(c):
        pre = []
        if kind == 'it':
            n = c.size('n'); p = c.buf('in', n, const=True)
            c.n, c.src = n, c.mem('in').read; a = [p, Ptr('in', n)]; R = 'in'; isd = None
        else:
            p, R, n = c.string('in', const=True); c.n, c.src = n, c.mem(R).read; a = [p]; isd = None
            if kind == 'c':
                d = c.int('d', 8); isd = lambda ch: Eq(ch, c.u(d)); a = [d, p]
            elif kind in ('cs', 'ss', 'fets', 'fetc'):
                if kind in ('cs', 'fetc'): q, m, dm = c.cstr('delims')
                else: q, dr, m = c.string('delims', const=True); dm = c.mem(dr)
                isd = member_of(c, dm, m)
                a = [p, q] if kind.startswith('fet') else [q, p]
        specs(c, R, isd)
        ghost_init(c, c.st)
        con.hooks.update({'hook_emit': emit_hook(c, opt), 'hook_pred': pred_hook(c)})
        return a + ([c.dom.const(64, opt)] if not kind.startswith('fet') and con.withopt else [])
    con = Contract('', f, ens, tpl, hooks={})
    con.withopt = True
    return con
def ens(c, st, rv):
    c.ensure('every token was emitted', Eq(st.ghost['cur'], Ite(Eq(c.n, 0), 0, S(c.n + 1))))
    c.ensure('returns the number of tokens', Eq(c.u(rv), st.ghost['cnt']))
def tpl(c, st0, st, b, b0):
    L = tok_tpl(c, st0, st, b, b0)
    L += table_tpl(c, st0, st, b)
    return L
CONTRACTS = []
OPTN = lambda o: '|'.join(n for i, n in ((1, 'compress'), (2, 'include_1st'), (4, 'include_all')) if o & i) or 'default'
for w, kind, api in (('w_pred', 'it', 'split(pred,begin,end,out,%s)'), ('w_predr', 'it', 'split(pred,range,out,%s)'), ('w_preds', 's', 'split(pred,string,out,%s)'),
                     ('w_char', 'c', 'split(char,string,out,%s)'), ('w_cs', 'cs', 'split(const char*,string,out,%s)'), ('w_ss', 'ss', 'split(string,string,out,%s)'),
                     ('w_csq', 'cs', 'split(const char*,string,sequence,%s)'), ('w_ssq', 'ss', 'split(string,string,sequence,%s)')):
    for o in range(8):
        k = setup(kind, o); k.fname, k.api = w, api % OPTN(o); k.weight = 2 if kind in ('cs', 'ss') else 1; CONTRACTS.append(k)
k = setup('it', 0); k.fname, k.api, k.withopt = 'w_default', 'split(pred,begin,end,out)', False; CONTRACTS.append(k)
for w, kind in (('w_fets', 'fets'), ('w_fetc', 'fetc')):
    k = setup(kind, 0); k.fname, k.api = w, 'for_each_token'; CONTRACTS.append(k)
CONTRACTS.append(Lemma('scan', scan_lemma, api='meaning of the scan functions'))
