"""Parser for the textual LLVM IR subset the harness pipeline produces."""
import re

class IRError(Exception):
    pass

TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"])*")
|(?P<loc>%(?:"[^"]+"|[\w.$\-]+))
|(?P<glob>@(?:"[^"]+"|[\w.$\-]+))
|(?P<meta>!(?:[\w.]+|\{[^}]*\})?)
|(?P<attr>\#\d+)
|(?P<num>-?(?:0x[KLMHR]?[0-9A-Fa-f]+|\d+\.\d+(?:e[+-]?\d+)?|\d+))
|(?P<word>[A-Za-z_][\w.]*)
|(?P<punct>\.\.\.|[()\[\]{}<>,=*:|])
)''', re.X)

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise IRError('tokenize: %r' % s[i:i + 80])
        k = m.lastgroup
        v = m.group(k)
        out.append((k, v))
        i = m.end()
    return out

ATTRS = {'noundef', 'dead_on_unwind', 'writable', 'dead_on_return', 'nonnull', 'zeroext', 'signext', 'nocapture', 'readonly', 'readnone', 'writeonly', 'noalias',
         'returned', 'immarg', 'inreg', 'noinline', 'nofree', 'nest', 'allocptr', 'nosync', 'willreturn', 'mustprogress', 'nounwind'}
PATTRS = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'captures', 'allocsize', 'memory', 'range', 'initializes', 'elementtype'}

class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')
    def next(self):
        x = self.peek(); self.i += 1; return x
    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] != 'str':
            self.i += 1; return True
        return False
    def exp(self, v):
        if not self.acc(v):
            raise IRError('expected %s at %s' % (v, self.t[self.i:self.i + 6]))
    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.fullmatch(r'i\d+', v): t = ('i', int(v[1:]))
            elif v == 'ptr': t = ('ptr',)
            elif v == 'void': t = ('void',)
            elif v in ('float', 'double', 'x86_fp80', 'half'): t = ('f', {'float': 32, 'double': 64, 'x86_fp80': 80, 'half': 16}[v])
            elif v in ('label', 'metadata', 'token', 'opaque'): t = (v,)
            else: raise IRError('type %s' % v)
        elif v == '[':
            n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp(']'); t = ('arr', n, e)
        elif v == '{':
            fs = []
            if not self.acc('}'):
                fs.append(self.type())
                while self.acc(','): fs.append(self.type())
                self.exp('}')
            t = ('st', tuple(fs), False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next(); fs = []
                if not self.acc('}'):
                    fs.append(self.type())
                    while self.acc(','): fs.append(self.type())
                    self.exp('}')
                self.exp('>'); t = ('st', tuple(fs), True)
            else:
                n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp('>'); t = ('vec', n, e)
        elif k == 'loc':
            t = ('named', v[1:].strip('"'))
        else:
            raise IRError('type %s %s' % (k, v))
        while self.peek()[1] == '(' and self.peek(1)[1] in (')', 'ptr', '...', 'i32', 'i64', 'i8'):
            # function type (varargs call); skip
            d = 0
            while True:
                x = self.next()[1]
                if x == '(': d += 1
                if x == ')':
                    d -= 1
                    if d == 0: break
            t = ('fn', t)
        while self.acc('*'):
            t = ('ptr',)
        return t
    def attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in ATTRS: self.next()
            elif k == 'word' and v in PATTRS:
                self.next()
                if self.acc('('):
                    d = 1
                    while d:
                        x = self.next()[1]
                        if x == '(': d += 1
                        elif x == ')': d -= 1
                elif v == 'align': self.next()
            elif k == 'attr': self.next()
            else: break
    def value(self, t):
        k, v = self.next()
        if k == 'loc': return ('loc', v[1:].strip('"'))
        if k == 'glob': return ('glob', v[1:].strip('"'))
        if k == 'num':
            if t[0] == 'f': return ('fp', t[1], v)
            return ('int', t[1], int(v))
        if k == 'str': return ('bytes', decode_cstr(v))
        if k == 'word':
            if v == 'null': return ('null',)
            if v == 'true': return ('int', 1, 1)
            if v == 'false': return ('int', 1, 0)
            if v in ('undef', 'poison'): return ('undef', t)
            if v == 'zeroinitializer': return ('zero', t)
            if v == 'none': return ('null',)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw'): self.next()
                self.exp('(')
                bt = self.type(); self.exp(',')
                pt = self.type(); base = self.value(pt); idx = []
                while self.acc(','):
                    self.acc('inrange'); it = self.type(); idx.append((it, self.value(it)))
                self.exp(')')
                return ('cgep', bt, base, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                self.exp('('); a = self.type(); x = self.value(a); self.exp('to'); b = self.type(); self.exp(')')
                return ('ccast', v, a, x, b)
            if v in ('sub', 'add', 'mul', 'xor', 'icmp'):
                while self.peek()[0] == 'word' and self.peek()[1] in ('nuw', 'nsw', 'ne', 'eq', 'ult', 'ugt'): self.next()
                self.exp('('); a = self.type(); x = self.value(a); self.exp(','); b = self.type(); y = self.value(b); self.exp(')')
                return ('cbin', v, a, x, y)
        if v == '[' or v == '{' or v == '<':
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.peek()[1] == '{':
                self.next(); es = self.elems('}'); self.exp('>'); return ('agg', es)
            return ('agg', self.elems(close))
        raise IRError('value %s %s' % (k, v))
    def elems(self, close):
        es = []
        if self.acc(close): return es
        while True:
            t = self.type(); es.append((t, self.value(t)))
            if not self.acc(','): break
        self.exp(close)
        return es
    def tv(self):
        t = self.type(); self.attrs(); return t, self.value(t)

def decode_cstr(v):
    v = v[2:-1] if v.startswith('c"') else v[1:-1]
    out, i = bytearray(), 0
    while i < len(v):
        if v[i] == '\\':
            if v[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(v[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(v[i])); i += 1
    return bytes(out)

class Instr:
    __slots__ = ('op', 'res', 'd', 'text')
    def __init__(self, op, res, text, **d):
        self.op, self.res, self.d, self.text = op, res, d, text
    def __repr__(self): return self.text

class Fn:
    def __init__(self, name):
        self.name, self.params, self.blocks, self.order = name, [], {}, []
        self.ret = None

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'addrspacecast'}

class Module:
    def __init__(self, text):
        self.types, self.globals, self.fns = {}, {}, {}
        self.parse(text)
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                p = P(tokenize(ln), self)
                nm = p.next()[1][1:].strip('"'); p.exp('='); p.exp('type')
                self.types[nm] = p.type() if p.peek()[1] != 'opaque' else ('opaque',)
            elif ln.startswith('@'):
                self.parse_global(ln)
            elif ln.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                try:
                    self.parse_fn(ln, lines[i + 1:j])
                except IRError as e:
                    m = re.search(r'@("[^"]+"|[\w.$]+)\(', ln)
                    f = Fn(m.group(1).strip('"')); f.error = str(e); self.fns[f.name] = f
                i = j
            i += 1
    def parse_global(self, ln):
        m = re.match(r'@("[^"]+"|[\w.$\-]+) = (.*)$', ln)
        name, rest = m.group(1).strip('"'), m.group(2)
        m2 = re.match(r'(?:(?:private|internal|linkonce_odr|external|dso_local|unnamed_addr|local_unnamed_addr|constant|global|weak|hidden|common|available_externally|weak_odr|thread_local|appending|dllimport|comdat) ?)*', rest)
        const = bool(re.search(r'\bconstant\b', m2.group(0)))
        body = rest[m2.end():]
        body = re.sub(r', (align|comdat|section|!).*$', '', body)
        self.globals[name] = {'const': const, 'text': body, 'parsed': None}
    def glob(self, name):
        g = self.globals.get(name)
        if g is None: return None
        if g['parsed'] is None:
            try:
                p = P(tokenize(g['text']), self)
                t = p.type()
                v = p.value(t) if p.peek()[0] != 'eof' else None
                g['parsed'] = (t, v)
            except (IRError, ValueError) as e:
                g['parsed'] = (('i', 8), None)
        return g
    def res(self, t):
        while t[0] == 'named': t = self.types[t[1]]
        return t
    def align(self, t):
        t = self.res(t)
        k = t[0]
        if k == 'i': return max(1, min(16, 1 << ((t[1] + 7) // 8 - 1).bit_length()))
        if k == 'ptr': return 8
        if k == 'f': return {16: 2, 32: 4, 64: 8, 80: 16}[t[1]]
        if k in ('arr', 'vec'): return self.align(t[2])
        if k == 'st': return 1 if t[2] or not t[1] else max(self.align(x) for x in t[1])
        raise IRError('align %s' % (t,))
    def size(self, t):
        t = self.res(t); k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            return 1 << (n - 1).bit_length() if n > 1 else 1
        if k == 'ptr': return 8
        if k == 'f': return {16: 2, 32: 4, 64: 8, 80: 16}[t[1]]
        if k in ('arr', 'vec'): return t[1] * self.size(t[2])
        if k == 'st':
            o = 0
            for f in t[1]:
                if not t[2]:
                    a = self.align(f); o = (o + a - 1) // a * a
                o += self.size(f)
            if not t[2]:
                a = self.align(t); o = (o + a - 1) // a * a
            return o
        raise IRError('size %s' % (t,))
    def field(self, t, n):
        t = self.res(t); o = 0
        for k, f in enumerate(t[1]):
            if not t[2]:
                a = self.align(f); o = (o + a - 1) // a * a
            if k == n: return o, f
            o += self.size(f)
        raise IRError('field')
    def parse_fn(self, head, body):
        m = re.search(r'@("[^"]+"|[\w.$]+)\(', head)
        f = Fn(m.group(1).strip('"'))
        f.error = None
        p = P(tokenize(head[m.end() - 1:]), self)
        p.exp('(')
        k = 0
        while not p.acc(')'):
            if p.acc('...'): continue
            t = p.type(); p.attrs()
            if p.peek()[0] == 'loc': nm = p.next()[1][1:].strip('"')
            else: nm = str(k)
            f.params.append((t, nm)); k += 1
            p.acc(',')
        cur = None
        j = 0
        while j < len(body):
            ln = body[j]
            j += 1
            if not ln.strip() or ln.strip().startswith(';'): continue
            mm = re.match(r'^("[^"]+"|[\w.$\-]+):', ln)
            if mm:
                cur = mm.group(1).strip('"'); f.blocks[cur] = []; f.order.append(cur); continue
            if cur is None:
                cur = '0'; f.blocks[cur] = []; f.order.append(cur)
            s = ln.strip()
            if s.startswith('switch') and ']' not in s:
                while ']' not in body[j]: s += ' ' + body[j].strip(); j += 1
                s += ' ]'; j += 1
            f.blocks[cur].append(self.parse_instr(s))
        self.fns[f.name] = f
    def parse_instr(self, s):
        s0 = s
        p = P(tokenize(s), self)
        res = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            res = p.next()[1][1:].strip('"'); p.next()
        k, op = p.next()
        if op in ('tail', 'musttail', 'notail'): k, op = p.next()
        if op in BIN:
            fl = set()
            while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): fl.add(p.next()[1])
            t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
            return Instr('bin', res, s0, o=op, fl=fl, t=t, a=a, b=b)
        if op == 'fneg':
            t = p.type(); a = p.value(t); return Instr('fneg', res, s0, t=t, a=a)
        if op in ('icmp', 'fcmp'):
            pr = p.next()[1]; t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
            return Instr(op, res, s0, pr=pr, t=t, a=a, b=b)
        if op in CAST:
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'): p.next()
            t = p.type(); a = p.value(t); p.exp('to'); t2 = p.type()
            return Instr('cast', res, s0, o=op, t=t, a=a, t2=t2)
        if op == 'select':
            t = p.type(); c = p.value(t); p.exp(','); t1 = p.type(); a = p.value(t1); p.exp(','); t2 = p.type(); b = p.value(t2)
            return Instr('select', res, s0, c=c, t=t1, a=a, b=b)
        if op == 'phi':
            t = p.type(); inc = []
            while True:
                p.exp('['); v = p.value(t); p.exp(','); lb = p.next()[1][1:].strip('"'); p.exp(']')
                inc.append((v, lb))
                if not p.acc(','): break
                if p.peek()[0] == 'meta': break
            return Instr('phi', res, s0, t=t, inc=inc)
        if op == 'br':
            if p.peek()[1] == 'label':
                p.next(); return Instr('br', None, s0, tgt=p.next()[1][1:].strip('"'))
            t = p.type(); c = p.value(t); p.exp(','); p.exp('label'); a = p.next()[1][1:].strip('"'); p.exp(','); p.exp('label'); b = p.next()[1][1:].strip('"')
            return Instr('cbr', None, s0, c=c, a=a, b=b)
        if op == 'switch':
            t = p.type(); v = p.value(t); p.exp(','); p.exp('label'); d = p.next()[1][1:].strip('"'); p.exp('[')
            cs = []
            while not p.acc(']'):
                ct = p.type(); cv = p.value(ct); p.exp(','); p.exp('label'); cs.append((cv[2], p.next()[1][1:].strip('"')))
            return Instr('switch', None, s0, t=t, v=v, d=d, cs=cs)
        if op == 'ret':
            t = p.type()
            return Instr('ret', None, s0, t=t, v=None if t[0] == 'void' else p.value(t))
        if op == 'unreachable': return Instr('unreachable', None, s0)
        if op == 'alloca':
            p.acc('inalloca'); t = p.type(); n = ('int', 64, 1)
            if p.acc(',') and p.peek()[1] != 'align':
                nt = p.type(); n = p.value(nt)
            return Instr('alloca', res, s0, t=t, n=n)
        if op == 'load':
            p.acc('atomic'); p.acc('volatile'); t = p.type(); p.exp(','); pt = p.type(); a = p.value(pt)
            return Instr('load', res, s0, t=t, p=a)
        if op == 'store':
            p.acc('atomic'); p.acc('volatile'); t = p.type(); v = p.value(t); p.exp(','); pt = p.type(); a = p.value(pt)
            return Instr('store', None, s0, t=t, v=v, p=a)
        if op == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw'): p.next()
            bt = p.type(); p.exp(','); pt = p.type(); b = p.value(pt); idx = []
            while p.acc(','):
                if p.peek()[0] == 'meta': break
                it = p.type(); idx.append((it, p.value(it)))
            return Instr('gep', res, s0, bt=bt, p=b, idx=idx)
        if op == 'call':
            while p.peek()[1] in ('fastcc', 'ccc', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'coldcc'): p.next()
            p.attrs()
            t = p.type()
            callee = p.next()
            if callee[1] == 'asm': return Instr('asm', res, s0)
            p.exp('('); args = []
            if not p.acc(')'):
                while True:
                    at = p.type(); p.attrs()
                    if at[0] == 'metadata':
                        while p.peek()[1] not in (',', ')'): p.next()
                        args.append((at, None))
                    else: args.append((at, p.value(at)))
                    if not p.acc(','): break
                p.exp(')')
            return Instr('call', res, s0, t=t, f=callee[1][1:].strip('"') if callee[0] == 'glob' else None, args=args, fp=callee)
        if op == 'extractvalue':
            t = p.type(); a = p.value(t); ix = []
            while p.acc(','):
                if p.peek()[0] == 'meta': break
                ix.append(int(p.next()[1]))
            return Instr('extractvalue', res, s0, t=t, a=a, ix=ix)
        if op == 'insertvalue':
            t = p.type(); a = p.value(t); p.exp(','); t2 = p.type(); b = p.value(t2); ix = []
            while p.acc(','):
                if p.peek()[0] == 'meta': break
                ix.append(int(p.next()[1]))
            return Instr('insertvalue', res, s0, t=t, a=a, t2=t2, b=b, ix=ix)
        if op == 'freeze':
            t = p.type(); a = p.value(t); return Instr('freeze', res, s0, t=t, a=a)
        return Instr('unsupported', res, s0)

# ---- loops -------------------------------------------------------------
def loops(f):
    """natural loops: header -> set(blocks)"""
    succ = {}
    for b in f.order:
        t = f.blocks[b][-1]
        if t.op == 'br': succ[b] = [t.d['tgt']]
        elif t.op == 'cbr': succ[b] = [t.d['a'], t.d['b']]
        elif t.op == 'switch': succ[b] = [t.d['d']] + [x for _, x in t.d['cs']]
        else: succ[b] = []
    pred = {b: [] for b in f.order}
    for b in f.order:
        for s in succ[b]: pred[s].append(b)
    entry = f.order[0]
    dom = {b: set(f.order) for b in f.order}
    dom[entry] = {entry}
    ch = True
    # reverse postorder
    seen, po = set(), []
    st = [(entry, iter(succ[entry]))]; seen.add(entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(succ[s]))); break
        else:
            po.append(b); st.pop()
    rpo = po[::-1]
    while ch:
        ch = False
        for b in rpo:
            if b == entry: continue
            ps = [dom[p] for p in pred[b] if p in seen]
            nd = set.intersection(*ps) | {b} if ps else {b}
            if nd != dom[b]: dom[b] = nd; ch = True
    L = {}
    for b in rpo:
        for s in succ[b]:
            if s in dom[b]:
                body = L.setdefault(s, {s})
                stk = [b]
                while stk:
                    x = stk.pop()
                    if x not in body:
                        body.add(x); stk.extend(p for p in pred[x] if p in seen)
    return L, succ, pred
