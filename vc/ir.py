"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang writes.

Only what clang -O0 produces is understood; anything else raises IRError when it is reached."""
import re
import shutil
import subprocess

CXXFILT = "/usr/lib/llvm-18/bin/llvm-cxxfilt"


class IRError(Exception):
    pass


TOK = re.compile(r'''\s*(?:
    (?P<str>c"(?:[^"])*")
  | (?P<name>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?(?![a-zA-Z_]))
  | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
  | (?P<qstr>"(?:[^"])*")
  | (?P<meta>!(?:\d+|[a-zA-Z_.]*))
  | (?P<attr>\#\d+)
  | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<word>[a-zA-Z_][a-zA-Z_0-9.]*)
  | (?P<dots>\.\.\.)
  | (?P<p>[=(){}\[\]<>,*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise IRError("token: " + s[i:i + 60])
        kind = m.lastgroup
        out.append((kind, m.group(kind)))
        i = m.end()
    return out


# ---- types -------------------------------------------------------------------------------------
class Ty:
    __slots__ = ("k", "a", "b")

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.a
        if self.k == 'arr':
            return '[%d x %r]' % (self.a, self.b)
        if self.k == 'struct':
            return '{%s}' % ', '.join(map(repr, self.a))
        if self.k == 'named':
            return self.a
        return self.k

    def __eq__(self, o):
        return isinstance(o, Ty) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


PTR = Ty('ptr')
VOID = Ty('void')
I1 = Ty('int', 1)
I8 = Ty('int', 8)
I32 = Ty('int', 32)
I64 = Ty('int', 64)

PARAM_ATTRS = {"noundef", "nonnull", "signext", "zeroext", "noalias", "nocapture", "writeonly", "readonly", "immarg",
               "returned", "inreg", "dead_on_unwind", "writable", "dead_on_return", "swifterror", "swiftasync", "nest", "nofree", "readnone", "swiftself", "noext", "allocptr", "allocalign"}
PARAM_ATTRS_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "range", "nofpclass",
                   "elementtype", "initializes", "captures", "preallocated", "inalloca", "byref"}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] in ('p', 'word', 'dots'):
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise IRError("expected %r at %r" % (v, self.t[max(0, self.i - 3):self.i + 5]))

    def eof(self):
        return self.i >= len(self.t)

    # -- types
    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                if self.peek()[1] == 'addrspace':
                    self.next(); self.exp('('); self.next(); self.exp(')')
                t = PTR
            elif v == 'void':
                t = VOID
            elif re.fullmatch(r'i\d+', v):
                t = Ty('int', int(v[1:]))
            elif v in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
                t = Ty('fp', v)
            elif v in ('label', 'token', 'metadata'):
                t = Ty(v)
            else:
                raise IRError("type " + v)
        elif k == 'name':
            t = Ty('named', v)
        elif v == '[':
            n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp(']')
            t = Ty('arr', n, e)
        elif v == '{':
            t = Ty('struct', self._tylist('}'), False)
        elif v == '<':
            if self.acc('{'):
                t = Ty('struct', self._tylist('}'), True)
                self.exp('>')
            else:
                n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp('>')
                t = Ty('vec', n, e)
        else:
            raise IRError("type at %r" % ((k, v),))
        if self.peek()[1] == '(' and self.peek()[0] == 'p':
            # a function type
            self.next()
            args = []
            while not self.acc(')'):
                if self.acc('...'):
                    continue
                args.append(self.type())
                self.acc(',')
            t = Ty('fn', t, args)
        return t

    def _tylist(self, close):
        r = []
        while not self.acc(close):
            r.append(self.type())
            self.acc(',')
        return r

    def attrs(self):
        """skip parameter attributes, return those that matter"""
        r = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.next()
                r[v] = True
            elif k == 'word' and v in PARAM_ATTRS_ARG:
                self.next()
                if self.acc('('):
                    if v in ('sret', 'byval', 'elementtype', 'byref'):
                        r[v] = self.type()
                        self.exp(')')
                    else:
                        d = 1
                        while d:
                            kk, vv = self.next()
                            if vv == '(':
                                d += 1
                            elif vv == ')':
                                d -= 1
                else:
                    self.next()
            elif k == 'qstr':
                self.next()
                if self.acc('='):
                    self.next()
            else:
                return r

    # -- values
    def value(self, ty):
        k, v = self.next()
        if k == 'name':
            return ('reg', v) if v[0] == '%' else ('glob', v)
        if k == 'num':
            if ty.k == 'int':
                return ('int', int(v) % (1 << ty.a), ty.a)
            return ('fp', v)
        if k == 'hex':
            return ('fp', v)
        if k == 'word':
            if v == 'true':
                return ('int', 1, 1)
            if v == 'false':
                return ('int', 0, 1)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('none',)
            if v == 'getelementptr':
                self.acc('inbounds')
                if self.acc('inrange'):
                    pass
                self.exp('(')
                bt = self.type(); self.exp(',')
                pt = self.type(); base = self.value(pt)
                idx = []
                while self.acc(','):
                    self.acc('inrange')
                    t = self.type()
                    idx.append((t, self.value(t)))
                self.exp(')')
                return ('cgep', bt, base, idx)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.exp('(')
                t = self.type(); x = self.value(t); self.exp('to'); t2 = self.type(); self.exp(')')
                return ('cconv', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'shl', 'and', 'or', 'xor'):
                while self.peek()[1] in ('nuw', 'nsw'):
                    self.next()
                self.exp('(')
                t = self.type(); a = self.value(t); self.exp(','); t = self.type(); b = self.value(t); self.exp(')')
                return ('cbin', v, t, a, b)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self.value(ty)
            if v == 'splat':
                raise IRError('splat')
            raise IRError("value " + v)
        if k == 'str':
            return ('cstr', decode_cstr(v))
        if v == '[' or v == '{':
            close = ']' if v == '[' else '}'
            r = []
            while not self.acc(close):
                t = self.type()
                r.append((t, self.value(t)))
                self.acc(',')
            return ('agg', r)
        if v == '<':
            if self.acc('{'):
                r = []
                while not self.acc('}'):
                    t = self.type()
                    r.append((t, self.value(t)))
                    self.acc(',')
                self.exp('>')
                return ('agg', r)
            r = []
            while not self.acc('>'):
                t = self.type()
                r.append((t, self.value(t)))
                self.acc(',')
            return ('agg', r)
        raise IRError("value at %r" % ((k, v),))

    def tv(self):
        t = self.type()
        self.attrs()
        if t.k == 'metadata':
            while not self.eof() and self.peek()[1] not in (',', ')'):
                self.next()
            return t, ('none',)
        return t, self.value(t)


def decode_cstr(v):
    s = v[2:-1]
    out = bytearray()
    i = 0
    b = s.encode('latin-1', 'surrogateescape') if isinstance(s, str) else s
    while i < len(b):
        if b[i] == 0x5c:
            if b[i + 1:i + 2] == b'\\':
                out.append(92)
                i += 2
                continue
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


class Inst:
    __slots__ = ("op", "res", "d", "text", "line")

    def __init__(self, op, res, d, text):
        self.op, self.res, self.d, self.text = op, res, d, text

    def __repr__(self):
        return self.text.strip()


class Func:
    def __init__(self, name):
        self.name = name
        self.ret = None
        self.params = []      # (Ty, name, attrs)
        self.blocks = None    # label -> [Inst]
        self.order = []
        self.lines = None
        self.module = None
        self.vararg = False
        self._loops = None
        self.linkage = ''

    def parse(self):
        if self.blocks is not None or self.lines is None:
            return
        self.blocks = {}
        cur = None
        pend = None
        lines = self.lines
        i = 0
        nump = len(self.params)
        first = True
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                cur = '%' + m.group(1)
                self.blocks[cur] = []
                self.order.append(cur)
                first = False
                continue
            if first:
                cur = '%entry.0'
                # unnamed entry block: its number is the number of parameters
                cur = '%' + str(nump) if not any(b for b in ()) else cur
                self.blocks[cur] = []
                self.order.append(cur)
                first = False
            # join continuation lines
            if s.startswith('switch') and not s.rstrip().endswith(']'):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ' + lines[i].strip()
                i += 1
            if ' landingpad ' in s or s.startswith('landingpad'):
                while i < len(lines) and re.match(r'\s*(cleanup|catch|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            if ('invoke ' in s) and ' unwind label ' not in s:
                s += ' ' + lines[i].strip()
                i += 1
            self.blocks[cur].append(parse_inst(s, self.module))
        self.entry = self.order[0]

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return list(t.d['dst'])
        if t.op == 'switch':
            return [t.d['default']] + [x for _, x in t.d['cases']]
        if t.op == 'invoke':
            return [t.d['normal'], t.d['unwind']]
        return []

    def loops(self):
        """header -> set of blocks (natural loops)"""
        if self._loops is not None:
            return self._loops
        self.parse()
        # iterative dominators
        order = []
        seen = set()
        st = [(self.entry, iter(self.succs(self.entry)))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for n in it:
                if n not in seen:
                    seen.add(n)
                    st.append((n, iter(self.succs(n))))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                if s in preds:
                    preds[s].append(b)
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                nd = None
                for p in preds[b]:
                    if p in idom:
                        if nd is None:
                            nd = p
                        else:
                            x, y = p, nd
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            nd = x
                if idom.get(b) != nd:
                    idom[b] = nd
                    ch = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if s in num and dominates(s, b):
                    body = loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stack.extend(preds[x])
        self._loops = loops
        return loops


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CONV = {"trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp",
        "sitofp", "addrspacecast"}
FLAGS = {"nuw", "nsw", "exact", "inbounds", "nneg", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract",
         "afn", "reassoc", "volatile", "atomic", "tail", "musttail", "notail"}


def parse_inst(s, mod):
    p = P(tokenize(s), mod)
    res = None
    if p.peek()[0] == 'name' and p.peek(1)[1] == '=':
        res = p.next()[1]
        p.next()
    op = p.next()[1]
    d = {}
    while op in ("tail", "musttail", "notail"):
        op = p.next()[1]
    if op == 'alloca':
        p.acc('inalloca')
        d['ty'] = p.type()
        d['n'] = None
        if p.acc(','):
            if p.peek()[1] != 'align':
                d['n'] = p.tv()
    elif op == 'load':
        while p.peek()[1] in ('volatile', 'atomic'):
            p.next()
        d['ty'] = p.type(); p.exp(','); p.type(); d['ptr'] = p.value(PTR)
        d['atomic'] = 'load atomic' in s
    elif op == 'store':
        d['atomic'] = 'store atomic' in s
        while p.peek()[1] in ('volatile', 'atomic'):
            p.next()
        d['ty'] = p.type(); d['val'] = p.value(d['ty']); p.exp(','); p.type(); d['ptr'] = p.value(PTR)
    elif op == 'getelementptr':
        p.acc('inbounds')
        d['ty'] = p.type(); p.exp(','); p.type(); d['ptr'] = p.value(PTR)
        idx = []
        while p.acc(','):
            t = p.type()
            idx.append((t, p.value(t)))
        d['idx'] = idx
    elif op in BIN:
        while p.peek()[1] in FLAGS:
            p.next()
        d['ty'] = p.type(); d['a'] = p.value(d['ty']); p.exp(','); d['b'] = p.value(d['ty'])
    elif op == 'fneg':
        d['ty'] = p.type(); d['a'] = p.value(d['ty'])
    elif op in ('icmp', 'fcmp'):
        d['pred'] = p.next()[1]
        while d['pred'] in FLAGS:
            d['pred'] = p.next()[1]
        d['ty'] = p.type(); d['a'] = p.value(d['ty']); p.exp(','); d['b'] = p.value(d['ty'])
    elif op in CONV:
        while p.peek()[1] in FLAGS:
            p.next()
        d['ty'] = p.type(); d['a'] = p.value(d['ty']); p.exp('to'); d['to'] = p.type()
    elif op == 'br':
        if p.acc('label'):
            d['cond'] = None
            d['dst'] = [p.next()[1]]
        else:
            p.type(); d['cond'] = p.value(I1); p.exp(','); p.exp('label'); a = p.next()[1]
            p.exp(','); p.exp('label'); b = p.next()[1]
            d['dst'] = [a, b]
    elif op == 'switch':
        d['ty'] = p.type(); d['a'] = p.value(d['ty']); p.exp(','); p.exp('label'); d['default'] = p.next()[1]
        p.exp('[')
        cs = []
        while not p.acc(']'):
            t = p.type(); v = p.value(t); p.exp(','); p.exp('label')
            cs.append((v[1], p.next()[1]))
        d['cases'] = cs
    elif op == 'ret':
        d['ty'] = p.type()
        d['a'] = None if d['ty'].k == 'void' else p.value(d['ty'])
    elif op == 'phi':
        while p.peek()[1] in FLAGS:
            p.next()
        d['ty'] = p.type()
        inc = []
        while True:
            p.exp('['); v = p.value(d['ty']); p.exp(','); inc.append((v, p.next()[1])); p.exp(']')
            if not p.acc(','):
                break
        d['inc'] = inc
    elif op == 'select':
        while p.peek()[1] in FLAGS:
            p.next()
        p.type(); d['c'] = p.value(I1); p.exp(',')
        d['ty'] = p.type(); d['a'] = p.value(d['ty']); p.exp(','); p.type(); d['b'] = p.value(d['ty'])
    elif op in ('call', 'invoke'):
        while p.peek()[1] in FLAGS or p.peek()[1] in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        p.attrs()
        # addrspace etc. not used
        t = p.type()
        if t.k == 'fn':
            d['ty'] = t.a
        else:
            d['ty'] = t
        if p.peek()[1] == 'asm':
            d['callee'] = ('asm',)
            while p.peek()[1] != '(':
                p.next()
        else:
            d['callee'] = p.value(PTR)
        p.exp('(')
        args = []
        while not p.acc(')'):
            at = p.type()
            aa = p.attrs()
            if at.k == 'metadata':
                dep = 0
                while not (dep == 0 and p.peek()[1] in (',', ')')):
                    if p.peek()[1] == '(':
                        dep += 1
                    if p.peek()[1] == ')':
                        dep -= 1
                    p.next()
                args.append((at, ('none',), aa))
            else:
                args.append((at, p.value(at), aa))
            p.acc(',')
        d['args'] = args
        if op == 'invoke':
            while not p.acc('to'):
                p.next()
            p.exp('label'); d['normal'] = p.next()[1]; p.exp('unwind'); p.exp('label'); d['unwind'] = p.next()[1]
    elif op == 'landingpad':
        d['ty'] = p.type()
        d['cleanup'] = False
        cl = []
        while not p.eof():
            w = p.next()[1]
            if w == 'cleanup':
                d['cleanup'] = True
            elif w == 'catch':
                t = p.type(); cl.append(('catch', p.value(t)))
            elif w == 'filter':
                t = p.type(); cl.append(('filter', p.value(t)))
        d['clauses'] = cl
    elif op == 'resume':
        d['ty'] = p.type(); d['a'] = p.value(d['ty'])
    elif op == 'unreachable':
        pass
    elif op == 'extractvalue':
        d['ty'] = p.type(); d['a'] = p.value(d['ty'])
        ix = []
        while p.acc(','):
            if p.peek()[0] != 'num':
                break
            ix.append(int(p.next()[1]))
        d['idx'] = ix
    elif op == 'insertvalue':
        d['ty'] = p.type(); d['a'] = p.value(d['ty']); p.exp(',')
        d['vty'] = p.type(); d['v'] = p.value(d['vty'])
        ix = []
        while p.acc(','):
            if p.peek()[0] != 'num':
                break
            ix.append(int(p.next()[1]))
        d['idx'] = ix
    elif op == 'atomicrmw':
        p.acc('volatile')
        d['op'] = p.next()[1]
        p.type(); d['ptr'] = p.value(PTR); p.exp(',')
        d['ty'] = p.type(); d['val'] = p.value(d['ty'])
    elif op == 'cmpxchg':
        while p.peek()[1] in ('weak', 'volatile'):
            p.next()
        p.type(); d['ptr'] = p.value(PTR); p.exp(',')
        d['ty'] = p.type(); d['cmp'] = p.value(d['ty']); p.exp(','); p.type(); d['new'] = p.value(d['ty'])
    elif op == 'freeze':
        d['ty'] = p.type(); d['a'] = p.value(d['ty'])
    elif op == 'fence':
        pass
    else:
        d['raw'] = s
    return Inst(op, res, d, s)


class Module:
    def __init__(self):
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self.dem = {}
        self.aliases = {}
        self.types_src = {}
        self.units = 0

    def _separate(self, text):
        """rename what is local to a translation unit: private and internal symbols, and types of the same name that differ"""
        self.units += 1
        tys = dict(re.findall(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', text, re.M))
        names = re.compile(r'%(?:"[^"]*"|[-a-zA-Z$._0-9]+)')
        bad = {t for t, d in tys.items() if t in self.types_src and self.types_src[t] != d and 'opaque' not in (d, self.types_src[t])}
        while True:
            more = {t for t, d in tys.items() if t not in bad and t in self.types_src and bad & set(names.findall(d))}
            if not more:
                break
            bad |= more
        loc = set(re.findall(r'^(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (?:private|internal) ', text, re.M))
        loc |= {m.group(1) for m in re.finditer(r'^define (?:dso_local )?(?:internal|private) [^@]*(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', text, re.M)}
        loc = {x for x in loc if x in self.globals or x in self.funcs}
        if bad or loc:
            u = '.unit%d' % self.units

            def ren(m):
                x = m.group(0)
                if x in bad or x in loc:
                    return x[:-1] + u + '"' if x.endswith('"') else x + u
                return x
            text = '\n'.join(l if l.startswith(';') else re.sub(r'[@%](?:"[^"]*"|[-a-zA-Z$._0-9]+)', ren, l) for l in text.split('\n'))
            tys = {t: d for t, d in tys.items() if t not in bad}
        for t, d in tys.items():
            self.types_src.setdefault(t, d)
        return text

    def load(self, path):
        with open(path, encoding='latin-1') as f:
            lines = self._separate(f.read()).split('\n')
        i = 0
        n = len(lines)
        ren = {}
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln[0] in ';!$':
                continue
            if ln[0] == '%' and ' = type ' in ln:
                nm, rest = ln.split(' = type ', 1)
                if rest.startswith('opaque'):
                    t = Ty('opaque')
                else:
                    t = P(tokenize(rest), self).type()
                self.types.setdefault(nm, t)
                continue
            if ln[0] == '@':
                self._global(ln)
                continue
            if ln.startswith('define ') or ln.startswith('declare '):
                f = self._header(ln)
                if ln.startswith('define '):
                    body = []
                    while lines[i] != '}':
                        body.append(lines[i])
                        i += 1
                    i += 1
                    f.lines = body
                old = self.funcs.get(f.name)
                if old is None or old.lines is None:
                    self.funcs[f.name] = f
        return self

    def _header(self, ln):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
        f = Func('@' + m.group(1))
        f.module = self
        pre = ln[:m.start()]
        f.linkage = 'internal' if ' internal ' in pre else ''
        # return type: last type in pre
        toks = tokenize(pre)
        p = P(toks, self)
        p.next()
        skip = {"dso_local", "internal", "linkonce_odr", "weak_odr", "external", "hidden", "unnamed_addr", "private",
                "available_externally", "local_unnamed_addr", "weak", "protected", "common", "fastcc", "ccc"}
        while p.peek()[1] in skip:
            p.next()
        f.retattrs = p.attrs()
        f.ret = p.type()
        # params
        j = m.end()
        depth = 1
        k = j
        inq = False
        while depth:
            c = ln[k]
            if c == '"':
                inq = not inq
            elif not inq:
                if c == '(':
                    depth += 1
                elif c == ')':
                    depth -= 1
            k += 1
        p = P(tokenize(ln[j:k - 1]), self)
        idx = 0
        while not p.eof():
            if p.acc('...'):
                f.vararg = True
                continue
            t = p.type()
            a = p.attrs()
            nm = None
            if p.peek()[0] == 'name':
                nm = p.next()[1]
            else:
                nm = '%' + str(idx)
            if t.k == 'metadata':
                while not p.eof() and p.peek()[1] != ',':
                    p.next()
            f.params.append((t, nm, a))
            idx += 1
            p.acc(',')
        return f

    def _global(self, ln):
        m = re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = (.*)', ln)
        nm, rest = m.group(1), m.group(2)
        if re.search(r'\balias\b', rest.split('"')[0]) or ' alias ' in rest[:120]:
            mm = re.search(r'ptr (@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))\s*$', rest)
            if mm:
                self.aliases[nm] = mm.group(1)
            return
        self.globals.setdefault(nm, (rest, None))

    def global_init(self, nm):
        """(type, constant initialiser or None, is_constant)"""
        g = self.globals.get(nm)
        if g is None:
            return None
        rest, parsed = g
        if parsed is not None:
            return parsed
        toks = tokenize(rest)
        p = P(toks, self)
        const = False
        while True:
            k, v = p.peek()
            if v == 'constant':
                const = True
                p.next()
                break
            if v == 'global':
                p.next()
                break
            if v == 'thread_local':
                p.next()
                if p.acc('('):
                    while not p.acc(')'):
                        p.next()
                continue
            p.next()
            if p.eof():
                return None
        t = p.type()
        init = None
        if not p.eof() and p.peek()[1] != ',':
            try:
                init = p.value(t)
            except IRError:
                init = None
        r = (t, init, const)
        self.globals[nm] = (rest, r)
        return r

    # -- layout
    def resolve(self, t):
        while t.k == 'named':
            t = self.types[t.a]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            return max(1, min(16, 1 << ((t.a + 7) // 8 - 1).bit_length()))
        if t.k == 'ptr':
            return 8
        if t.k == 'fp':
            return {'float': 4, 'double': 8, 'x86_fp80': 16}.get(t.a, 8)
        if t.k == 'arr':
            return self.align(t.b)
        if t.k == 'struct':
            if t.b:
                return 1
            return max([1] + [self.align(x) for x in t.a])
        if t.k == 'vec':
            return self.size(t)
        raise IRError("align %r" % t)

    def size(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            a = self.align(t)
            s = (t.a + 7) // 8
            return (s + a - 1) // a * a
        if t.k == 'ptr':
            return 8
        if t.k == 'fp':
            return {'float': 4, 'double': 8, 'x86_fp80': 16}.get(t.a, 8)
        if t.k == 'arr':
            return t.a * self.size(t.b)
        if t.k == 'vec':
            return t.a * self.size(t.b)
        if t.k == 'struct':
            o = 0
            for x in t.a:
                if not t.b:
                    al = self.align(x)
                    o = (o + al - 1) // al * al
                o += self.size(x)
            al = self.align(t)
            return (o + al - 1) // al * al
        if t.k == 'opaque':
            return 1
        raise IRError("size %r" % t)

    def offset(self, t, i):
        t = self.resolve(t)
        o = 0
        for j, x in enumerate(t.a):
            if not t.b:
                al = self.align(x)
                o = (o + al - 1) // al * al
            if j == i:
                return o, x
            o += self.size(x)
        raise IRError("offset")

    def demangle_all(self):
        names = [n for n in list(self.funcs) + list(self.globals) if n not in self.dem]
        inp = '\n'.join(re.sub(r'\.unit\d+$', '', n[1:].strip('"')) for n in names)
        out = subprocess.run([CXXFILT], input=inp, capture_output=True, text=True).stdout.split('\n')
        left = []
        for n, o in zip(names, out):
            self.dem[n] = o
            if o.startswith('_Z'):
                left.append(n)
        if left and shutil.which('c++filt'):       # llvm-cxxfilt does not know some conversion operators
            out = subprocess.run(['c++filt'], input='\n'.join(re.sub(r'\.unit\d+$', '', n[1:].strip('"')) for n in left), capture_output=True, text=True).stdout.split('\n')
            for n, o in zip(left, out):
                self.dem[n] = o.replace('> >', '>>').replace('> >', '>>')

    def demangled(self, n):
        return self.dem.get(n, n[1:])


def compile_ir(src, out, extra=(), repo='/repo', timeout=120):
    cmd = ["/usr/lib/llvm-18/bin/clang++", "-std=c++17", "-O0", "-S", "-emit-llvm", "-fno-discard-value-names",
           "-iquote", repo, "-I", repo, "-w", "-Wno-invalid-constexpr", "-Wno-error", *extra, "-o", out, src]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    if r.returncode:
        raise IRError("clang++ failed: " + r.stderr[:2000])
    return cmd
