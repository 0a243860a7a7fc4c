"""C20: command line arguments are taken apart without loss.

For a text s and a start b: esc(s,b,i) says that the character at i is escaped, out(s,b,i) is what the characters from b up to i stand
for, end(s,b) is the position of the first unescaped comma after b (or the end of the text)."""
from spec import *
from models import ret

DRV = os.path.join(os.path.dirname(__file__), 'C20.drv.cpp')
SRC = ['core/cmd_line_parser/command_line.cpp']
ASSUMPTIONS = ['std::lower_bound has its contract under its precondition (a partitioned range), which is proved', 'strncmp compares prefixes lexicographically: a strict total order in which a text does not precede its prefixes and prefixes keep the order',
               'the option table is sorted by name (the quantifier of the property); an argument does not contain the NUL character',
               'converters are called through the table: each is an arbitrary function that returns a set of bits or throws']
MODELS = []
B = z3.BoolSort()
esc = z3.Function('esc', SEQ, INT, INT, B)
out = z3.Function('out', SEQ, INT, INT, SEQ)
end = z3.Function('end', SEQ, INT, INT)
EMPTY = z3.Empty(SEQ)


def L(s):
    return z3.Length(s)


def init(s, b):
    return [z3.Not(esc(s, b, b)), out(s, b, b) == EMPTY]


def step(s, b, i):
    """definition of esc and out at i + 1"""
    back = z3.And(z3.Not(esc(s, b, i)), s[i] == 92)
    return [z3.Implies(z3.And(b <= i, i < L(s)), z3.And(esc(s, b, i + 1) == back, out(s, b, i + 1) == z3.If(back, out(s, b, i), z3.Concat(out(s, b, i), z3.Unit(s[i])))))]


def comma(s, b, i):
    return z3.And(s[i] == 44, z3.Not(esc(s, b, i)))


def nocomma(s, b, e):
    j = z3.Int('j')
    return z3.ForAll([j], z3.Implies(z3.And(j >= b, j < e), z3.Not(comma(s, b, j))))


def is_end(s, b, e):
    return z3.And(b <= e, e <= L(s), nocomma(s, b, e), z3.Or(e == L(s), comma(s, b, e)))


def nxt(s, b):
    return z3.If(end(s, b) == L(s), L(s), end(s, b) + 1)


def text(ex, st, name):
    s = ex.fresh(name, SEQ)
    j = z3.Int('j')
    st.facts.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L(s)), z3.And(s[j] >= 1, s[j] <= 255))))
    return s


def at(p):
    return iv(add(p.c, mul(p.s, p.i)))


class Token(Contract):
    base = 'Maike::CmdLineParser::detail::next_array_token'

    def entry(self, ex, f):
        st = State()
        self.out = Ptr(Obj('token', 40))
        self.s, self.b = text(ex, st, 'text'), ex.fresh('start', INT)
        st.facts += [z3.And(self.b >= 0, self.b <= L(self.s))] + init(self.s, self.b)
        return st, [self.out, Ptr(CStr(self.s), 0, 1, self.b)]

    def loop(self, ex, s0):
        return TokenInv(self, s0)

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'taking a token does not throw')
        p = ex.load(st, acc(ex, st, 'spec::second', [self.out]), ir.PTR)
        if not (isinstance(p, Ptr) and isinstance(p.base, CStr) and p.base.seq.eq(self.s)):
            return ex.prove(st, False, 'the next token starts in the text')
        e = self.stop(ex, st)
        st.facts += step(self.s, self.b, e)
        ex.prove(st, is_end(self.s, self.b, e), 'a token ends at the first unescaped comma, or at the end')
        ex.prove(st, ex.gload(st, acc(ex, st, 'spec::first', [self.out]), 'str') == out(self.s, self.b, e), 'a token is its text without the escapes')
        ex.prove(st, at(p) == z3.If(e == L(self.s), e, e + 1), 'the next token starts behind the comma')

    def stop(self, ex, st):
        return self.i

    def apply(self, ex, st, a, name):
        p = a[1]
        s, b = p.base.seq, at(p)
        e = end(s, b)
        st.facts += [z3.Implies(z3.And(b >= 0, b <= L(s)), is_end(s, b, e))]
        ex.prove(st, z3.And(b >= 0, b <= L(s)), 'tokens are taken from the text')
        ex.gstore(st, acc(ex, st, 'spec::first', [a[0]]), 'str', out(s, b, e))
        ex.store(st, acc(ex, st, 'spec::second', [a[0]]), Ptr(CStr(s), 0, 1, nxt(s, b)), ir.PTR)
        return ret(st)


class TokenInv:
    def __init__(self, c, s0):
        self.c, self.s0, self.loc, self.fl = c, s0, None, None

    def find(self, ex, st):
        ls = [l for l in ex.locs(self.s0, st) if l[0] == 'cell']
        for l in ls:
            v, v0 = ex.getloc(st, l), ex.getloc(self.s0, l)
            if isinstance(v, Ptr) and isinstance(v.base, CStr) and v.base.seq.eq(self.c.s):
                self.loc = l
            elif not isz(v0) and not isinstance(v0, Ptr) and v0 == 0:
                self.fl = l

    def formula(self, ex, st):
        c = self.c
        i = at(ex.getloc(st, self.loc))
        r = [z3.And(c.b <= i, i <= L(c.s)), nocomma(c.s, c.b, i),
             ex.gload(st, acc(ex, st, 'spec::first', [c.out]), 'str') == out(c.s, c.b, i)]
        if self.fl is not None:
            v = ex.getloc(st, self.fl)
            r += [v == esc(c.s, c.b, i) if isz(v) and z3.is_bool(v) else iv(v) == z3.If(esc(c.s, c.b, i), 1, 0)]
        return i, r

    def assume(self, ex, st):
        self.find(ex, st)
        if self.loc is None:
            return
        i, r = self.formula(ex, st)
        st.facts += r + step(self.c.s, self.c.b, i)
        self.c.i = i

    def check(self, ex, st, which, hdr=None):
        if self.loc is None:
            raise Unsupported('loop over the text of a token')
        i, r = self.formula(ex, st)
        for k, g in enumerate(r):
            ex.prove(st, g, 'loop invariant %d %s' % (k, which))


pos = z3.Function('element.start', INT, INT)


class Split(Contract):
    base = 'spec::split'

    def entry(self, ex, f):
        st = State()
        self.v = Ptr(Obj('list', 24))
        self.s = text(ex, st, 'list')
        st.ghost['n'] = 0
        st.facts.append(pos(0) == 0)
        return st, [self.v, Ptr(CStr(self.s))]

    def loop(self, ex, s0):
        return SplitInv(self, s0)

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'splitting a list does not throw')
        n = iv(st.ghost['n'])
        ex.prove(st, z3.And(n >= 1, iv(models.vec_len(ex, st, self.v)) == n, nxt(self.s, pos(n - 1)) == L(self.s)), 'the list is split to its end')


class SplitInv:
    """the next element starts where element n does; there is one before the end"""

    def __init__(self, c, s0):
        self.c, self.s0, self.loc, self.vec = c, s0, None, []

    def formula(self, ex, st):
        c, n = self.c, iv(st.ghost['n'])
        r = [n >= 0, at(ex.getloc(st, self.loc)) == pos(n), z3.And(pos(n) >= 0, z3.Or(n == 0, pos(n) < L(c.s)))]
        return r + [iv(models.vec_len(ex, st, c.v)) == n]

    def assume(self, ex, st):
        ls = [l for l in ex.locs(self.s0, st) if l[0] == 'cell' and isinstance(ex.getloc(st, l), Ptr) and isinstance(ex.getloc(st, l).base, CStr) and ex.getloc(st, l).base.seq.eq(self.c.s)]
        if len(ls) > 1:        # the one that was there before the loop
            ls = [l for l in ls if isinstance(ex.getloc(self.s0, l), Ptr)]
        if len(ls) != 1:
            return
        self.loc = ls[0]
        st.facts += self.formula(ex, st)
        self.m = pos(iv(st.ghost['n']))

    def check(self, ex, st, which, hdr=None):
        if self.loc is None:
            raise Unsupported('loop over the elements')
        for k, g in enumerate(self.formula(ex, st)):
            ex.prove(st, g, 'elements: loop invariant %d %s' % (k, which))
        if which != 'init':
            ex.prove(st, at(ex.getloc(st, self.loc)) > self.m, 'splitting a list ends')


def m_push(ex, st, a, n):
    c = ex.verifying
    if not isinstance(c, Split):
        return NotImplemented
    k = iv(st.ghost['n'])
    ex.prove(st, ex.gload(st, a[1], 'path') == out(c.s, pos(k), end(c.s, pos(k))), 'element k is the text of token k')
    st.facts.append(pos(k + 1) == nxt(c.s, pos(k)))
    st.ghost['n'] = k + 1
    ex.gstore(st, a[0], 'len', add(models.vec_len(ex, st, a[0]), 1))
    return a[0]


MODELS.append((re.compile(r'std::vector::(push_back|emplace_back)'), m_push))


# ---------------------------------------------------------------------------------------------- options
less = z3.Function('seq.less', SEQ, SEQ, B)


def pre(s, n):
    return z3.SubSeq(s, 0, n)


def total(a, b):
    return z3.And(z3.Or(less(a, b), a == b, less(b, a)), z3.Not(z3.And(less(a, b), less(b, a))), z3.Not(less(a, a)), z3.Not(less(b, b)))


def trans(a, b, c):
    return z3.Implies(z3.And(less(a, b), less(b, c)), less(a, c))


def prefixes(a, b, n):
    """lexicographic order and prefixes of length n"""
    return z3.And(z3.Implies(less(a, b), z3.Not(less(pre(b, n), pre(a, n)))), z3.Not(less(a, pre(a, n))), z3.Not(less(b, pre(b, n))))


def order(n, *xs):
    """the instances of the axioms of the lexicographic order for some texts and their prefixes"""
    ps = [pre(x, n) for x in xs]
    al = list(xs) + ps
    r = [total(a, b) for k, a in enumerate(al) for b in al[:k]]
    r += [trans(a, b, c) for a in al for b in al for c in al if not (a.eq(b) or b.eq(c) or a.eq(c))]
    return r + [prefixes(a, b, n) for a in xs for b in xs if not a.eq(b)]


class Collect(Contract):
    base = 'Maike::CmdLineParser::detail::collect_options'

    def entry(self, ex, f):
        st = State()
        r = [ex.fresh(n, INT, (1, 2 ** 40)) for n in ('argv', 'options')]
        for x in r:
            ex.assume_range(st, x, (1, 2 ** 40))
        self.argv, self.tab = r
        self.n, self.m = ex.fresh('argc', INT, (0, 2 ** 31)), ex.fresh('options.n', INT, (0, 2 ** 31))
        for x in (self.n, self.m):
            ex.assume_range(st, x, (0, 2 ** 31))
        self.tuple = Ptr(Obj('values', None, fresh=False))
        self.p = iv(0)
        self.heap0 = st
        self.cnt = z3.Function('nonempty', INT, INT)
        st.facts.append(self.cnt(0) == 0)
        st.ghost.update(n=0, acc=0)
        return st, [Ptr(self.argv, 0, 8, 0), Ptr(self.argv, 0, 8, self.n), Ptr(self.tab, 0, 16, 0), Ptr(self.tab, 0, 16, self.m), self.tuple]

    def name(self, ex, i):
        return ex.fun('cstr.at0', INT, SEQ)(self.cell(ex, self.tab, 16, 0, i))

    def conv(self, ex, i):
        return self.cell(ex, self.tab, 16, 8, i)

    def arg(self, ex, k):
        return ex.fun('cstr.at0', INT, SEQ)(self.cell(ex, self.argv, 8, 0, k))

    def sorted(self, ex, i, j):
        """the table is ordered by name"""
        return z3.Implies(z3.And(i >= 0, i < j, j < self.m), less(self.name(ex, i), self.name(ex, j)))

    def known(self, ex, st, s, e, i):
        """what the search result r says about an option i"""
        r, x = st.ghost['found'], pre(s, e)
        return order(e, x, self.name(ex, r), self.name(ex, i)) + [pre(x, e) == x, self.sorted(ex, i, r), self.sorted(ex, r, i),
                     z3.Implies(z3.And(i >= 0, i < r), less(pre(self.name(ex, i), e), x))]

    def cell(self, ex, base, stride, off, i):
        return z3.Select(z3.Select(ex.heap_arr(self.heap0, (stride, off, 'ptr')), base), i)

    def loaded(self, ex, st, p, v):
        if isz(p.base) and (p.base.eq(self.argv) or p.base.eq(self.tab) and p.s == 16 and p.c == 0) and not v.isnull() and isz(v.base):
            return Ptr(CStr(ex.fun('cstr.at0', INT, SEQ)(v.base)))
        return v

    def split(self, ex, st):
        """the position of the first '=' of the current argument (or its end)"""
        s = self.arg(ex, self.p)
        e = ex.fun('text.eq', SEQ, INT)(s)
        j = z3.Int('j')
        st.facts.append(z3.And(e >= 0, e <= L(s), z3.Or(e == L(s), s[e] == 61), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < e), s[j] != 61))))
        return s, e

    def loop(self, ex, s0):
        return None if s0.ghost.get('in') else ArgsInv(self, s0)

    def indirect(self, ex, st, t, d, regs):
        c = self

        class Converter:
            def call(self, ex, st, a, target):
                s, e = c.split(ex, st)
                ex.prove(st, L(s) > 0, 'empty arguments are skipped')
                ex.prove(st, iv(st.ghost['n']) == c.cnt(c.p), 'an argument is used once')
                ex.prove(st, ex.ptr_eq(st, a[0], c.tuple), 'the option is stored in the values given')
                ex.prove(st, models.cstr_seq(ex, st, a[1]) == z3.If(e == L(s), EMPTY, z3.SubSeq(s, e + 1, L(s) - e - 1)), 'an option receives exactly the text after the first =')
                r = st.ghost.get('found')
                if r is None or not isz(t.base):
                    raise Unsupported('option without a search')
                i = ex.fresh('i', INT)
                x = pre(s, e)
                f = c.known(ex, st, s, e, i)
                ex.prove(st, z3.And(t.base == c.conv(ex, r), r >= 0, r < c.m, pre(c.name(ex, r), e) == x), 'the option used has the name given, or a name it begins', extra=f)
                ex.prove(st, z3.Implies(z3.And(i >= 0, i < c.m, c.name(ex, i) == x), t.base == c.conv(ex, i)), 'a complete option name selects its option', extra=f)
                s2 = st.copy()
                s2.ghost['convthrow'] = True
                v = ex.fresh('set', INT, (0, 2 ** 64 - 1))
                ex.assume_range(st, v, (0, 2 ** 64 - 1))
                st.ghost['n'] = iv(st.ghost['n']) + 1
                st.ghost['acc'] = ex.binop(st, 'or', ir.Ty('int', 64), st.ghost['acc'], v)
                return ret(st, v) + models.throw(s2)
        return Converter()

    def post(self, ex, st, o, a):
        if o[0] == 'ret':
            ex.prove(st, iv(o[1]) == iv(st.ghost['acc']), 'the options set are the ones given')
            ex.prove(st, z3.And(iv(st.ghost['n']) == self.cnt(self.n)), 'every argument that is not empty is used')
        elif not st.ghost.get('convthrow'):
            s, e = self.split(ex, st)
            i = ex.fresh('i', INT)
            r = st.ghost.get('found')
            if r is None:
                raise Unsupported('error without a search')
            x = pre(s, e)
            f = self.known(ex, st, s, e, i)
            ex.prove(st, z3.And(L(s) > 0, self.p < self.n), 'only an argument is an error')
            ex.prove(st, z3.Implies(z3.And(i >= 0, i < self.m), self.name(ex, i) != x), 'an option of the table is not an error', extra=f)


class ArgsInv:
    def __init__(self, c, s0):
        self.c, self.s0, self.loc, self.acc = c, s0, None, None

    def formula(self, ex, st):
        c, p = self.c, iv(ex.getloc(st, self.loc).i)
        r = [z3.And(p >= 0, p <= c.n), iv(st.ghost['n']) == c.cnt(p)]
        if self.acc is not None:
            r.append(iv(ex.getloc(st, self.acc)) == iv(st.ghost['acc']))
        return r

    def find(self, ex, st):
        for l in ex.locs(self.s0, st):
            v, v0 = ex.getloc(st, l), ex.getloc(self.s0, l)
            if l[0] == 'cell' and isinstance(v, Ptr) and isz(v.base) and v.base.eq(self.c.argv) and v.s == 8:
                self.loc = l
            elif l[0] == 'cell' and not isz(v0) and not isinstance(v0, Ptr) and isinstance(v0, int) and v0 == 0 and isz(v) and z3.is_int(v):
                self.acc = l

    def assume(self, ex, st):
        self.loc = self.acc = None
        self.find(ex, st)
        if self.loc is None:
            return
        st.ghost['in'] = True
        st.ghost.pop('found', None)
        st.facts += self.formula(ex, st)
        c = self.c
        c.p = iv(ex.getloc(st, self.loc).i)
        st.facts.append(c.cnt(c.p + 1) == c.cnt(c.p) + z3.If(L(c.arg(ex, c.p)) == 0, 0, 1))

    def check(self, ex, st, which, hdr=None):
        if self.loc is None:
            if st.ghost['n'] is not self.s0.ghost['n']:
                raise Unsupported('loop over the arguments')
            return
        st.ghost.pop('found', None)
        for k, g in enumerate(self.formula(ex, st)):
            ex.prove(st, g, 'arguments: loop invariant %d %s' % (k, which))


def m_lower(ex, st, a, n):
    """std::lower_bound, under its precondition; the comparison is evaluated at every position"""
    c = ex.verifying
    if not isinstance(c, Collect) or len(a) != 4:
        return NotImplemented
    d = ex.mod.demangled(n)
    fs = [f for f in ex.mod.funcs.values() if f.lines is not None and ex.basename(f.name).endswith('CompareOptItemsByName::operator()') and 'OptItem const&, char const*)' in ex.mod.demangled(f.name)]
    if 'CompareOptItemsByName' not in d or len(fs) != 1 or not (isz(a[0].base) and a[0].base.eq(c.tab) and isz(a[1].base) and a[1].base.eq(c.tab)):
        return NotImplemented
    ex.prove(st, z3.And(at(a[0]) == 0, at(a[1]) == 16 * c.m), 'the whole table is searched')
    cmp = a[3]
    if not isinstance(cmp, Ptr):
        o = Ptr(Obj('cmp', 8))
        ex.store(st, o, cmp.v[0] if isinstance(cmp, Agg) else cmp, ir.Ty('int', 64))
        cmp = o
    s, e = c.split(ex, st)
    x = pre(s, e)
    n = iv(ex.load(st, cmp, ir.Ty('int', 64)))
    ex.prove(st, n == e, 'the name is the text before the first =')
    st.facts.append(n == e)
    i, j = ex.fresh('i', INT), ex.fresh('j', INT)
    s2 = st.copy()
    s2.pc.append(z3.And(i >= 0, i < c.m))
    for s3, o in ex.run_func(s2, fs[0], [cmp, Ptr(c.tab, 0, 16, i), ex.load(st, a[2], ir.PTR)]):
        if o[0] != 'ret':
            raise Unsupported('comparison throws')
        ex.prove(s3, bv(ex.to_bool(o[1])) == less(pre(c.name(ex, i), e), x), 'options are compared by as many characters as the name has')
    st2 = st.copy()
    ex.prove(st2, z3.Implies(z3.And(i >= 0, i < j, j < c.m, less(pre(c.name(ex, j), e), x)), less(pre(c.name(ex, i), e), x)), 'the table is ordered for the search', extra=order(e, x, c.name(ex, i), c.name(ex, j)) + [c.sorted(ex, i, j)])
    r = ex.fresh('found', INT, (0, 2 ** 31))
    st.facts += [z3.And(r >= 0, r <= c.m), z3.Implies(r < c.m, z3.Not(less(pre(c.name(ex, r), e), x)))]
    st.ghost['found'] = r
    return Ptr(c.tab, 0, 16, r)


MODELS.append((re.compile(r'std::lower_bound'), m_lower))


def run(S):
    mod = S.module([DRV] + SRC, extra=['-fno-access-control'])
    tok = Token()
    for c in (tok, Split()):
        ex = S.exec(mod, [tok], {'invariant': lambda ex, s0, r0, f, h: ex.verifying.loop(ex, s0)}, models_extra=MODELS)
        S.check(ex, c)
    col = Collect()
    ex = S.exec(mod, [], {'invariant': lambda ex, s0, r0, f, h: ex.verifying.loop(ex, s0), 'uf_bits': 1, 'abstract_seq': 1, 'loaded': col.loaded, 'indirect': col.indirect}, models_extra=MODELS)
    S.check(ex, col)
