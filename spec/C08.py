"""C08: buffered reading and writing neither loses, reorders nor invents bytes.

The source is a stream B(0), B(1), ... of which `pos` bytes have been handed out; a read gives any number of the next bytes, or 0,
or -1.  The sink has taken `w` bytes; the bytes put into the writer are P(0), P(1), ..., `np` of them so far."""
from spec import *
from models import ret, vec_len, vec_data

DRV = os.path.join(os.path.dirname(__file__), 'C08.drv.cpp')
ASSUMPTIONS = ['the source keeps its promise: it fills the first n bytes of the buffer and returns n (at most what was asked for), 0 or -1',
               'the sink takes all bytes it is given', 'Capacity = 4096, the only capacity the product uses; others are covered by the bounded replay',
               'a stream has fewer than 2^62 bytes']
B = z3.Function('B', INT, INT)
P = z3.Function('P', INT, INT)
j = z3.Int('j')
U64 = ir.I64
BIG = 2 ** 62


def rng(st, v, lo, hi):
    st.pc += [v >= lo, v <= hi]
    return v


def fill(ex, st, p, n, f):
    """the n bytes at p become f(0), ..., f(n-1)"""
    q = Ptr(p.base, p.c, 1, p.i if p.s == 1 else 0)
    start, rg = ex.region_of(st, p.base, q)
    b = iv(add(q.i, p.c - start))
    arr = ex.fresh('mem', z3.ArraySort(INT, INT))
    ex.rg.arr[arr.decl().name()] = (0, 255)
    st.facts.append(z3.ForAll([j], z3.Select(arr, j) == z3.If(z3.And(j >= b, j < b + n), f(j - b), z3.Select(rg.arr, j)),
                              patterns=[z3.Select(arr, j)]))
    st.o(p.base).regs[start] = Region(1, arr, rg.n)


def m_read(ex, st, a, n):
    g = st.ghost
    if g.get('mode') == 'pass':
        v = ex.fresh('got', INT, (0, 2 ** 64 - 1))
        ex.assume_range(st, v, (0, 2 ** 64 - 1))
        g['calls'] = g['calls'] + [tuple(a) + (v,)]
        return v
    ex.prove(st, ex.ptr_eq(st, a[0], g['src']), 'the buffer reads from its source')
    lo = ex.ptr_diff(a[1], g['buf'])
    ex.prove(st, z3.And(iv(lo) >= 0, iv(lo) + iv(a[2]) <= g['cap'], iv(a[2]) > 0), 'a read stays inside the buffer and asks for something')
    k = ex.fresh('n', INT, (0, None))
    out = []
    s2 = st.copy()
    st.pc += [k >= 0, k <= iv(a[2])]
    pos = g['pos']
    fill(ex, st, a[1], k, lambda i: B(pos + i))
    st.ghost = dict(st.ghost, pos=pos + k, end=z3.Or(g['end'], k == 0), reads=g['reads'] + 1)
    s2.ghost = dict(s2.ghost, end=z3.BoolVal(True), reads=g['reads'] + 1)
    return [(st, ('ret', k)), (s2, ('ret', 2 ** 64 - 1))]


def m_write(ex, st, a, n):
    g = st.ghost
    if g.get('mode') == 'pass':
        g['calls'] = g['calls'] + [tuple(a)]
        return ret(st)
    ex.prove(st, ex.ptr_eq(st, a[0], g['snk']), 'the buffer writes to its sink')
    rd = ex.byte_reader(st, a[1])
    ex.prove(st, z3.And(iv(a[2]) >= 0, iv(a[2]) <= g['np'] - g['w']), 'no more bytes are written than were put in')
    ex.prove(st, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < iv(a[2])), rd(j) == P(g['w'] + j))), 'the bytes written are the next ones put in, in order')
    st.ghost = dict(g, w=g['w'] + iv(a[2]))
    return ret(st)


class In(Contract):
    base = 'spec::ib_getchar'

    def entry(self, ex, f):
        st = State()
        self.o = Ptr(Obj('inbuf', None, fresh=False))
        self.cap = acc(ex, st, 'spec::ib_cap', [self.o])
        self.buf = acc(ex, st, 'spec::ib_buf', [self.o])
        ex.mkregion(st, self.o.base, self.buf.c, 1, self.cap)
        self.pos = rng(st, ex.fresh('pos', INT, (0, BIG)), 0, BIG)
        if self.null:
            acc(ex, st, 'spec::ib_empty', [self.o])
            self.av = z3.IntVal(0)
        else:
            a, e = ex.fresh('a', INT, (0, self.cap)), ex.fresh('e', INT, (0, self.cap))
            st.pc += [0 <= a, a <= e, e <= self.cap]
            acc(ex, st, 'spec::ib_state', [self.o, a, e])
            self.av = e - a
            st.pc.append(self.pos >= self.av)
            self.inv(ex, st, a, e, self.pos, True)
        st.facts.append(z3.ForAll([j], z3.And(B(j) >= 0, B(j) <= 255), patterns=[B(j)]))
        st.ghost.update(src=acc(ex, st, 'spec::ib_src', [self.o]), buf=self.buf, cap=self.cap, pos=self.pos, end=z3.BoolVal(False), reads=z3.IntVal(0))
        return st, [self.o]

    def inv(self, ex, st, a, e, pos, assume):
        rd = ex.byte_reader(st, self.buf)
        f = z3.ForAll([j], z3.Implies(z3.And(j >= iv(a), j < iv(e)), rd(j) == B(pos - (iv(e) - iv(a)) + (j - iv(a)))), patterns=[rd(j)])
        if assume:
            st.facts.append(f)
        else:
            ex.prove(st, f, 'what is left in the buffer is what the source gave, in order')

    def post(self, ex, st, o, args):
        ex.prove(st, o[0] == 'ret', 'getchar does not throw')
        if o[0] != 'ret':
            return
        g = st.ghost
        pos = g['pos']
        n1 = ex.to_bool(acc(ex, st, 'spec::ib_null', [self.o]))
        if n1 is True:
            ex.prove(st, ex.to_bool(acc(ex, st, 'spec::ib_null_end', [self.o])) is True, 'both ends are set together')
            av = z3.IntVal(0)
        else:
            a, e = iv(acc(ex, st, 'spec::ib_a', [self.o])), iv(acc(ex, st, 'spec::ib_e', [self.o]))
            ex.prove(st, z3.And(0 <= a, a <= e, e <= self.cap), 'the read position stays inside what was read')
            self.inv(ex, st, a, e, pos, False)
            av = e - a
        c0, c1 = self.pos - self.av, pos - av
        r = iv(o[1])
        eof = 2 ** 32 - 1
        ex.prove(st, z3.Or(r == eof, z3.And(r == B(c0), c1 == c0 + 1)), 'getchar: the next byte of the source, as 0 to 255, and only that one is taken')
        ex.prove(st, z3.Implies(r == eof, z3.And(c1 == c0, self.av == 0, g['end'])), 'getchar: end of input only when everything was delivered and the source reports end or an error')
        ex.prove(st, z3.Implies(self.av > 0, g['reads'] == 0), 'getchar: nothing is read while bytes are left')
        ex.prove(st, z3.Implies(self.av == 0, g['reads'] >= 1), 'getchar: the source is asked when nothing is left')


class InMake(Contract):
    base = 'spec::ib_make'

    def entry(self, ex, f):
        st = State()
        self.o = Ptr(Obj('inbuf', None))
        st.ghost.update(mode='pass', calls=[])
        return st, [self.o, 7]

    def post(self, ex, st, o, args):
        ex.prove(st, o[0] == 'ret', 'constructor does not throw')
        n = ex.to_bool(acc(ex, st, 'spec::ib_null', [self.o]))
        e = ex.to_bool(acc(ex, st, 'spec::ib_null_end', [self.o]))
        ok = n is True and e is True
        if not ok:
            a, e = iv(acc(ex, st, 'spec::ib_a', [self.o])), iv(acc(ex, st, 'spec::ib_e', [self.o]))
            ok = z3.And(a == e, a >= 0, a <= 4096)
        ex.prove(st, ok, 'a new reader holds no bytes')
        ex.prove(st, len(st.ghost['calls']) == 0, 'a new reader has read nothing')


class Out(Contract):
    def __init__(self, base, put=False, done=False):
        self.base, self.put, self.done = base, put, done

    def entry(self, ex, f):
        st = State()
        self.o = Ptr(Obj('outbuf', None, fresh=False))
        self.cap = acc(ex, st, 'spec::ob_cap', [self.o])
        self.buf = acc(ex, st, 'spec::ob_buf', [self.o])
        ex.mkregion(st, self.o.base, self.buf.c, 1, self.cap)
        e = ex.fresh('e', INT, (0, self.cap))
        w = ex.fresh('w', INT, (0, BIG))
        st.pc += [0 <= e, e <= self.cap, 0 <= w, w <= BIG]
        acc(ex, st, 'spec::ob_state', [self.o, e])
        rd = ex.byte_reader(st, self.buf)
        st.facts.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < e), rd(j) == P(w + j)), patterns=[rd(j)]))
        st.ghost.update(w=w, np=w + e, snk=acc(ex, st, 'spec::ob_snk', [self.o]))
        self.np = w + e
        args = [self.o]
        if self.put:
            x = ex.fresh('byte', INT, (0, 255))
            ex.assume_range(st, x, (0, 255))
            st.facts.append(P(self.np) == x)
            args.append(x)
        return st, args

    def post(self, ex, st, o, args):
        ex.prove(st, o[0] == 'ret', 'does not throw')
        if o[0] != 'ret':
            return
        w = st.ghost['w']
        np = self.np + 1 if self.put else self.np
        ex.prove(st, w <= np, 'no byte is written twice')
        if self.done:
            ex.prove(st, w == np, 'every byte put in has reached the sink')
        if self.base == 'spec::ob_destroy':
            return
        e = iv(acc(ex, st, 'spec::ob_e', [self.o]))
        rd = ex.byte_reader(st, self.buf)
        ex.prove(st, z3.And(e >= 0, e <= self.cap, w + e == np), 'exactly the bytes not yet written are in the buffer')
        ex.prove(st, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < e), rd(j) == P(w + j))), 'the buffer holds them in order')


class OutMake(Contract):
    base = 'spec::ob_make'

    def entry(self, ex, f):
        st = State()
        self.o = Ptr(Obj('outbuf', None))
        st.ghost.update(mode='pass', calls=[])
        return st, [self.o, 7]

    def post(self, ex, st, o, args):
        ex.prove(st, o[0] == 'ret' and eq(acc(ex, st, 'spec::ob_e', [self.o]), 0), 'a new writer holds no bytes')
        ex.prove(st, len(st.ghost['calls']) == 0, 'a new writer has written nothing')


class Pass(Contract):
    def __init__(self, base, rd):
        self.base, self.rd = base, rd

    def entry(self, ex, f):
        st = State()
        n = ex.fresh('n', INT, (0, 2 ** 64 - 1))
        ex.assume_range(st, n, (0, 2 ** 64 - 1))
        st.ghost.update(mode='pass', calls=[])
        return st, [Ptr(Obj('src', 4, fresh=False)), Ptr(Obj('buf', None, fresh=False)), n]

    def post(self, ex, st, o, a):
        cs = st.ghost['calls']
        ex.prove(st, o[0] == 'ret' and len(cs) == 1, 'exactly one call goes through')
        if o[0] != 'ret' or len(cs) != 1:
            return
        c = cs[0]
        ex.prove(st, conj(ex.ptr_eq(st, c[0], a[0]), ex.ptr_eq(st, c[1], a[1]), eq(c[2], a[2])), 'object, buffer and count pass through unchanged')
        if self.rd:
            ex.prove(st, eq(o[1], c[3]), 'the count comes back unchanged')


class MemIn(Contract):
    def __init__(self, base):
        self.base = base

    def entry(self, ex, f):
        st = State()
        self.o = Ptr(Obj('redir', None, fresh=False))
        self.i = Ptr(Obj('input', None, fresh=False), 0, 1, rng(st, ex.fresh('at', INT, (0, BIG)), 0, BIG))
        self.b = Ptr(Obj('buf', None, fresh=False))
        ex.mkregion(st, self.i.base, 0, 1, None)
        ex.mkregion(st, self.b.base, 0, 1, None)
        self.r = rng(st, ex.fresh('rest', INT, (0, BIG)), 0, BIG)
        self.n = rng(st, ex.fresh('n', INT, (0, BIG)), 0, BIG)
        acc(ex, st, 'spec::mr_state', [self.o, self.i, self.r])
        self.rd = ex.byte_reader(st, self.i)
        self.old = ex.byte_reader(st, self.b)
        return st, [self.o, self.b, self.n]

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'does not throw')
        if o[0] != 'ret':
            return
        k = iv(o[1])
        ex.prove(st, k == z3.If(self.n < self.r, self.n, self.r), 'input: as much as is wanted and there')
        new = ex.byte_reader(st, self.b)
        ex.prove(st, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), new(j) == self.rd(j))), 'input: the next bytes')
        ex.prove(st, z3.ForAll([j], z3.Implies(j >= k, new(j) == self.old(j))), 'input: nothing beyond them is touched')
        ex.prove(st, conj(eq(acc(ex, st, 'spec::mr_rest', [self.o]), self.r - k),
                          disj(ex.ptr_eq(st, acc(ex, st, 'spec::mr_ptr', [self.o]), Ptr(self.i.base, 0, 1, self.i.i + k)))), 'input: exactly these are used up')


def m_insert(ex, st, a, n):
    """vector<byte>::insert(end, first, last)"""
    if 'std::byte' not in ex.mod.demangled(n):
        return NotImplemented
    v = a[-4] if len(a) >= 4 else a[0]
    ln, d = iv(vec_len(ex, st, v)), vec_data(ex, st, v)
    pos = a[-3]
    if isinstance(pos, Ptr):
        p0 = ex.load(st, pos, ir.PTR) if isinstance(pos.base, Obj) and pos.s == 0 and st.ro(pos.base).cells.get(pos.c) is not None else pos
    cnt = iv(ex.ptr_diff(a[-1], a[-2]))
    at = ex.ptr_diff(p0, vec_begin(ex, st, v))
    ex.prove(st, eq(at, ln), 'appended at the end')
    rd = ex.byte_reader(st, a[-2])
    key = (1, 0, 'i8')
    h = ex.heap_arr(st, key)
    old = z3.Select(h, iv(d))
    arr = ex.fresh('vec', z3.ArraySort(INT, INT))
    st.facts.append(z3.ForAll([j], z3.Select(arr, j) == z3.If(z3.And(j >= ln, j < ln + cnt), rd(j - ln), z3.Select(old, j)), patterns=[z3.Select(arr, j)]))
    nd = ex.newref()
    st.heap[key] = z3.Store(h, iv(nd), arr)
    ex.gstore(st, v, 'data', nd)
    ex.gstore(st, v, 'len', ln + cnt)
    return ret(st, Ptr(nd, 0, 1, ln))


def vec_begin(ex, st, v):
    return Ptr(vec_data(ex, st, v), 0, 1, 0)


class MemOut(Contract):
    def __init__(self, base, which):
        self.base, self.which = base, which

    def vec(self, ex, st, w):
        return acc(ex, st, 'spec::mr_' + w, [self.o])

    def view(self, ex, st, w):
        v = self.vec(ex, st, w)
        return iv(vec_len(ex, st, v)), z3.Select(ex.heap_arr(st, (1, 0, 'i8')), iv(vec_data(ex, st, v)))

    def entry(self, ex, f):
        st = State()
        self.o = Ptr(Obj('redir', None, fresh=False))
        self.b = Ptr(Obj('buf', None, fresh=False), 0, 1, 0)
        ex.mkregion(st, self.b.base, 0, 1, None)
        self.n = rng(st, ex.fresh('n', INT, (0, BIG)), 0, BIG)
        self.pre = {w: self.view(ex, st, w) for w in ('out', 'err')}
        st.pc.append(iv(vec_data(ex, st, self.vec(ex, st, 'out'))) != iv(vec_data(ex, st, self.vec(ex, st, 'err'))))
        self.rd = ex.byte_reader(st, self.b)
        return st, [self.o, self.b, self.n]

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'does not throw')
        if o[0] != 'ret':
            return
        for w in ('out', 'err'):
            l0, a0 = self.pre[w]
            l1, a1 = self.view(ex, st, w)
            ex.prove(st, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < l0), a1[j] == a0[j])), 'std%s: what was captured before stays' % w)
            if w == self.which:
                ex.prove(st, z3.And(l1 == l0 + self.n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), a1[l0 + j] == self.rd(j)))),
                         'std%s: the bytes are appended, in order' % w)
            else:
                ex.prove(st, l1 == l0, 'std%s: nothing is added to the other stream' % w)


def run(S):
    m = S.module([DRV], extra=['-fno-access-control'])
    ex = S.exec(m, models_extra=[(re.compile(r'spec::read'), m_read), (re.compile(r'spec::write'), m_write), (re.compile(r'std::vector::insert'), m_insert)])
    S.check(ex, InMake())
    c = In()
    for c.null in (True, False):
        S.check(ex, c)
    S.check(ex, OutMake())
    for c in (Out('spec::ob_put', put=True), Out('spec::ob_putc', put=True), Out('spec::ob_flush', done=True), Out('spec::ob_destroy', done=True)):
        S.check(ex, c)
    for b in ('via_reader', 'via_reader_free'):
        S.check(ex, Pass('spec::' + b, True))
    for b in ('via_writer', 'via_writer_free', 'via_writer_char', 'via_tagged'):
        S.check(ex, Pass('spec::' + b, False))
    for b in ('mr_in', 'via_redirector'):
        S.check(ex, MemIn('spec::' + b))
    for b, w in (('mr_o', 'out'), ('mr_e', 'err'), ('via_redirector_o', 'out'), ('via_redirector_e', 'err')):
        S.check(ex, MemOut('spec::' + b, w))
