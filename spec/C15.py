"""C15: what the JSON parser is offered is the stream.

The stream is B(0), B(1), ...; `pos` bytes of it have been handed out by the buffered reader (whose contract is C08's: the next byte,
or -1 once the source has reported its end)."""
from spec import *
from models import ret, throw, vec_len, vec_data
import jansson

HERE = os.path.dirname(__file__)
DRV, DRVB = os.path.join(HERE, 'C15.drv.cpp'), os.path.join(HERE, 'C15b.drv.cpp')
ASSUMPTIONS = [
    "InputBuffer::getchar delivers the next byte, or -1 only when the source has reported its end (proved in C08)",
    "jansson's json_load_callback calls its callback until the document is complete, it sees an error, or the callback returns 0, and takes a stream of blanks for no document; its parser is not verified",
    "Exec::execve returns the captured output (C22)",
    "a stream has fewer than 2^62 bytes",
]
B = z3.Function('B', INT, INT)
J = z3.Int('j')
BIG = 2 ** 62
BYTES = z3.ForAll([J], z3.And(B(J) >= 0, B(J) <= 255), patterns=[B(J)])
MODELS = []


def model(rx):
    def deco(fn):
        MODELS.append((re.compile(rx), fn))
        return fn
    return deco


def num(ex, st, name, hi=BIG):
    v = ex.fresh(name, INT, (0, hi))
    st.pc += [v >= 0, v <= hi]
    return v


def delim(b):
    return z3.Or(b == ord('}'), b == ord(']'), b == ord(' '))


@model(r'Maike::Io::InputBuffer::getchar')
def m_getchar(ex, st, a, n):
    g = st.ghost
    if 'pos' not in g:
        return NotImplemented
    s2 = st.copy()
    s2.ghost['end'] = z3.BoolVal(True)
    v = ex.fresh('ch', INT, (0, 255))
    st.facts += [v == B(g['pos']), v >= 0, v <= 255]
    st.ghost['pos'] = g['pos'] + 1
    return ret(st, v) + ret(s2, 2 ** 32 - 1)


class Fetch(Contract):
    base = 'spec::fetch'

    def entry(self, ex, f):
        st = State()
        self.h, self.b = Ptr(Obj('helper', None, fresh=False)), Ptr(Obj('buf', None, fresh=False))
        ex.mkregion(st, self.b.base, 0, 1, None)
        self.n, self.pos = num(ex, st, 'n'), num(ex, st, 'pos')
        self.hd, self.eof = num(ex, st, 'hd', 1), num(ex, st, 'eof', 1)
        acc(ex, st, 'spec::set', [self.h, self.hd == 1, self.eof == 1])
        st.facts.append(BYTES)
        st.ghost.update(pos=self.pos, end=z3.BoolVal(False))
        self.old = ex.byte_reader(st, self.b)
        return st, [self.h, self.b, self.n]

    def loop(self, ex, s0):
        return Inv(self, s0)

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'fetch does not throw')
        if o[0] != 'ret':
            return
        q = ex.fresh('q', INT)
        r, rd, g = iv(o[1]), ex.byte_reader(st, self.b), st.ghost
        ex.prove(st, z3.And(r >= 0, r <= self.n), 'no more is offered than was asked for')
        ex.prove(st, g['pos'] == self.pos + r, 'every byte taken from the stream is offered')
        ex.prove(st, z3.Implies(z3.And(q >= 0, q < r), rd(q) == B(self.pos + q)), 'the bytes offered are the next ones of the stream, in order')
        ex.prove(st, z3.Implies(z3.Or(q < 0, q >= self.n), rd(q) == self.old(q)), 'nothing outside the buffer is touched')
        ex.prove(st, z3.Implies(z3.And(q >= 0, q < r - 1), z3.Not(delim(rd(q)))), 'nothing is offered beyond the first closing bracket or blank')
        ex.prove(st, z3.Or(r > 0, self.n == 0, g['end'], self.eof == 1), 'an empty offer means the end of the stream')
        e1 = ex.to_bool(acc(ex, st, 'spec::eof', [self.h]))
        ex.prove(st, z3.Implies(bz(e1), z3.Or(self.eof == 1, g['end'])), 'the end is remembered only when the stream has ended')
        h1 = bz(ex.to_bool(acc(ex, st, 'spec::asks_data', [self.h])))
        blank = z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < r), rd(J) <= 32))
        ex.prove(st, h1 == z3.Or(self.hd == 1, z3.Not(blank)), 'the helper knows whether anything but blanks was offered')


def bz(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


class FA:
    """for all j: f(j)"""

    def __init__(self, f):
        self.f = f

    def q(self, rd):
        return z3.ForAll([J], self.f(J), patterns=[rd(J)])


class Inv:
    """a loop that takes bytes from the stream, or one that looks at the bytes taken"""

    def __init__(self, c, s0):
        self.c, self.s0, self.ptr, self.count, self.trip = c, s0, None, None, None

    def at(self, ex, st, loc):
        v = ex.getloc(st, loc)
        return iv(v.i if v.s else 0) + v.c if isinstance(v, Ptr) else iv(v)

    def assume(self, ex, st):
        self.scan = st.ghost['pos'] is self.s0.ghost['pos'] or st.ghost['pos'].eq(self.s0.ghost['pos'])
        self.ptr = self.count = self.trip = None
        for l in ex.locs(self.s0, st):
            if l[0] != 'cell':
                continue
            v = ex.getloc(st, l)
            if isinstance(v, Ptr):
                if v.base is self.c.b.base:
                    self.ptr = l
            elif isz(v) and z3.is_int(v):
                v0 = ex.getloc(self.s0, l)
                if self.scan:
                    self.trip = l
                elif not isz(v0) and v0 == 0:
                    self.count = l
        if self.known():
            rd = ex.byte_reader(st, self.c.b)
            st.facts += [f.q(rd) if isinstance(f, FA) else f for f in self.formula(ex, st)]

    def known(self):
        return self.ptr is not None if self.scan else self.ptr is not None or self.count is not None

    def formula(self, ex, st):
        c, rd = self.c, ex.byte_reader(st, self.c.b)
        p = self.at(ex, st, self.ptr or self.count)
        if self.scan:
            k = st.ghost['pos'] - c.pos
            f = [p >= 0, p <= k, FA(lambda j: z3.Implies(z3.And(j >= 0, j < p), rd(j) <= 32))]
            if self.trip is not None:
                t = self.at(ex, st, self.trip)
                f.append(z3.And(t >= 0, t < 2 ** 62, p + 4 * t <= k, k - p - 4 * t < 4))
            return f
        f = [z3.And(p >= 0, p <= c.n), st.ghost['pos'] == c.pos + p,
             FA(lambda j: z3.Implies(z3.And(j >= 0, j < p), z3.And(rd(j) == B(c.pos + j), z3.Not(delim(rd(j)))))),
             FA(lambda j: z3.Implies(z3.Or(j < 0, j >= p), rd(j) == c.old(j))),
             z3.Not(st.ghost['end'])]
        if self.ptr is not None and self.count is not None:
            f.append(p == self.at(ex, st, self.count))
        return f

    def check(self, ex, st, which, hdr=None):
        if not self.known():
            raise Unsupported('unknown loop')
        for k, g in enumerate(self.formula(ex, st)):
            ex.prove(st, g.f(ex.fresh('q', INT)) if isinstance(g, FA) else g, 'loop invariant %d %s' % (k, which))


# ---------------------------------------------------------------------------------------------- jsonLoad
class Make(Contract):
    """a new helper reads from the reader it was given and has seen nothing"""
    base = 'spec::make_helper'

    def entry(self, ex, f):
        st = State()
        self.h, r, self.src = Ptr(Obj('helper', None)), Ptr(Obj('reader', None)), Ptr(Obj('src', 4, fresh=False))
        acc(ex, st, 'spec::make_reader', [r, self.src])
        return st, [self.h, r]

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'does not throw')
        ex.prove(st, ex.ptr_eq(st, acc(ex, st, 'spec::source', [self.h]), self.src), 'the helper reads from the source it was given')
        ex.prove(st, neg(ex.to_bool(acc(ex, st, 'spec::asks_data', [self.h]))), 'a new helper has seen nothing')
        ex.prove(st, neg(ex.to_bool(acc(ex, st, 'spec::eof', [self.h]))), 'a new helper is not at the end')


class Load(Contract):
    """jsonLoad: an error if the parser gives none and something but blanks was offered"""
    base = 'Maike::KeyValueStore::jsonLoad'
    sig = re.compile(r'jsonLoad\(Maike::Io::Reader')

    def entry(self, ex, f):
        st = State()
        self.out, self.r, self.src = Ptr(Obj('out', None)), Ptr(Obj('reader', None)), Ptr(Obj('src', 4, fresh=False))
        acc(ex, st, 'spec::make_reader', [self.r, self.src])
        st.ghost.update(loads=0, hd=None, doc=None)
        n = ex.fresh('name', SEQ)
        return st, [self.out, self.r, z3.Length(n), Ptr(CStr(n))]

    def parse(self, ex, st, a):
        cb, data = a[0], a[1]
        ex.prove(st, st.ghost['loads'] == 0, 'the stream is parsed once')
        ex.prove(st, ex.ptr_eq(st, acc(ex, st, 'spec::source', [data]), self.src), 'the parser reads from the stream that was given')
        ex.prove(st, neg(ex.to_bool(acc(ex, st, 'spec::asks_data', [data]))), 'nothing was offered before')
        ex.prove(st, eq(a[2], JSON_FLAGS), 'the parser takes one document of any kind, without duplicate keys')
        # the callback is fetch
        s = st.copy()
        s.ghost['cb'] = None
        b, n = Ptr(Obj('jbuf', None, fresh=False)), num(ex, s, 'n')
        if not isinstance(cb, Fn) or cb.name not in ex.mod.funcs:
            raise Unsupported('callback')
        for s2, o in ex.run_func(s, ex.mod.funcs[cb.name], [b, n, data]):
            c = s2.ghost['cb']
            ex.prove(s2, o[0] == 'ret' and c is not None, 'the parser is served by the helper')
            if o[0] == 'ret' and c is not None:
                ex.prove(s2, conj(ex.ptr_eq(s2, c[0], data), ex.ptr_eq(s2, c[1], b), eq(c[2], n), eq(o[1], c[3])), 'buffer, size and count pass through unchanged')
        hd = num(ex, st, 'hd', 1)
        st.ghost.update(loads=1, hd=hd)
        acc(ex, st, 'spec::set', [data, hd == 1, acc(ex, st, 'spec::eof', [data])])
        doc = ex.fresh('doc', INT, (0, None))
        st.facts.append(doc >= 1)
        s2 = st.copy()
        st.ghost['doc'], s2.ghost['doc'] = doc, z3.IntVal(0)
        return ret(st, jansson.ptr(ex, st, doc)) + ret(s2, jansson.NULL_PTR)

    def post(self, ex, st, o, a):
        g = st.ghost
        ex.prove(st, g['loads'] == 1, 'the stream is parsed')
        if g['loads'] != 1:
            return
        if o[0] == 'exc':
            return ex.prove(st, z3.And(g['doc'] == 0, g['hd'] == 1), 'an error only when there is something, but no document')
        ex.prove(st, z3.Or(g['doc'] != 0, g['hd'] == 0), 'broken input is an error; only a stream of blanks is empty')
        ex.prove(st, jansson.handle(ex, st, acc(ex, st, 'spec::handle', [self.out])) == g['doc'], 'the result is the document')


JSON_FLAGS = 0x2 | 0x4 | 0x1  # JSON_DISABLE_EOF_CHECK | JSON_DECODE_ANY | JSON_REJECT_DUPLICATES


@model(r'json_load_callback')
def m_load(ex, st, a, n):
    return ex.verifying.parse(ex, st, a) if isinstance(ex.verifying, Load) else NotImplemented


@model(r'{anon}::ReadHelper::fetch')
def m_fetch(ex, st, a, n):
    if not isinstance(ex.verifying, Load):
        return NotImplemented
    r = num(ex, st, 'got')
    st.ghost['cb'] = tuple(a) + (r,)
    return r


@model(r'{anon}::DecodeError::.*')
def m_err(ex, st, a, n):
    return None


# ---------------------------------------------------------------------------------------------- Compound
class Comp(Contract):
    """a configuration is the document, which must be an object, or empty"""

    def __init__(self, base):
        self.base = base

    def entry(self, ex, f):
        st = State()
        self.out, self.src = Ptr(Obj('out', None)), Ptr(Obj('src', None, fresh=False))
        st.ghost.update(loads=0, doc=None, none=None, new=None)
        if 'reader' in self.base:
            self.src = Ptr(Obj('src', 4, fresh=False))
            r = Ptr(Obj('reader', None))
            acc(ex, st, 'spec::make_reader', [r, self.src])
            return st, [self.out, r]
        return st, [self.out, self.src]

    def load(self, ex, st, a):
        ex.prove(st, st.ghost['loads'] == 0, 'the stream is loaded once')
        ex.prove(st, ex.ptr_eq(st, acc(ex, st, 'spec::reader_source', [a[1]]), self.src), 'what is loaded is the stream that was given')
        out = []
        s3 = st.copy()
        doc = ex.fresh('doc', INT, (0, None))
        st.facts.append(doc >= 1)
        for s, d in ((st, doc), (st.copy(), None)):
            acc(ex, s, 'spec::handle_make', [a[0], jansson.ptr(ex, s, d) if d is not None else jansson.NULL_PTR])
            s.ghost.update(loads=1, doc=d, none=d is None)
            out += ret(s)
        s3.ghost.update(loads=1, doc='error')
        return out + throw(s3)

    def post(self, ex, st, o, a):
        g = st.ghost
        ex.prove(st, g['loads'] == 1, 'the stream is loaded')
        if g['loads'] != 1 or isinstance(g['doc'], str):
            return ex.prove(st, o[0] == 'exc', 'broken input is an error')
        if g['none']:
            ex.prove(st, o[0] == 'ret', 'an empty stream is no error')
            if o[0] == 'ret':
                h = jansson.handle(ex, st, acc(ex, st, 'spec::compound_handle', [self.out]))
                ex.prove(st, g['new'] is not None and h == g['new'], 'an empty stream gives an empty configuration')
            return
        obj = jansson.jt(ex, g['doc']) == jansson.OBJECT
        if o[0] == 'exc':
            return ex.prove(st, z3.Not(obj), 'an object is a configuration')
        ex.prove(st, obj, 'only an object is a configuration')
        ex.prove(st, jansson.handle(ex, st, acc(ex, st, 'spec::compound_handle', [self.out])) == g['doc'], 'the configuration is the document')


@model(r'Maike::KeyValueStore::jsonLoad')
def m_jload(ex, st, a, n):
    c = ex.verifying
    if isinstance(c, (Comp, Recipe)) and 'jsonLoad(Maike::Io::Reader' in ex.mod.demangled(n):
        return c.load(ex, st, a)
    return NotImplemented


@model(r'json_object$')
def m_object(ex, st, a, n):
    r = z3.IntVal(ex.newref())
    st.facts.append(jansson.jlen(ex, r) == 0)
    st.ghost['new'] = r
    return jansson.ptr(ex, st, r)


# ---------------------------------------------------------------------------------------------- captured output
class Captured(Contract):
    """reading from captured output: the next bytes, as many as are wanted and there"""
    base = 'spec::read_buffer'

    def entry(self, ex, f):
        st = State()
        self.o, self.v, self.b = Ptr(Obj('reader', None)), Ptr(Obj('vec', 24, fresh=False)), Ptr(Obj('buf', None, fresh=False))
        ex.mkregion(st, self.b.base, 0, 1, None)
        self.len = num(ex, st, 'len')
        self.at = num(ex, st, 'at')
        self.n = num(ex, st, 'n')
        d = ex.fresh('data', INT)
        st.pc += [self.at <= self.len, d >= 1]
        ex.gstore(st, self.v, 'len', self.len)
        ex.gstore(st, self.v, 'data', d)
        acc(ex, st, 'spec::make', [self.o, self.v, self.at])
        self.src = z3.Select(ex.heap_arr(st, (1, 0, 'i8')), d)
        self.old = ex.byte_reader(st, self.b)
        return st, [self.o, self.b, self.n]

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'does not throw')
        if o[0] != 'ret':
            return
        r, q, rd = iv(o[1]), ex.fresh('q', INT), ex.byte_reader(st, self.b)
        left = self.len - self.at
        ex.prove(st, z3.And(r >= 0, r <= self.n, r <= left, z3.Or(r > 0, self.n == 0, left == 0)), 'captured output: something, when it is wanted and there')
        ex.prove(st, z3.Implies(z3.And(q >= 0, q < r), rd(q) == z3.Select(self.src, self.at + q)), 'captured output: the next bytes, in order')
        ex.prove(st, z3.Implies(z3.Or(q < 0, q >= self.n), rd(q) == self.old(q)), 'captured output: nothing outside the buffer is touched')
        ex.prove(st, eq(acc(ex, st, 'spec::at', [self.o]), self.at + r), 'captured output: exactly these are used up')


class Recipe(Contract):
    """configRecipe and getTags: what the recipe printed is what is read"""

    def __init__(self, base):
        self.base, self.tags = base, 'getTags' in base

    def entry(self, ex, f):
        st = State()
        self.c, self.src, self.out = Ptr(Obj('compiler', None, fresh=False)), Ptr(Obj('src', 40, fresh=False)), Ptr(Obj('out', None))
        self.rec, self.old = ex.fresh('recipe', SEQ), ex.fresh('config', INT, (1, None))
        st.facts.append(self.old >= 1)
        acc(ex, st, 'spec::compound_set', [acc(ex, st, 'spec::config', [self.c]), jansson.ptr(ex, st, self.old)])
        ex.gstore(st, acc(ex, st, 'spec::recipe', [self.c]), 'path', self.rec)
        ex.gstore(st, self.src, 'path', ex.fresh('srcname', SEQ))
        st.ghost.update(runs=0, loads=0, doc=None, new=None, failed=None, len=None)
        return st, [self.out, self.c, self.src] if self.tags else [self.c]

    def start(self, ex, st, a):
        ex.prove(st, st.ghost['runs'] == 0, 'the recipe is run once')
        r = a[0]
        s3 = st.copy()
        for w in ('out', 'err'):
            v, n, d = acc(ex, st, 'spec::' + w, [r]), num(ex, st, w), ex.fresh(w, INT)
            st.facts.append(d >= 1)
            ex.gstore(st, v, 'len', n)
            ex.gstore(st, v, 'data', d)
            st.ghost[w] = (n, d)
        sg, rc = ex.fresh_kind('signo', 'i32', st), ex.fresh_kind('code', 'i32', st)
        acc(ex, st, 'spec::res_set', [r, sg, rc])
        st.ghost.update(runs=1, failed=z3.Or(iv(sg) != 2 ** 32 - 1, iv(rc) != 0))
        s3.ghost.update(runs=1, failed=z3.BoolVal(True))
        return ret(st) + throw(s3)

    def load(self, ex, st, a):
        g = st.ghost
        ex.prove(st, g['loads'] == 0 and g['runs'] == 1, 'output is read once, after the recipe has run')
        if g['runs'] != 1:
            raise Unsupported('nothing to read')
        b = acc(ex, st, 'spec::reader_source', [a[1]])
        v = acc(ex, st, 'spec::buffer', [b])
        n, d = g['out']
        ex.prove(st, conj(eq(acc(ex, st, 'spec::at', [b]), 0), eq(vec_len(ex, st, v), n), z3.Or(iv(vec_data(ex, st, v)) == d, n == 0)), 'what is read is all that the recipe printed')
        s = st.copy()
        s.ghost['cb'] = None
        buf, k = Ptr(Obj('jbuf', None, fresh=False)), num(ex, s, 'n')
        for s2 in [s2 for s2, o in ex.run_func(s, [f for f in ex.mod.funcs.values() if f.lines is not None and ex.basename(f.name) == 'spec::reader_read'][0], [a[1], buf, k])]:
            c = s2.ghost['cb']
            ex.prove(s2, c is not None and conj(ex.ptr_eq(s2, c[0], b), ex.ptr_eq(s2, c[1], buf), eq(c[2], k)), 'what is read is read from the captured output')
        s3 = st.copy()
        out, doc = [], ex.fresh('doc', INT, (0, None))
        st.facts.append(doc >= 1)
        for s, x in ((st, doc), (st.copy(), None)):
            acc(ex, s, 'spec::handle_make', [a[0], jansson.ptr(ex, s, x) if x is not None else jansson.NULL_PTR])
            s.ghost.update(loads=1, doc=x)
            out += ret(s)
        s3.ghost.update(loads=1, doc='error')
        return out + throw(s3)

    def post(self, ex, st, o, a):
        g = st.ghost
        h = None
        if o[0] == 'ret':
            h = jansson.handle(ex, st, acc(ex, st, 'spec::compound_handle', [self.out if self.tags else acc(ex, st, 'spec::config', [self.c])]))
        if g['runs'] == 0:
            ex.prove(st, not self.tags and o[0] == 'ret' and h == self.old, 'without a recipe the configuration stays as it is')
            return
        if isinstance(g['doc'], str):
            return ex.prove(st, o[0] == 'exc', 'broken output is an error')
        if g['loads'] == 0:
            if o[0] == 'exc':
                return ex.prove(st, g['failed'], 'an error only when the recipe failed')
            ex.prove(st, z3.And(z3.Not(g['failed']), g['out'][0] == 0), 'the output of a recipe is read')
            return ex.prove(st, h == (g['new'] if self.tags else self.old), 'no output: ' + ('no tags' if self.tags else 'the configuration stays as it is'))
        ex.prove(st, z3.Not(g['failed']), 'the output of a failed recipe is not used')
        obj = g['doc'] is not None and jansson.jt(ex, g['doc']) == jansson.OBJECT
        if g['doc'] is None:
            return ex.prove(st, o[0] == 'ret' and h == g['new'], 'blank output is empty')
        if o[0] == 'exc':
            return ex.prove(st, z3.Not(obj), 'an object is taken')
        ex.prove(st, z3.And(obj, h == g['doc']), 'what the recipe printed is what is used')


def rec(ex):
    return ex.verifying if isinstance(ex.verifying, Recipe) else None


@model(r'Maike::Exec::execve')
def m_exec(ex, st, a, n):
    return rec(ex).start(ex, st, a) if rec(ex) else NotImplemented


@model(r'{anon}::read')
def m_bread(ex, st, a, n):
    if not rec(ex):
        return NotImplemented
    r = num(ex, st, 'got')
    st.ghost['cb'] = tuple(a) + (r,)
    return r


# what is sent to the recipe, and messages, are not looked at here
@model(r'Maike::KeyValueStore::store|fprintf')
def m_nothing(ex, st, a, n):
    return (0 if n == 'fprintf' else None) if rec(ex) else NotImplemented


@model(r'Maike::KeyValueStore::Compound::set')
def m_set(ex, st, a, n):
    return a[0] if rec(ex) else NotImplemented


@model(r'std::transform')
def m_transform(ex, st, a, n):
    return a[2] if rec(ex) else NotImplemented


@model(r'std::vector::(vector|~vector)')
def m_vec(ex, st, a, n):
    if rec(ex) and 'basic_string' in models.first_targ(ex.mod.demangled(n), 'std::vector'):
        return None
    return models.m_vector(ex, st, a, n)


@model(r'Maike::Exec::Result::~Result')
def m_rdtor(ex, st, a, n):
    return None if rec(ex) else NotImplemented


@model(r'Maike::(\w+::)*makeShellExecPath')
def m_shell(ex, st, a, n):
    ex.gstore(st, a[0], 'path', ex.fresh('path', SEQ))
    return None


def run(S):
    inv = {'invariant': lambda ex, s0, r0, f, h: ex.verifying.loop(ex, s0)}
    m = S.module([DRV], extra=['-fno-access-control'])
    ex = S.exec(m, models_extra=MODELS + jansson.MODELS, opts=inv)
    for c in (Fetch(), Make(), Load(), Comp('spec::compound'), Comp('spec::compound_reader')):
        S.check(ex, c)
    m = S.module([DRVB], extra=['-fno-access-control'])
    ex = S.exec(m, models_extra=MODELS + jansson.MODELS, opts=inv)
    S.check(ex, Captured())
    for c in (Recipe('spec::configure'), Recipe('Maike::Db::getTags')):
        S.check(ex, c)
