"""C13: merging configurations, key by key.

A json value is a handle with a value val(h) that does not change; the configuration being merged into is a map from keys to handles.
b's members are K(0), ..., K(m-1) with the values W(0), ..., W(m-1).  merge and cat are the values that merging two objects and
joining two arrays give: what operator|= is shown to do by this very proof (a nested merge is used by its contract)."""
from spec import *
from models import ret, throw, cstr_seq
import jansson

HERE = os.path.dirname(__file__)
DRV = os.path.join(HERE, 'C13.drv.cpp')
SRC = ['core/db/compiler.cpp']
ASSUMPTIONS = [
    "jansson: an object is a map from keys to values, an array a sequence; json_deep_copy gives a separate equal value; json_object_set_new and json_array_append_new succeed (memory never runs out)",
    "jansson's iteration visits each member of an object once",
    "the configuration merged in is not part of the one merged into",
    "termination of the nested merge: by the depth of the documents",
]
J, I = z3.Int('j'), z3.Int('i')
KEY = z3.Int('key')
MAP = z3.ArraySort(INT, INT)
SEQA = z3.ArraySort(INT, INT)
MODELS = []
OBJECT, ARRAY = jansson.OBJECT, jansson.ARRAY


def model(rx):
    def deco(fn):
        MODELS.append((re.compile(rx), fn))
        return fn
    return deco


def fv(ex, name):
    return lambda *a: ex.fun('json.' + name, *([INT] * (len(a) + 1)))(*a)


def val(ex, st, h):
    """the value of a handle"""
    for k, v in st.ghost.get('vals', ()):
        if z3.is_int_value(h) and h.as_long() == k:
            return v
    return ex.fun('json.val', INT, INT)(h)


def setval(ex, st, h, v):
    k = h.as_long()
    st.ghost['vals'] = tuple(x for x in st.ghost.get('vals', ()) if x[0] != k) + ((k, v),)


def own(st, h):
    return z3.is_int_value(h) and any(k == h.as_long() for k, _ in st.ghost.get('vals', ()))


def escape(ex, st, h):
    """the handle becomes part of another value: what it holds is fixed now"""
    if not own(st, h):
        ex.prove(st, False, 'what is stored is a copy of its own')
        return
    st.facts.append(ex.fun('json.val', INT, INT)(h) == val(ex, st, h))
    st.ghost['vals'] = tuple(x for x in st.ghost['vals'] if x[0] != h.as_long())


def copy(ex, st, h):
    n = z3.IntVal(ex.newref())
    setval(ex, st, n, val(ex, st, h))
    st.facts.append(jansson.jt(ex, n) == jansson.jt(ex, h))
    return n


def key(ex, st, p):
    """a number for a key: equal keys, equal numbers"""
    s = cstr_seq(ex, st, p)
    if z3.is_app(s) and s.decl().name() == 'json.key':
        return ex.fun('json.keyid', INT, INT)(s.arg(0))
    return ex.fun('json.code', SEQ, INT)(s)


@model(r'json_deep_copy')
def m_copy(ex, st, a, n):
    h = jansson.handle(ex, st, a[0])
    c = ex.verifying
    v = val(ex, st, h)
    if isinstance(c, Base) and h.eq(c.a):
        v = st.ghost['whole'](ex, st)
    r = z3.IntVal(ex.newref())
    setval(ex, st, r, v)
    st.facts.append(jansson.jt(ex, r) == jansson.jt(ex, h))
    return jansson.ptr(ex, st, r)


@model(r'json_object_get')
def m_get(ex, st, a, n):
    c, h = ex.verifying, jansson.handle(ex, st, a[0])
    if isinstance(c, Merge):
        k = key(ex, st, a[1])
        if h.eq(c.a):
            r = z3.Select(st.ghost['map'], k)
            st.facts.append(r >= 0)
            return jansson.ptr(ex, st, r)
        if h.eq(c.b):
            x = c.idx(ex, k)
            st.facts += c.about(ex, k)
            return jansson.ptr(ex, st, z3.If(x >= 0, c.W(ex, x), 0))
    raise Unsupported('json_object_get')


@model(r'json_object_(set_new|set|set_new_nocheck|set_nocheck)(_\w+)?$')
def m_set(ex, st, a, n):
    c, h = ex.verifying, jansson.handle(ex, st, a[0])
    if not isinstance(c, Merge) or '_set_new' not in n:
        raise Unsupported(n)
    ex.prove(st, h.eq(c.a), 'only the configuration merged into is changed')
    v = jansson.handle(ex, st, a[2])
    escape(ex, st, v)
    st.ghost['map'] = z3.Store(st.ghost['map'], key(ex, st, a[1]), v)
    return 0


@model(r'json_object_iter$')
def m_iter(ex, st, a, n):
    c = ex.verifying
    if not isinstance(c, Merge) or not jansson.handle(ex, st, a[0]).eq(c.b):
        raise Unsupported('iteration')
    return Ptr(z3.If(c.m > 0, z3.IntVal(1), z3.IntVal(0)))


@model(r'json_object_iter_next$')
def m_next(ex, st, a, n):
    c = ex.verifying
    if not isinstance(c, Merge) or not jansson.handle(ex, st, a[0]).eq(c.b):
        raise Unsupported('iteration')
    i = iv(a[1].base)
    ex.prove(st, z3.And(i >= 1, i <= c.m), 'the end of the members is not passed')
    return Ptr(z3.If(i < c.m, i + 1, 0))


@model(r'json_object_iter_(key|value)$')
def m_at(ex, st, a, n):
    c = ex.verifying
    if not isinstance(c, Merge):
        raise Unsupported('iteration')
    i = iv(a[0].base) - 1
    ex.prove(st, z3.And(i >= 0, i < c.m), 'only members are looked at')
    k = c.K(ex, i)
    st.facts += c.about(ex, k) + [c.idx(ex, k) == i]
    if n.endswith('key'):
        return Ptr(CStr(c.text(ex, i)))
    st.facts.append(c.W(ex, i) >= 1)
    return jansson.ptr(ex, st, c.W(ex, i))


@model(r'json_object_(size|del|clear|update\w*)|json_array_(set\w*|insert\w*|remove|clear|extend)')
def m_other(ex, st, a, n):
    raise Unsupported(n)


@model(r'json_array_append(_new)?$')
def m_append(ex, st, a, n):
    c, h = ex.verifying, jansson.handle(ex, st, a[0])
    if not isinstance(c, Append) or not n.endswith('_new'):
        raise Unsupported(n)
    ex.prove(st, h.eq(c.a), 'only the array appended to is changed')
    v = jansson.handle(ex, st, a[1])
    escape(ex, st, v)
    g = st.ghost
    g['arr'], g['len'] = z3.Store(g['arr'], g['len'], v), g['len'] + 1
    return 0


@model(r'json_array_(size|get)$')
def m_array(ex, st, a, n):
    c, h = ex.verifying, jansson.handle(ex, st, a[0])
    if not isinstance(c, Append):
        raise Unsupported(n)
    if h.eq(c.a):
        ln, at = st.ghost['len'], lambda i: z3.Select(st.ghost['arr'], i)
    elif h.eq(c.b):
        ln, at = c.n, lambda i: jansson.jat(ex, c.b, i)
    else:
        raise Unsupported(n)
    if n.endswith('size'):
        return ln
    i = iv(a[1])
    r = z3.If(z3.And(i >= 0, i < ln), at(i), 0)
    st.facts.append(z3.Implies(z3.And(i >= 0, i < ln), at(i) >= 1))
    return jansson.ptr(ex, st, r)


class Base(Contract):
    def loop(self, ex, s0):
        return Inv(self, s0)


class Merge(Base):
    """operator|= on configurations"""
    base = 'spec::merge'

    def text(self, ex, i):
        return ex.fun('json.key', INT, SEQ)(i)

    def K(self, ex, i):
        return ex.fun('json.keyid', INT, INT)(i)

    def W(self, ex, i):
        return ex.fun('json.member', INT, INT)(i)

    def idx(self, ex, k):
        return ex.fun('json.index', INT, INT)(k)

    def about(self, ex, k):
        x = self.idx(ex, k)
        return [z3.Or(x == -1, z3.And(x >= 0, x < self.m, self.K(ex, x) == k))]

    def want(self, ex, i):
        """the value the member with key K(i) gets"""
        o, w = z3.Select(self.map0, self.K(ex, i)), self.W(ex, i)
        v = ex.fun('json.val', INT, INT)
        t = jansson.jt(ex, w)
        return z3.If(o == 0, v(w), z3.If(t == ARRAY, fv(ex, 'cat')(v(o), v(w)), z3.If(t == OBJECT, fv(ex, 'merge')(v(o), v(w)), v(w))))

    def same(self, ex, i):
        o, w = z3.Select(self.map0, self.K(ex, i)), self.W(ex, i)
        return z3.Or(o == 0, jansson.jt(ex, o) == jansson.jt(ex, w))

    def entry(self, ex, f):
        st = State()
        self.at = None
        self.a, self.b = ex.fresh('a', INT, (1, None)), ex.fresh('b', INT, (1, None))
        self.m = ex.fresh('m', INT, (0, 2 ** 40))
        ex.assume_range(st, self.m, (0, 2 ** 40))
        st.facts += [self.a >= 1, self.b >= 1, self.a != self.b, jansson.jt(ex, self.a) == OBJECT, jansson.jt(ex, self.b) == OBJECT,
                     z3.ForAll([I], z3.Implies(z3.And(I >= 0, I < self.m), z3.And(self.idx(ex, self.K(ex, I)) == I, self.W(ex, I) >= 1)), patterns=[self.K(ex, I)])]
        self.map0 = ex.fresh('map', MAP)
        st.facts.append(z3.ForAll([KEY], z3.Select(self.map0, KEY) >= 0, patterns=[z3.Select(self.map0, KEY)]))
        st.ghost.update(map=self.map0, vals=(), inner=False, whole=lambda ex, s: ex.fun('json.mapval', MAP, INT)(s.ghost['map']))
        self.pa, self.pb = Ptr(Obj('a', None)), Ptr(Obj('b', None))
        acc(ex, st, 'spec::make', [self.pa, jansson.ptr(ex, st, self.a)])
        acc(ex, st, 'spec::make' if 'compound' in self.base else 'spec::make_ref', [self.pb, jansson.ptr(ex, st, self.b)])
        if 'merged' in self.base:
            self.out = Ptr(Obj('out', None))
            return st, [self.out, self.pa, self.pb]
        return st, [self.pa, self.pb]

    def cursor(self, ex, st, loc):
        i = iv(ex.getloc(st, loc).base)
        return z3.If(i == 0, self.m, i - 1), z3.And(i >= 0, i <= self.m)

    def formula(self, ex, st, p):
        M = st.ghost['map']
        v = ex.fun('json.val', INT, INT)

        def keys(k):
            return z3.Implies(z3.And(*self.about(ex, k), z3.Or(self.idx(ex, k) < 0, self.idx(ex, k) >= p)), z3.Select(M, k) == z3.Select(self.map0, k))

        def done(i):
            x = z3.Select(M, self.K(ex, i))
            return z3.Implies(z3.And(i >= 0, i < p), z3.And(x >= 1, v(x) == self.want(ex, i), self.same(ex, i)))
        return [('key', keys, lambda k: z3.Select(M, k)), ('int', done, lambda i: self.K(ex, i))]

    def post(self, ex, st, o, a):
        if o[0] == 'exc':
            if st.ghost['inner']:
                return
            p = self.at
            return ex.prove(st, z3.BoolVal(False) if p is None else z3.And(p >= 0, p < self.m, z3.Not(self.same(ex, p))), 'an error only for a key of different types')
        q, k = ex.fresh('q', INT), ex.fresh('k', INT)
        M, v = st.ghost['map'], ex.fun('json.val', INT, INT)
        st.facts += [z3.Implies(z3.And(q >= 0, q < self.m), self.idx(ex, self.K(ex, q)) == q)] + self.about(ex, k)
        x = z3.Select(M, self.K(ex, q))
        ins = z3.And(q >= 0, q < self.m)
        ex.prove(st, z3.Implies(ins, self.same(ex, q)), 'a key of different types is an error')
        old = z3.Select(self.map0, self.K(ex, q))
        t = jansson.jt(ex, self.W(ex, q))
        ex.prove(st, z3.Implies(z3.And(ins, old == 0), z3.And(x >= 1, v(x) == v(self.W(ex, q)))), 'a key that only the second has is added')
        ex.prove(st, z3.Implies(z3.And(ins, old != 0, t == ARRAY), z3.And(x >= 1, v(x) == fv(ex, 'cat')(v(old), v(self.W(ex, q))))), "arrays are joined, the first one's elements first")
        ex.prove(st, z3.Implies(z3.And(ins, old != 0, t == OBJECT), z3.And(x >= 1, v(x) == fv(ex, 'merge')(v(old), v(self.W(ex, q))))), 'objects are merged in turn')
        ex.prove(st, z3.Implies(z3.And(ins, old != 0, t != ARRAY, t != OBJECT), z3.And(x >= 1, v(x) == v(self.W(ex, q)))), 'any other value is replaced')
        ex.prove(st, z3.Implies(self.idx(ex, k) < 0, z3.Select(M, k) == z3.Select(self.map0, k)), 'a key the second does not mention is unchanged')
        if 'merged' in self.base:
            h = jansson.handle(ex, st, acc(ex, st, 'spec::handle', [self.out]))
            ex.prove(st, z3.Or(h == self.a, val(ex, st, h) == st.ghost['whole'](ex, st)), 'what is returned is the merged configuration')
        else:
            ex.prove(st, jansson.handle(ex, st, acc(ex, st, 'spec::handle', [self.pa])) == self.a, 'the configuration is merged into')


class Append(Base):
    """operator|= on arrays"""
    base = 'spec::append'

    def entry(self, ex, f):
        st = State()
        self.at = None
        self.a, self.b = ex.fresh('a', INT, (1, None)), ex.fresh('b', INT, (1, None))
        self.n, self.l0 = ex.fresh('n', INT, (0, 2 ** 40)), ex.fresh('len', INT, (0, 2 ** 40))
        for x in (self.n, self.l0):
            ex.assume_range(st, x, (0, 2 ** 40))
        st.facts += [self.a >= 1, self.b >= 1, self.a != self.b, jansson.jt(ex, self.a) == ARRAY, jansson.jt(ex, self.b) == ARRAY]
        self.arr0 = ex.fresh('arr', SEQA)
        st.ghost.update(arr=self.arr0, len=self.l0, vals=(), inner=False, whole=lambda ex, s: ex.fun('json.arrval', SEQA, INT, INT)(s.ghost['arr'], s.ghost['len']))
        self.pa, self.pb = Ptr(Obj('a', None)), Ptr(Obj('b', None))
        acc(ex, st, 'spec::make', [self.pa, jansson.ptr(ex, st, self.a)])
        acc(ex, st, 'spec::make_ref', [self.pb, jansson.ptr(ex, st, self.b)])
        if 'appended' in self.base:
            self.out = Ptr(Obj('out', None))
            return st, [self.out, self.pa, self.pb]
        return st, [self.pa, self.pb]

    def cursor(self, ex, st, loc):
        i = iv(ex.getloc(st, loc))
        return i, z3.And(i >= 0, i <= self.n)

    def formula(self, ex, st, p):
        A, v = st.ghost['arr'], ex.fun('json.val', INT, INT)
        return [('fact', st.ghost['len'] == self.l0 + p, None),
                ('int', lambda i: z3.Implies(z3.And(i >= 0, i < self.l0), z3.Select(A, i) == z3.Select(self.arr0, i)), lambda i: z3.Select(A, i)),
                ('int', lambda i: z3.Implies(z3.And(i >= self.l0, i < self.l0 + p), v(z3.Select(A, i)) == v(jansson.jat(ex, self.b, i - self.l0))), lambda i: z3.Select(A, i))]

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'joining arrays does not throw')
        if o[0] != 'ret':
            return
        q, A, v = ex.fresh('q', INT), st.ghost['arr'], ex.fun('json.val', INT, INT)
        ex.prove(st, st.ghost['len'] == self.l0 + self.n, 'the joined array has the elements of both')
        ex.prove(st, z3.Implies(z3.And(q >= 0, q < self.l0), z3.Select(A, q) == z3.Select(self.arr0, q)), "the first one's elements come first, unchanged")
        ex.prove(st, z3.Implies(z3.And(q >= 0, q < self.n), v(z3.Select(A, self.l0 + q)) == v(jansson.jat(ex, self.b, q))), "then the second one's, in order")
        if 'appended' in self.base:
            h = jansson.handle(ex, st, acc(ex, st, 'spec::array_handle', [self.out]))
            ex.prove(st, z3.Or(h == self.a, val(ex, st, h) == st.ghost['whole'](ex, st)), 'what is returned is the joined array')


class Inv:
    """a loop over the members of b"""

    def __init__(self, c, s0):
        self.c, self.s0, self.loc = c, s0, None

    def assume(self, ex, st):
        for l in ex.locs(self.s0, st):
            if l[0] != 'cell':
                continue
            v = ex.getloc(st, l)
            if isinstance(v, Ptr) and not isinstance(v.base, (Obj, CStr)) and isinstance(self.c, Merge) or isz(v) and z3.is_int(v) and isinstance(self.c, Append):
                self.loc = self.loc or l
        if self.loc is not None:
            p, r = self.c.cursor(ex, st, self.loc)
            self.c.at = p
            st.facts.append(r)
            for k, f, pat in self.c.formula(ex, st, p):
                x = KEY if k == 'key' else J
                st.facts.append(f if k == 'fact' else z3.ForAll([x], f(x), patterns=[pat(x)]))

    def check(self, ex, st, which, hdr=None):
        if self.loc is None:
            raise Unsupported('unknown loop')
        p, r = self.c.cursor(ex, st, self.loc)
        ex.prove(st, r, 'loop position %s' % which)
        for n, (k, f, pat) in enumerate(self.c.formula(ex, st, p)):
            g = f if k == 'fact' else f(ex.fresh('q', INT))
            ex.prove(st, g, 'loop invariant %d %s' % (n, which))


@model(r'Maike::KeyValueStore::operator\|=')
def m_merge(ex, st, a, n):
    """a nested merge: by its contract"""
    c = ex.verifying
    d = ex.mod.demangled(n)
    arr = 'Array&' in d
    h = jansson.handle(ex, st, acc(ex, st, 'spec::array_handle' if arr else 'spec::handle', [a[0]]))
    if isinstance(c, Base) and h.eq(c.a):
        return NotImplemented
    if 'Compound const&' in d:
        return NotImplemented
    if isinstance(a[1], Ptr) and len(a) == 2:
        b = jansson.handle(ex, st, acc(ex, st, 'spec::array_ref' if arr else 'spec::ref', [a[1]]))
    else:
        b = jansson.handle(ex, st, a[1])
    ex.prove(st, own(st, h), 'what is merged into is a copy of its own')
    if not own(st, h):
        raise Unsupported('merge')
    s2 = st.copy()
    setval(ex, st, h, fv(ex, 'cat' if arr else 'merge')(val(ex, st, h), val(ex, st, b)))
    if arr:
        return ret(st, a[0])
    s2.ghost['inner'] = True
    return ret(st, a[0]) + throw(s2)


class Settings(Contract):
    """operator| on compiler settings"""
    base = 'Maike::Db::operator|'
    sig = re.compile(r'Compiler const&, Maike::Db::Compiler const&')

    def entry(self, ex, f):
        st = State()
        self.out = Ptr(Obj('out', None))
        self.c, self.h, self.r = [Ptr(Obj(x, None, fresh=False)) for x in 'ab'], [ex.fresh(x, INT, (1, None)) for x in 'ab'], [ex.fresh('recipe', SEQ) for _ in 'ab']
        st.ghost.update(vals=(), inner=False)
        st.facts.append(self.h[0] != self.h[1])
        for c, h, r in zip(self.c, self.h, self.r):
            st.facts += [h >= 1, jansson.jt(ex, h) == OBJECT]
            acc(ex, st, 'spec::make', [acc(ex, st, 'spec::config', [c]), jansson.ptr(ex, st, h)])
            ex.gstore(st, acc(ex, st, 'spec::recipe', [c]), 'path', r)
            i = ex.fresh('has', INT, (0, 1))
            ex.assume_range(st, i, (0, 1))
            acc(ex, st, 'spec::set_origin', [c, i == 1, ex.fresh_kind('origin', 'i32', st)])
        return st, [self.out] + self.c

    def post(self, ex, st, o, a):
        if o[0] == 'exc':
            return ex.prove(st, st.ghost['inner'], 'an error only when the settings cannot be merged')
        ra, rb = self.r
        r = ex.gload(st, acc(ex, st, 'spec::recipe', [self.out]), 'path')
        ex.prove(st, r == z3.If(z3.Length(rb) != 0, rb, ra), 'the recipe is the second one, if it has one')
        h = jansson.handle(ex, st, acc(ex, st, 'spec::handle', [acc(ex, st, 'spec::config', [self.out])]))
        v = ex.fun('json.val', INT, INT)
        ex.prove(st, val(ex, st, h) == fv(ex, 'merge')(v(self.h[0]), v(self.h[1])), 'the settings are those of the second merged into those of the first')
        for w, c, x, y in zip(('first', 'second'), self.c, self.h, self.r):
            ex.prove(st, z3.And(jansson.handle(ex, st, acc(ex, st, 'spec::handle', [acc(ex, st, 'spec::config', [c])])) == x,
                                ex.gload(st, acc(ex, st, 'spec::recipe', [c]), 'path') == y), 'the %s is not changed' % w)


def named(c, base):
    c.base = base
    return c


def run(S):
    inv = {'invariant': lambda ex, s0, r0, f, h: ex.verifying.loop(ex, s0)}
    m = S.module([DRV] + SRC, extra=['-fno-access-control'])
    ex = S.exec(m, models_extra=MODELS + jansson.MODELS, opts=inv)
    for c in (Merge(), named(Merge(), 'spec::merge_compound'), named(Merge(), 'spec::merged'), Append(), named(Append(), 'spec::appended'), Settings()):
        S.check(ex, c)
