"""C16: a target is defined by exactly one source file.

The collected targets are a map from classes of equal names to the definition: source file name, target and source file (addresses)."""
from spec import *
from models import ret, vec_len, vec_data

DRV = os.path.join(os.path.dirname(__file__), 'C16.drv.cpp')
ASSUMPTIONS = ['std::map is a map with path equality on its keys, traversed completely from begin to end', 'lexically_normal is a function of the path']
MODELS = []
B = z3.BoolSort()
J = z3.Int('j')
PAIR = 'std::pair<std::filesystem::__cxx11::path const, Maike::Db::SourceFileInfo>'


def model(rx):
    def deco(fn):
        MODELS.append((re.compile(rx), fn))
        return fn
    return deco


def K(ex, p):
    return ex.fun('path.key', SEQ, INT)(p)


def normal(ex, p):
    return ex.fun('path.lexically_normal', SEQ, SEQ)(p)


def same(p, g):
    return g is not None and isinstance(p, Ptr) and p.base is g.base and p.c == g.c


FIELDS = (('has', B), ('src', SEQ), ('target', INT), ('info', INT))


class Insert(Contract):
    base = 'Maike::Db::insertUnique'

    def entry(self, ex, f):
        st = State()
        self.t, self.f, self.m = Ptr(Obj('target', None, fresh=False)), Ptr(Obj('file', None, fresh=False)), Ptr(Obj('targets', 48, fresh=False))
        self.m0 = tuple(ex.fresh(n, z3.ArraySort(INT, s)) for n, s in FIELDS)
        st.ghost['m'], st.ghost['nodes'] = self.m0, ()
        self.name = ex.gload(st, acc(ex, st, 'spec::info_name', [self.t]), 'path')
        self.fname = ex.gload(st, acc(ex, st, 'spec::file_name', [self.f]), 'path')
        self.k = K(ex, normal(ex, self.name))
        return st, [self.t, self.f, self.m]

    def post(self, ex, st, o, a):
        sync(ex, st)
        old = z3.Select(self.m0[0], self.k)
        m = st.ghost['m']
        if o[0] == 'exc':
            ex.prove(st, old, 'only a name that is taken is an error')
        else:
            ex.prove(st, z3.Not(old), 'a name that is taken is an error')
            info = acc(ex, st, 'spec::file_info', [self.f])
            want = (z3.BoolVal(True), self.fname, iv(ex.ptr_to_ref(self.t)), iv(ex.ptr_to_ref(info)))
            for (n, _), x, w in zip(FIELDS, m, want):
                ex.prove(st, z3.Select(x, self.k) == w, 'the target is recorded under its normalised name, with its source file (%s)' % n)
        k = ex.fresh('other', INT)
        for x, y in zip(m, self.m0):
            ex.prove(st, z3.Implies(k != self.k, z3.Select(x, k) == z3.Select(y, k)), 'other targets are left alone')

    def apply(self, ex, st, a, name):
        c = ex.verifying
        if not isinstance(c, Collect):
            return NotImplemented
        return c.visit(ex, st, a)


def value(ex, st, v):
    return (z3.BoolVal(True), ex.gload(st, acc(ex, st, 'spec::src', [v]), 'path'), iv(ex.ptr_to_ref(acc(ex, st, 'spec::target', [v]))), iv(ex.ptr_to_ref(acc(ex, st, 'spec::info', [v]))))


def put(st, k, v):
    st.ghost['m'] = tuple(z3.Store(x, k, y) for x, y in zip(st.ghost['m'], v))


def sync(ex, st):
    """what was written through references to elements"""
    for k, nd in st.ghost['nodes']:
        put(st, k, value(ex, st, acc(ex, st, 'spec::node_value', [nd])))
    st.ghost['nodes'] = ()


def node(ex, st, k, v, key=None):
    sync(ex, st)
    nd = Ptr(Obj('node', None))
    x = Ptr(nd.base, 32)
    ps = []
    for s in (key if key is not None else ex.fresh('key', SEQ), v[1]):
        q = Ptr(Obj('tmp', 40))
        ex.gstore(st, q, 'path', s)
        ps.append(q)
    acc(ex, st, 'spec::node_make', [x] + ps + [ex.ref_to_ptr(z3.simplify(v[2])), ex.ref_to_ptr(z3.simplify(v[3]))])
    st.ghost['nodes'] = st.ghost['nodes'] + ((k, x),)
    return nd


def existing(ex, st, k):
    return node(ex, st, k, tuple(z3.Select(x, k) for x in st.ghost['m']))


@model(r'std::map::(find|end|cend|count|contains|insert|emplace|try_emplace|insert_or_assign|begin|cbegin|map|~map)')
def m_map(ex, st, a, n):
    c, op = ex.verifying, ex.basename(n).split('::')[-1]
    if isinstance(c, Files):
        return c.map(ex, st, a, op, n)
    if not isinstance(c, Insert) or not same(a[0], c.m):
        return NotImplemented
    if op in ('end', 'cend'):
        return Ptr(a[0].base, a[0].c + 8)
    if op in ('find', 'count', 'contains'):
        sync(ex, st)
        k = K(ex, ex.gload(st, a[1], 'path'))
        h = z3.Select(st.ghost['m'][0], k)
        if op != 'find':
            return z3.If(h, z3.IntVal(1), z3.IntVal(0))
        out = []
        for s, b in models.fork(ex, st, h):
            out += ret(s, existing(ex, s, k) if b else Ptr(a[0].base, a[0].c + 8))
        return out
    if op in ('insert', 'emplace', 'try_emplace', 'insert_or_assign') and len(a) in (2, 3):
        sync(ex, st)
        d = ex.mod.demangled(n)
        if len(a) == 2:
            if 'pair<std::filesystem::__cxx11::path, Maike::Db::Target>' not in d and 'pair<std::filesystem::__cxx11::path const, Maike::Db::Target>' not in d.split('(')[-1]:
                return NotImplemented
            key, val = acc(ex, st, 'spec::in_key', [a[1]]), acc(ex, st, 'spec::in_value', [a[1]])
        else:
            if 'Maike::Db::Target' not in d.split('(')[-1]:
                return NotImplemented
            key, val = a[1], a[2]
        key, v = ex.gload(st, key, 'path'), value(ex, st, val)
        k = K(ex, key)
        out = []
        for s, b in models.fork(ex, st, z3.Select(st.ghost['m'][0], k)):
            if b and op == 'insert_or_assign':
                put(s, k, v)
            nd = existing(ex, s, k) if b else node(ex, s, k, v, key)
            out += ret(s, Agg([nd, 0 if b else 1]))
        return out
    return NotImplemented


# ---------------------------------------------------------------------------------------------- the loops
class Collect(Contract):
    """ghost 'seen': the elements handed on, each at most once"""

    def start(self, ex, st):
        st.ghost['seen'], st.ghost['failed'] = z3.K(INT, z3.BoolVal(False)), False

    def once(self, ex, st, i, what):
        ex.prove(st, z3.Not(z3.Select(st.ghost['seen'], i)), what)
        st.ghost['seen'] = z3.Store(st.ghost['seen'], i, True)
        s2 = st.copy()
        s2.ghost['failed'] = True
        return ret(st) + models.throw(s2)

    def loop(self, ex, s0):
        return Inv(self, s0)

    def done(self, ex, st, p):
        return z3.ForAll([J], z3.Select(st.ghost['seen'], J) == z3.And(J >= 0, J < p, self.wanted(ex, st, J)))

    def post(self, ex, st, o, a):
        if o[0] == 'exc':
            return ex.prove(st, st.ghost['failed'], 'collecting fails only for a name that is taken')
        ex.prove(st, z3.Not(bv(st.ghost['failed'])) if isz(st.ghost['failed']) else not st.ghost['failed'], 'an error is not swallowed')
        ex.prove(st, self.done(ex, st, self.n), self.what)


class Inv:
    def __init__(self, c, s0):
        self.c, self.s0, self.loc = c, s0, None

    def at(self, ex, st):
        v = ex.getloc(st, self.loc)
        return iv((v.i if v.s else 0) if isinstance(v, Ptr) else v)

    def assume(self, ex, st):
        for want in (lambda v, v0: isinstance(v, Ptr) and not isinstance(v.base, Obj) and iv(v.base).eq(iv(self.c.N)),
                     lambda v, v0: not isinstance(v, Ptr) and isz(v) and z3.is_int(v) and not isz(v0) and v0 == 0):
            for l in ex.locs(self.s0, st):
                if self.loc is None and l[0] == 'cell' and want(ex.getloc(st, l), ex.getloc(self.s0, l)):
                    self.loc = l
        if self.loc is not None:
            st.facts += self.formula(ex, st)

    def formula(self, ex, st):
        p = self.at(ex, st)
        return [p >= 0, p <= self.c.n, self.c.done(ex, st, p)]

    def check(self, ex, st, which, hdr=None):
        if self.loc is None:
            raise Unsupported('unknown loop')
        for k, g in enumerate(self.formula(ex, st)):
            ex.prove(st, g, 'loop invariant %d %s' % (k, which))


class Targets(Collect):
    """all targets of one source file"""
    base, sig = 'Maike::Db::collectTargets', r'SourceFileInfo> const>, '
    what = 'every target of a file is recorded, except one with the name of the file'

    def entry(self, ex, f):
        st = State()
        self.f, self.m = Ptr(Obj('file', None, fresh=False)), Ptr(Obj('targets', 48, fresh=False))
        v = acc(ex, st, 'spec::file_targets', [self.f])
        self.N, self.n = vec_data(ex, st, v), iv(vec_len(ex, st, v))
        self.k = K(ex, ex.gload(st, acc(ex, st, 'spec::file_name', [self.f]), 'path'))
        self.start(ex, st)
        return st, [self.f, self.m]

    def elem(self, ex, j):
        return Ptr(self.N, 0, models.type_size(ex, 'Maike::Db::TargetInfo'), j)

    def wanted(self, ex, st, j):
        return K(ex, ex.gload(st, acc(ex, st, 'spec::info_name', [self.elem(ex, j)]), 'path')) != self.k

    def visit(self, ex, st, a):
        t = a[0]
        ex.prove(st, same(a[1], self.f) and same(a[2], self.m), 'a target is recorded with its source file')
        if not (isinstance(t, Ptr) and not isinstance(t.base, Obj) and iv(t.base).eq(iv(self.N)) and t.c == 0):
            raise Unsupported('target recorded')
        ex.prove(st, z3.And(iv(t.i) >= 0, iv(t.i) < self.n), 'a target recorded is one of the file')
        return self.once(ex, st, iv(t.i), 'a target is recorded once')

    def apply(self, ex, st, a, name):
        c = ex.verifying
        if not isinstance(c, Files):
            return NotImplemented
        return c.visit(ex, st, a)


class Files(Collect):
    """all source files"""
    base, sig = 'Maike::Db::collectTargets', r'reference_wrapper<std::map<'
    what = 'the targets of every source file are collected'

    def entry(self, ex, f):
        st = State()
        self.out, self.m = Ptr(Obj('out', 48)), Ptr(Obj('files', 48, fresh=False))
        self.N, self.n = ex.fresh('files', INT), ex.fresh('n', INT, (0, 2 ** 40))
        ex.assume_range(st, self.n, (0, 2 ** 40))
        st.facts.append(self.N >= 1)
        self.S = models.type_size(ex, PAIR) + 32
        self.start(ex, st)
        st.ghost['result'] = None
        return st, [self.out, self.m]

    def wanted(self, ex, st, j):
        return z3.BoolVal(True)

    def map(self, ex, st, a, op, n):
        if op in ('begin', 'cbegin', 'end', 'cend') and same(a[0], self.m):
            return Ptr(self.N, -32, self.S, 0 if 'begin' in op else self.n)
        if op == 'map' and len(a) == 1:
            st.ghost['result'] = a[0]
            return None
        if op == 'map' and len(a) == 2 and same(a[1], st.ghost['result']):
            st.ghost['result'] = a[0]
            return None
        if op == '~map':
            return None
        return NotImplemented

    def visit(self, ex, st, a):
        f = a[0]
        ex.prove(st, same(a[1], st.ghost['result']), 'targets are collected in the result')
        if not (isinstance(f, Ptr) and not isinstance(f.base, Obj) and iv(f.base).eq(self.N) and f.c == 0):
            raise Unsupported('file visited')
        return self.once(ex, st, iv(f.i), 'a file is visited once')

    def post(self, ex, st, o, a):
        Collect.post(self, ex, st, o, a)
        if o[0] == 'ret':
            ex.prove(st, same(self.out, st.ghost['result']), 'the result is what was collected')


@model(r'std::_Rb_tree_increment')
def m_inc(ex, st, a, n):
    c = ex.verifying
    if not isinstance(c, Files) or isinstance(a[0].base, Obj) or not iv(a[0].base).eq(c.N):
        return NotImplemented
    return Ptr(a[0].base, a[0].c, a[0].s, add(a[0].i, 1))


def run(S):
    mod = S.module([DRV], extra=['-fno-access-control'])
    ins, tg = Insert(), Targets()
    for c in (ins, tg, Files()):
        ex = S.exec(mod, [ins, tg], {'invariant': lambda ex, s0, r0, f, h: ex.verifying.loop(ex, s0) if hasattr(ex.verifying, 'loop') else None}, models_extra=MODELS)
        S.check(ex, c)
