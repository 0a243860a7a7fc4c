"""C19: references and targets are mapped to the right place in the tree.

join, normal, relative and parent are std::filesystem's path operations (uninterpreted)."""
from spec import *
from models import ret, vec_len, vec_data
import jansson as J

DRV = os.path.join(os.path.dirname(__file__), 'C19.drv.cpp')
ASSUMPTIONS = ['std::filesystem::path: operator/, lexically_normal, lexically_relative and parent_path are functions of their operands',
               'an equation between path expressions that fails is not taken for a violation by itself (the algebra of paths is not axiomatised): the replay decides']
PROJECT, GENERATED, SYSTEM, PKG = range(4)
MODELS = []


class Base(Contract):
    def ctx(self, ex, st):
        c = Ptr(Obj('ctxt', None, fresh=False))
        ps = []
        for n in ('src', 'source_dir', 'target_dir'):
            p = Ptr(Obj(n, 32, fresh=False))
            v = ex.fresh(n, SEQ)
            ex.gstore(st, p, 'path', v)
            ps.append(p)
        acc(ex, st, 'spec::ctx', [c] + ps)
        self.c = c
        self.src, self.sd, self.td = [ex.gload(st, p, 'path') for p in ps]
        self.fd = normal(ex, parent(ex, self.src))
        return c

    def of(self, ex, st, c):
        """the places a context knows"""
        self.fd, self.sd, self.td = [ex.gload(st, acc(ex, st, 'spec::' + x, [c]), 'path') for x in ('file_dir', 'source_dir', 'target_dir')]
        return self

    def place(self, ex, p, o):
        """where a reference p with expected origin o resolves to"""
        dot = z3.PrefixOf(z3.Concat(z3.Unit(z3.IntVal(46)), z3.Unit(z3.IntVal(47))), p)
        r = z3.If(dot, normal(ex, div(ex, self.fd, p)), div(ex, self.sd, p))
        g = div(ex, self.td, rel(ex, r, self.sd))
        return z3.If(z3.And(iv(o) != PROJECT, iv(o) != GENERATED), p, normal(ex, z3.If(iv(o) == GENERATED, g, r)))

    def target(self, ex, p):
        return normal(ex, div(ex, self.td, rel(ex, div(ex, self.fd, p), self.sd)))

    def eq(self, ex, st, a, b, name):
        e, st.exact = st.exact, False
        ex.prove(st, a == b, name)
        st.exact = e


def normal(ex, p):
    return ex.fun('path.lexically_normal', SEQ, SEQ)(p)


def parent(ex, p):
    return ex.fun('path.parent_path', SEQ, SEQ)(p)


def rel(ex, a, b):
    return ex.fun('path.lexically_relative', SEQ, SEQ, SEQ)(a, b)


def div(ex, a, b):
    return ex.fun('path.div', SEQ, SEQ, SEQ)(a, b)


class Ctxt(Base):
    base = 'spec::ctx'

    def entry(self, ex, f):
        st = State()
        self.ctx(ex, st)
        self.n = Ptr(Obj('new', None))
        ps = [Ptr(Obj(n, 32, fresh=False)) for n in 'abc']
        self.v = [ex.gload(st, p, 'path') for p in ps]
        return st, [self.n] + ps

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'constructing a context does not throw')
        g = [ex.gload(st, acc(ex, st, 'spec::' + x, [self.n]), 'path') for x in ('file_dir', 'source_dir', 'target_dir')]
        self.eq(ex, st, g[0], normal(ex, parent(ex, self.v[0])), 'the directory of the referring file is its normalised parent')
        ex.prove(st, z3.And(g[1] == self.v[1], g[2] == self.v[2]), 'the context keeps source and target directory')


class Prepend(Base):
    base, sig = 'Maike::SourceTreeLoader::prependSearchPath', r'path const&, .*SourceFileOrigin\)'

    def entry(self, ex, f):
        st = State()
        self.out, p = Ptr(Obj('out', 32)), Ptr(Obj('name', 32, fresh=False))
        self.o = ex.fresh('origin', INT, (0, 3))
        ex.assume_range(st, self.o, (0, 3))
        c = self.ctx(ex, st)
        self.p = ex.gload(st, p, 'path')
        return st, [self.out, c, p, self.o]

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'resolving does not throw')
        r = ex.gload(st, self.out, 'path')
        ex.prove(st, z3.Implies(self.o >= SYSTEM, r == self.p), 'external names are left untouched')
        self.eq(ex, st, r, self.place(ex, self.p, self.o), 'a reference resolves to its place')

    def apply(self, ex, st, a, name):
        ex.gstore(st, a[0], 'path', Base().of(ex, st, a[1]).place(ex, ex.gload(st, a[2], 'path'), a[3]))
        return ret(st)


class PrependDep(Base):
    base, sig = 'Maike::SourceTreeLoader::prependSearchPath', r'Db::Dependency const&\)'

    def entry(self, ex, f):
        st = State()
        self.out, d = Ptr(Obj('out', None)), Ptr(Obj('dep', None, fresh=False))
        c = self.ctx(ex, st)
        self.p = ex.gload(st, acc(ex, st, 'spec::dep_name', [d]), 'path')
        self.o = acc(ex, st, 'spec::dep_origin', [d])
        st.facts.append(z3.And(iv(self.o) >= 0, iv(self.o) <= 3))
        return st, [self.out, c, d]

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'resolving a dependency does not throw')
        r = ex.gload(st, acc(ex, st, 'spec::dep_name', [self.out]), 'path')
        ex.prove(st, iv(acc(ex, st, 'spec::dep_origin', [self.out])) == iv(self.o), 'a dependency keeps its origin')
        ex.prove(st, z3.Implies(iv(self.o) >= SYSTEM, r == self.p), 'the name of an external dependency is left untouched')
        self.eq(ex, st, r, self.place(ex, self.p, self.o), 'a dependency resolves to its place')

    def apply(self, ex, st, a, name):
        p = ex.gload(st, acc(ex, st, 'spec::dep_name', [a[2]]), 'path')
        o = acc(ex, st, 'spec::dep_origin', [a[2]])
        new(ex, st, a[0], Base().of(ex, st, a[1]).place(ex, p, o), o)
        return ret(st)


def new(ex, st, out, path, origin):
    """*out becomes a dependency of that name and origin"""
    p = Ptr(Obj('path', 32))
    ex.gstore(st, p, 'path', path)
    acc(ex, st, 'spec::dep_make', [out, p, origin])


class Target(Base):
    base = 'Maike::SourceTreeLoader::makeTargetName'

    def entry(self, ex, f):
        st = State()
        self.out, p = Ptr(Obj('out', 32)), Ptr(Obj('name', 32, fresh=False))
        c = self.ctx(ex, st)
        self.p = ex.gload(st, p, 'path')
        return st, [self.out, c, p]

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'naming a target does not throw')
        self.eq(ex, st, ex.gload(st, self.out, 'path'), self.target(ex, self.p), 'a target is placed where its source file is')

    def apply(self, ex, st, a, name):
        ex.gstore(st, a[0], 'path', Base().of(ex, st, a[1]).target(ex, ex.gload(st, a[2], 'path')))
        return ret(st)


# ---------------------------------------------------------------------------------------------- lists of dependencies and targets
def model(rx):
    def deco(fn):
        MODELS.append((re.compile(rx), fn))
        return fn
    return deco


@model(r'std::vector::(push_back|emplace_back)')
def m_push(ex, st, a, n):
    d = ex.mod.demangled(n)
    c = ex.verifying
    t = models.first_targ(d, 'std::vector')
    if t == 'Maike::Db::Property':
        return None
    if t not in ('Maike::Db::Dependency', 'Maike::Db::TargetInfo') or not isinstance(c, Lists) or len(a) != 2:
        return NotImplemented
    k = iv(st.ghost['n'])
    name = ex.gload(st, acc(ex, st, 'spec::dep_name' if 'Dependency' in t else 'spec::target_name', [a[1]]), 'path')
    o = acc(ex, st, 'spec::dep_origin', [a[1]]) if 'Dependency' in t else z3.IntVal(0)
    want = c.item(ex, st, k)
    c.eq(ex, st, name, want[0], c.what + ': element k of the result is made of element k')
    ex.prove(st, iv(o) == want[1], c.what + ': with its origin')
    st.ghost['n'] = add(st.ghost['n'], 1)
    ex.gstore(st, a[0], 'len', add(vec_len(ex, st, a[0]), 1))
    return a[0]


@model(r'Maike::(Db::)?fromString')
def m_from(ex, st, a, n):
    """C21: a known text gives its origin, any other is an error"""
    if 'SourceFileOrigin' not in ex.mod.demangled(n):
        return NotImplemented
    s2 = st.copy()
    v = origin_of(ex, models.cstr_seq(ex, st, [x for x in a if isinstance(x, Ptr)][-1]))
    st.facts.append(z3.And(v >= 0, v <= 3))
    return ret(st, v) + models.throw(s2)


def origin_of(ex, s):
    return ex.fun('origin.of', SEQ, INT)(s)


def ref_origin(ex, h, default):
    k = J.jget(ex, h, lit('origin'))
    return z3.If(k == 0, z3.IntVal(default) if isinstance(default, int) else default, origin_of(ex, J.jstr(ex, k)))


def lit(s):
    return z3.Concat(*[z3.Unit(z3.IntVal(ord(c))) for c in s])


def json_arg(ex, st, n):
    h = ex.fresh(n, INT)
    st.facts.append(h > 0)
    J.learn(ex, st, h)
    return h


class Lists(Base):
    def loop(self, ex, s0):
        return Pos(s0, self)


class Pos:
    """loop invariant: as many elements were made as were read"""

    def __init__(self, s0, c):
        self.s0, self.c, self.loc = s0, c, None
        self.n0 = s0.ghost.get('n', 0)

    def find(self, ex, st):
        ps, ns = [], []
        for loc in ex.locs(self.s0, st):
            if loc[0] != 'cell':
                continue
            v = ex.getloc(st, loc)
            if isinstance(v, Ptr) and self.c.data is not None and isz(v.base) and v.base.eq(iv(self.c.data)):
                ps.append(loc)
            elif (isinstance(v, int) or isz(v) and z3.is_int(v)) and not isz(ex.getloc(self.s0, loc)) and ex.getloc(self.s0, loc) == 0:
                ns.append(loc)
        return (ps or ns or [None])[0]

    def formula(self, ex, st):
        v = ex.getloc(st, self.loc)
        p = iv(v.i if v.s else 0) if isinstance(v, Ptr) else iv(v)
        return [iv(st.ghost['n']) == iv(self.n0) + p, p >= 0]

    def assume(self, ex, st):
        self.loc = self.find(ex, st)
        if self.loc is not None:
            st.facts += self.formula(ex, st)

    def check(self, ex, st, which, hdr=None):
        if self.loc is None:
            return
        for g in self.formula(ex, st):
            ex.prove(st, g, 'loop invariant ' + which)


class PrependAll(Lists):
    base, sig = 'Maike::SourceTreeLoader::prependSearchPath', r'std::vector<.*const&\)'
    what = 'resolving a list'

    def entry(self, ex, f):
        st = State()
        self.out, self.v = Ptr(Obj('out', None)), Ptr(Obj('deps', None, fresh=False))
        c = self.ctx(ex, st)
        self.data = vec_data(ex, st, self.v)
        self.len = vec_len(ex, st, self.v)
        st.ghost['n'] = 0
        return st, [self.out, c, self.v]

    def item(self, ex, st, k):
        d = Ptr(self.data, 0, models.type_size(ex, 'Maike::Db::Dependency'), k)
        o = acc(ex, st, 'spec::dep_origin', [d])
        return self.place(ex, ex.gload(st, acc(ex, st, 'spec::dep_name', [d]), 'path'), o), iv(o)

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'resolving a list does not throw')
        ex.prove(st, iv(st.ghost['n']) == iv(self.len), 'the result has as many elements')


class GetDep(Base):
    base = 'Maike::SourceTreeLoader::getDependency'
    data = None

    def loop(self, ex, s0):
        return None

    def entry(self, ex, f):
        st = State()
        self.out = Ptr(Obj('out', None))
        c = self.ctx(ex, st)
        self.h = json_arg(ex, st, 'dep')
        self.o = ex.fresh('origin', INT, (0, 3))
        ex.assume_range(st, self.o, (0, 3))
        return st, [self.out, c, Ptr(self.h, 0), Ptr(CStr(ex.fresh('src', SEQ))), self.o]

    def post(self, ex, st, o, a):
        if o[0] == 'exc':
            return
        w = ref_origin(ex, self.h, self.o)
        ex.prove(st, iv(acc(ex, st, 'spec::dep_origin', [self.out])) == w, 'a reference has the origin it says, else the default')
        r = ex.gload(st, acc(ex, st, 'spec::dep_name', [self.out]), 'path')
        k = J.jget(ex, self.h, lit('ref'))
        ex.prove(st, z3.And(k != 0, J.jt(ex, k) == J.STRING), 'a dependency has a reference')
        self.eq(ex, st, r, self.place(ex, J.jstr(ex, k), w), 'a dependency is the place of its reference')

    def apply(self, ex, st, a, name):
        s2 = st.copy()
        h = J.handle(ex, st, a[2])
        w = ref_origin(ex, h, a[4])
        st.facts.append(z3.And(w >= 0, w <= 3))
        new(ex, st, a[0], Base().of(ex, st, a[1]).place(ex, J.jstr(ex, J.jget(ex, h, lit('ref'))), w), w)
        return ret(st) + models.throw(s2)


class GetTarget(Lists):
    base = 'Maike::SourceTreeLoader::getTarget'
    what, data = 'a target', None

    def entry(self, ex, f):
        st = State()
        self.out = Ptr(Obj('out', None))
        c = self.ctx(ex, st)
        self.h = json_arg(ex, st, 'target')
        st.ghost['n'] = 0
        self.deps, self.pkg = J.jget(ex, self.h, lit('dependencies')), J.jget(ex, self.h, lit('pkgconfig_libs'))
        J.learn(ex, st, self.deps)
        J.learn(ex, st, self.pkg)
        return st, [self.out, c, Ptr(self.h, 0), Ptr(CStr(ex.fresh('src', SEQ)))]

    def nd(self, ex):
        return z3.If(self.deps == 0, 0, J.jlen(ex, self.deps))

    def item(self, ex, st, k):
        nd = self.nd(ex)
        h = J.jat(ex, self.deps, k)
        w = ref_origin(ex, h, SYSTEM)
        a = self.place(ex, J.jstr(ex, J.jget(ex, h, lit('ref'))), w)
        return (z3.If(k < nd, a, J.jstr(ex, J.jat(ex, self.pkg, k - nd))), z3.If(k < nd, w, PKG))

    def post(self, ex, st, o, a):
        if o[0] == 'exc':
            return
        k = J.jget(ex, self.h, lit('name'))
        ex.prove(st, z3.And(k != 0, J.jt(ex, k) == J.STRING), 'a target has a name')
        self.eq(ex, st, ex.gload(st, acc(ex, st, 'spec::target_name', [self.out]), 'path'), self.target(ex, J.jstr(ex, k)), 'a target is the place of its name')
        ex.prove(st, iv(st.ghost['n']) == self.nd(ex) + z3.If(self.pkg == 0, 0, J.jlen(ex, self.pkg)), 'a target has all its dependencies')

    def apply(self, ex, st, a, name):
        s2 = st.copy()
        h = J.handle(ex, st, a[2])
        p = Ptr(Obj('path', 32))
        ex.gstore(st, p, 'path', Base().of(ex, st, a[1]).target(ex, J.jstr(ex, J.jget(ex, h, lit('name')))))
        acc(ex, st, 'spec::target_make', [a[0], p])
        return ret(st) + models.throw(s2)


class GetTargets(Lists):
    base = 'Maike::SourceTreeLoader::getTargets'
    what, data = 'targets', None

    def entry(self, ex, f):
        st = State()
        self.out = Ptr(Obj('out', None))
        c = self.ctx(ex, st)
        self.h = json_arg(ex, st, 'tags')
        p = Ptr(Obj('compound', None, fresh=False))
        self.keys(ex, st)
        st.ghost['n'] = 0
        acc(ex, st, 'spec::compound_make', [p, Ptr(self.h, 0)])
        return st, [self.out, c, p]

    def keys(self, ex, st):
        self.one, self.many = J.jget(ex, self.h, lit('target')), J.jget(ex, self.h, lit('targets'))
        J.learn(ex, st, self.one)
        J.learn(ex, st, self.many)

    def item(self, ex, st, k):
        n1 = z3.If(self.one == 0, 0, 1)
        h = z3.If(k < n1, self.one, J.jat(ex, self.many, k - n1))
        return self.target(ex, J.jstr(ex, J.jget(ex, h, lit('name')))), 0

    def count(self, ex):
        return z3.If(self.one == 0, 0, 1) + z3.If(self.many == 0, 0, J.jlen(ex, self.many))

    def post(self, ex, st, o, a):
        if o[0] == 'exc':
            return
        ex.prove(st, iv(st.ghost['n']) == self.count(ex), self.what + ': all of them are there')


class UseDeps(GetTargets):
    def __init__(self, fn, key):
        self.base, self.key, self.what = 'Maike::SourceTreeLoader::' + fn, key, key

    def keys(self, ex, st):
        self.many = J.jget(ex, self.h, lit(self.key))
        J.learn(ex, st, self.many)

    def item(self, ex, st, k):
        h = J.jat(ex, self.many, k)
        w = ref_origin(ex, h, GENERATED)
        return self.place(ex, J.jstr(ex, J.jget(ex, h, lit('ref'))), w), w

    def count(self, ex):
        return z3.If(self.many == 0, 0, J.jlen(ex, self.many))


def run(S):
    mod = S.module([DRV], extra=['-fno-access-control'])
    pre, pd, tg, gd, gt = Prepend(), PrependDep(), Target(), GetDep(), GetTarget()
    inv = lambda ex, s0, r0, f, h: ex.verifying.loop(ex, s0) if hasattr(ex.verifying, 'loop') else None
    for c in (Ctxt(), pre, pd, tg, PrependAll(), gd, gt, GetTargets(), UseDeps('getUseDeps', 'dependencies'), UseDeps('getChildTargetUseDeps', 'dependencies_extra')):
        ex = S.exec(mod, [pre, pd, tg, gd, gt], {'invariant': inv}, models_extra=MODELS + J.MODELS)
        S.check(ex, c)
