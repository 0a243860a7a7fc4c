"""C26: the compile command.

A json value is a number: strval(text), intval(n), arrval(elements, length), objval(members), merge(a, b), dep(d) for the description of
the dependency d, info(i) for that of the build information i.  A handle that is still being built has its members (or its elements)
in the ghosts of that handle; when it is stored somewhere, or written as text, its value is fixed."""
from spec import *
from models import ret, throw, cstr_seq, vec_len, vec_data
import jansson

HERE = os.path.dirname(__file__)
DRV = os.path.join(HERE, 'C26.drv.cpp')
ASSUMPTIONS = [
    "jansson: json_object_set_new and json_array_append_new store the value they are given under the key, at the end; json_deep_copy gives an equal value; memory never runs out; json_dump_callback passes the text of the value piece by piece to its callback",
    "that the text of a json value determines the value (jansson's writer is not verified); paths hold no NUL",
    "Compiler operator| merges settings and picks the recipe (proved in C13); toString of an origin and of a log format are functions of their argument; toJson of the build information is a function of it",
    "std::filesystem's parent_path and operator/ are functions of their arguments",
]
J = z3.Int('j')
MAP = z3.ArraySort(INT, INT)
MODELS = []


def model(rx):
    def deco(fn):
        MODELS.append((re.compile(rx), fn))
        return fn
    return deco


def strval(ex, s):
    return ex.fun('json.strval', SEQ, INT)(s)


def intval(ex, n):
    return ex.fun('json.intval', INT, INT)(iv(n))


def arrval(ex, a, n):
    return ex.fun('json.arrval', MAP, INT, INT)(a, iv(n))


def objval(ex, m):
    return ex.fun('json.objval', MAP, INT)(m)


def fv(ex, n, *a):
    return ex.fun('json.' + n, *([INT] * (len(a) + 1)))(*a)


def code(ex, st, s):
    """a number for a key; a literal key has a number of its own"""
    s = z3.simplify(s)
    lits = ex.__dict__.setdefault('c26lits', {})
    if not free(s):
        if s.sexpr() not in lits:
            lits[s.sexpr()] = (s, len(lits))
        return z3.IntVal(lits[s.sexpr()][1])
    c = ex.fun('json.code', SEQ, INT)(s)
    for t, k in lits.values():
        st.facts.append((c == k) == (s == t))
    return c


def free(s):
    return z3.is_const(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED or any(free(x) for x in s.children()) or z3.is_app(s) and s.num_args() > 0 and s.decl().kind() == z3.Z3_OP_UNINTERPRETED


def new(ex, st, kind, v=None):
    h = ex.newref()
    if kind == 'val':
        st.ghost['val%d' % h] = v
    elif kind == 'obj':
        st.ghost['map%d' % h] = z3.K(INT, z3.IntVal(0))
    else:
        st.ghost['arr%d' % h], st.ghost['len%d' % h] = z3.K(INT, z3.IntVal(0)), 0
    return h


def val(ex, st, h):
    if not z3.is_int_value(h):
        return fv(ex, 'val', h)
    k, g = h.as_long(), st.ghost
    if 'val%d' % k in g:
        return g['val%d' % k]
    if 'map%d' % k in g:
        return objval(ex, g['map%d' % k])
    if 'arr%d' % k in g:
        return arrval(ex, g['arr%d' % k], g['len%d' % k])
    raise Unsupported('a handle that is gone')


def take(ex, st, h):
    v = val(ex, st, h)
    if not z3.is_int_value(h):
        ex.prove(st, False, 'what is stored is a value of its own')
    else:
        for n in ('val', 'map', 'arr', 'len'):
            st.ghost.pop('%s%d' % (n, h.as_long()), None)
    st.facts.append(v >= 1)
    return v


def P(ex, st, h):
    return Ptr(z3.IntVal(h), 0)


@model(r'json_object$')
def m_object(ex, st, a, n):
    return P(ex, st, new(ex, st, 'obj'))


@model(r'json_array$')
def m_array(ex, st, a, n):
    return P(ex, st, new(ex, st, 'arr'))


@model(r'json_stringn?(_nocheck)?$')
def m_string(ex, st, a, n):
    if 'json_stringn' in n:
        raise Unsupported(n)
    return P(ex, st, new(ex, st, 'val', strval(ex, cstr_seq(ex, st, a[0]))))


@model(r'json_integer$')
def m_integer(ex, st, a, n):
    return P(ex, st, new(ex, st, 'val', intval(ex, a[0])))


@model(r'json_deep_copy')
def m_copy(ex, st, a, n):
    return P(ex, st, new(ex, st, 'val', val(ex, st, jansson.handle(ex, st, a[0]))))


@model(r'json_object_set_new(_nocheck)?$')
def m_set(ex, st, a, n):
    h = jansson.handle(ex, st, a[0])
    k = 'map%d' % h.as_long() if z3.is_int_value(h) else ''
    ex.prove(st, k in st.ghost, 'members are added to an object that is being built')
    if k not in st.ghost:
        raise Unsupported('json_object_set_new')
    v = take(ex, st, jansson.handle(ex, st, a[2]))
    st.ghost[k] = z3.Store(st.ghost[k], code(ex, st, cstr_seq(ex, st, a[1])), v)
    return 0


@model(r'json_array_append_new$')
def m_append(ex, st, a, n):
    h = jansson.handle(ex, st, a[0])
    k = h.as_long() if z3.is_int_value(h) else 0
    ex.prove(st, 'arr%d' % k in st.ghost, 'elements are added to an array that is being built')
    if 'arr%d' % k not in st.ghost:
        raise Unsupported('json_array_append_new')
    v = take(ex, st, jansson.handle(ex, st, a[1]))
    ln = st.ghost['len%d' % k]
    st.ghost['arr%d' % k], st.ghost['len%d' % k] = z3.Store(st.ghost['arr%d' % k], iv(ln), v), add(ln, 1)
    ex.__dict__.setdefault('c26log', {})[k] = v.decl().name() if z3.is_app(v) else ''
    return 0


@model(r'json_(decref|incref|delete)')
def m_ref(ex, st, a, n):
    return None


@model(r'json_\w+')
def m_other(ex, st, a, n):
    if n.endswith('json_dump_callback'):
        return dump(ex, st, a)
    raise Unsupported(n)


def text(ex, v):
    return ex.fun('json.text', INT, SEQ)(v)


def dump(ex, st, a):
    """the text of the value, piece by piece, through the callback"""
    v = val(ex, st, jansson.handle(ex, st, a[0]))
    ex.prove(st, not isz(a[3]) and not a[3] & 0x10000, 'the whole value is written')
    f = ex.mod.funcs[a[1].name]
    piece = ex.fresh('piece', SEQ)

    def once(s):
        s.facts.append(z3.Length(piece) < 2 ** 62)
        s.ghost['piece'] = piece
        return ex.run_func(s, f, [Ptr(CStr(piece)), z3.Length(piece), a[2]])
    sinks = []
    ex.dry += 1
    for s, o in once(st.copy()):
        for l in ex.locs(st, s):
            if l[0] in ('ghostcell', 'heap') and (l[2][1] if l[0] == 'ghostcell' else '') == 'str' and l not in sinks:
                sinks.append(l)
    ex.dry -= 1
    sinks = [l for l in sinks if not isinstance(ex.getloc(st, l), Poison)]
    ex.prove(st, len(sinks) == 1, 'the text is written to a string')
    if len(sinks) != 1:
        raise Unsupported('no sink')
    l = sinks[0]
    old, s = ex.getloc(st, l), st.copy()
    sofar = ex.fresh('sofar', SEQ)
    ex.setloc(s, l, sofar)
    s.ghost['sink'] = (l, sofar)
    for s2, o in once(s):
        ex.prove(s2, o[0] == 'ret' and conj(eq(o[1], 0), ex.getloc(s2, l) == z3.Concat(sofar, piece)), 'every piece of the text is added at the end')
    ex.setloc(st, l, z3.simplify(z3.Concat(old, text(ex, v))))
    return 0


class PieceInv:
    """copying a piece, character by character"""

    def __init__(self, s0):
        self.s0, self.loc = s0, None

    def position(self, ex, st):
        for l in ex.locs(self.s0, st) if self.loc is None else ():
            v = ex.getloc(st, l) if l[0] == 'cell' else None
            if isinstance(v, Ptr) and isinstance(v.base, CStr) and v.base.seq.eq(st.ghost['piece']):
                self.loc = l
        if self.loc is None:
            return None
        v = ex.getloc(st, self.loc)
        return add(v.c, mul(v.s, v.i)) if v.s else v.c

    def goals(self, ex, st):
        l, sofar = st.ghost['sink']
        p, pc = self.position(ex, st), st.ghost['piece']
        if p is None:
            return z3.BoolVal(True)
        p = iv(p)
        return z3.And(p >= 0, p <= z3.Length(pc), ex.getloc(st, l) == z3.Concat(sofar, z3.SubSeq(pc, 0, p)))

    def assume(self, ex, st):
        if 'sink' in st.ghost:
            st.facts.append(self.goals(ex, st))
            p, pc = self.position(ex, st), st.ghost['piece']
            if p is not None:
                st.facts.append(z3.Implies(iv(p) == z3.Length(pc), z3.SubSeq(pc, 0, iv(p)) == pc))

    def check(self, ex, st, which, hdr=None):
        if 'sink' in st.ghost:
            p, pc = self.position(ex, st), st.ghost['piece']
            p = iv(p if p is not None else 0)
            lemma = z3.Implies(z3.And(p >= 1, p <= z3.Length(pc)), z3.SubSeq(pc, 0, p) == z3.Concat(z3.SubSeq(pc, 0, p - 1), z3.Unit(pc[p - 1])))
            ex.prove(st, self.goals(ex, st), 'the text so far %s' % which, extra=[lemma])


class ListInv:
    """elements appended: the n-th is that of the n-th entry of the list"""

    def __init__(self, c, s0):
        self.c, self.s0 = c, s0

    def formula(self, ex, st, j):
        out = []
        for g, v in st.ghost.items():
            if g.startswith('arr') and g in self.s0.ghost:
                k = int(g[3:])
                F = self.c.element(ex, st, ex.__dict__.get('c26log', {}).get(k, ''))
                if F is None:
                    continue
                out.append((v, z3.Implies(z3.And(j >= 0, j < iv(st.ghost['len%d' % k])), z3.Select(v, j) == F(j))))
        return out

    def assume(self, ex, st):
        for v, f in self.formula(ex, st, J):
            if free(v):
                st.facts.append(z3.ForAll([J], f, patterns=[z3.Select(v, J)]))

    def check(self, ex, st, which, hdr=None):
        q = ex.fresh('q', INT)
        for v, f in self.formula(ex, st, q):
            ex.prove(st, f, 'the list so far %s' % which)


class Build(Contract):
    base = 'Maike::Db::makeBuildCommand'

    def __init__(self, has):
        self.dfl = has

    def loop(self, ex, s0):
        return PieceInv(s0) if 'piece' in s0.ghost else ListInv(self, s0)

    def compiler(self, ex, st, p, name):
        h, r = ex.fresh('config', INT, (1, None)), ex.fresh('recipe', SEQ)
        st.facts.append(h >= 1)
        acc(ex, st, 'spec::make', [acc(ex, st, 'spec::config', [p]), Ptr(h, 0)])
        ex.gstore(st, acc(ex, st, 'spec::recipe', [p]), 'path', r)
        return h, r

    def entry(self, ex, f):
        st = State()
        self.out, self.rec, self.path, self.info = Ptr(Obj('out', None)), Ptr(Obj('rec', None)), Ptr(Obj('path', 40, fresh=False)), Ptr(Obj('info', None, fresh=False))
        self.bi, self.deps, self.def_ = Ptr(Obj('build_info', None, fresh=False)), Ptr(Obj('deps', 24, fresh=False)), Ptr(Obj('default', None, fresh=False))
        self.size = [acc(ex, st, 'spec::sizes', [k]) for k in range(4)]
        self.name = ex.fresh('source', SEQ)
        ex.gstore(st, self.path, 'path', self.name)
        self.own, self.dflt = self.compiler(ex, st, acc(ex, st, 'spec::own', [self.info]), 'own'), self.compiler(ex, st, self.def_, 'default')
        st.facts.append(self.own[0] != self.dflt[0])
        self.has = z3.BoolVal(self.dfl)
        acc(ex, st, 'spec::set_default', [self.info, self.def_ if self.dfl else Ptr(0)])
        self.vecs = []
        for p in (acc(ex, st, 'spec::targets', [self.info]), self.deps):
            n, d = ex.fresh('n', INT, (0, 2 ** 40)), ex.fresh('data', INT, (1, 2 ** 40 - 1))
            ex.assume_range(st, n, (0, 2 ** 40))
            ex.assume_range(st, d, (1, 2 ** 40 - 1))
            ex.gstore(st, p, 'len', n)
            ex.gstore(st, p, 'data', d)
            self.vecs.append((n, d))
        st.facts.append(self.vecs[0][1] != self.vecs[1][1])
        self.id, self.fmt = ex.fresh('id', INT, (0, 2 ** 63)), ex.fresh('format', INT, (0, 1))
        ex.assume_range(st, self.id, (0, 2 ** 63))
        ex.assume_range(st, self.fmt, (0, 1))
        acc(ex, st, 'spec::record', [self.rec, self.id, self.path, self.info])
        ex.c26log = {}
        ex.c26lits = {}
        return st, [self.out, self.rec, self.bi, self.deps, self.fmt]

    def element(self, ex, st, kind):
        s = st.copy()
        (tn, td), (dn, dd) = self.vecs
        if kind == 'json.strval':
            return lambda j: strval(ex, ex.gload(s, acc(ex, s, 'spec::target_name', [Ptr(td, 0, self.size[0], j)]), 'path'))
        if kind == 'json.dep':
            return lambda j: dep(ex, s, Ptr(dd, 0, self.size[1], j))
        return None

    def post(self, ex, st, o, a):
        if o[0] == 'exc':
            return ex.prove(st, st.ghost.get('unmergeable', False), 'an error only when the settings cannot be merged')
        ex.prove(st, not st.ghost.get('unmergeable', False), 'settings that cannot be merged are an error')
        (ho, ro), (hd, rd) = self.own, self.dflt
        r = z3.If(z3.And(self.has, z3.Length(ro) == 0), rd, ro)
        cfg = z3.If(self.has, fv(ex, 'merge', fv(ex, 'val', hd), fv(ex, 'val', ho)), fv(ex, 'val', ho))
        e = ex.gload(st, acc(ex, st, 'spec::exe', [self.out]), 'path')
        parent, div = ex.fun('path.parent_path', SEQ, SEQ), ex.fun('path.div', SEQ, SEQ, SEQ)
        ex.prove(st, z3.Implies(z3.Length(r) != 0, e == r), 'the recipe is run')
        shell = z3.If(z3.Length(parent(self.name)) != 0, self.name, div(models.lit(b'.'), self.name))
        ex.prove(st, z3.Implies(z3.Length(r) == 0, e == shell), 'without a recipe the file itself is run')
        args = acc(ex, st, 'spec::args', [self.out])
        ok = ex.prove(st, eq(vec_len(ex, st, args), 2), 'two arguments')
        s = st.copy()
        first, second = (ex.gload(s, acc(ex, s, 'spec::arg', [args, k]), 'str') for k in (0, 1))
        ex.prove(st, first == models.lit(b'compile'), 'the first one is compile')
        t = z3.simplify(second)
        while z3.is_app(t) and t.decl().name() != 'json.text' and t.num_args() == 1:
            t = t.arg(0)
        v = t.arg(0) if z3.is_app(t) and t.decl().name() == 'json.text' else None
        ex.prove(st, v is not None and v.decl().name() == 'json.objval', 'the second one is the text of an object')
        if v is None or v.decl().name() != 'json.objval':
            return
        M = v.arg(0)
        get = lambda k: z3.simplify(z3.Select(M, code(ex, st, models.lit(k))))
        ex.prove(st, get(b'source_file') == strval(ex, self.name), 'it names the source file')
        ex.prove(st, get(b'compiler_cfg') == cfg, 'it has the merged settings')
        ex.prove(st, get(b'task_id') == intval(ex, self.id), 'it has the task id')
        ex.prove(st, get(b'build_info') == fv(ex, 'info', z3.IntVal(ex.ptr_to_ref(self.bi)) if not isz(ex.ptr_to_ref(self.bi)) else ex.ptr_to_ref(self.bi)), 'it has the build information')
        ex.prove(st, get(b'log_format') == strval(ex, name(ex, 'format', self.fmt)), 'it has the log format')
        for k, kind, (n, d), w in ((b'targets', 'json.strval', self.vecs[0], 'target'), (b'dependencies', 'json.dep', self.vecs[1], 'dependency')):
            x = get(k)
            isarr = z3.is_app(x) and x.decl().name() == 'json.arrval'
            ex.prove(st, isarr, 'it has a list for each %s' % w)
            if not isarr:
                continue
            q, F = ex.fresh('q', INT), self.element(ex, st, kind)
            ex.prove(st, x.arg(1) == n, 'every %s is listed, once' % w)
            ex.prove(st, z3.Implies(z3.And(q >= 0, q < n), z3.Select(x.arg(0), q) == F(q)), 'the n-th in the list is the n-th %s' % w)


@model(r'std::vector::vector')
def m_vector(ex, st, a, n):
    if 'initializer_list<std::__cxx11::basic_string' not in ex.mod.demangled(n) or isz(a[2]):
        return models.m_vector(ex, st, a, n)
    r = ex.newref()
    ex.gstore(st, a[0], 'len', a[2])
    ex.gstore(st, a[0], 'data', r)
    for k in range(a[2]):
        p = a[1]
        ex.gstore(st, Ptr(r, 0, 32, k), 'str', ex.gload(st, Ptr(p.base, p.c + 32 * k, p.s, p.i), 'str'))
    return None


def name(ex, what, v):
    return ex.fun('name.' + what, INT, SEQ)(iv(v))


@model(r'Maike::Db::toString')
def m_name(ex, st, a, n):
    return Ptr(CStr(name(ex, 'origin' if 'Origin' in ex.mod.demangled(n) else 'format', a[0])))


def dep(ex, st, p):
    return fv(ex, 'dep', iv(ex.ptr_to_ref(p))) if not p.s else ex.fun('json.dep', INT, INT, INT)(iv(p.base), iv(p.i))


@model(r'Maike::Db::toJson$')
def m_dep(ex, st, a, n):
    if 'Dependency' not in ex.mod.demangled(n) or isinstance(ex.verifying, Describe):
        return NotImplemented
    v = dep(ex, st, a[1])
    acc(ex, st, 'spec::make', [a[0], P(ex, st, new(ex, st, 'val', v))])
    return None


@model(r'Maike::Build::toJson$')
def m_info(ex, st, a, n):
    if 'Info' not in ex.mod.demangled(n):
        return NotImplemented
    acc(ex, st, 'spec::make', [a[0], P(ex, st, new(ex, st, 'val', fv(ex, 'info', iv(ex.ptr_to_ref(a[1])))))])
    return None


@model(r'Maike::Db::operator\|')
def m_merge(ex, st, a, n):
    """settings merged, by contract (C13)"""
    s2 = st.copy()
    out, x, y = a
    hx, hy = (jansson.handle(ex, st, acc(ex, st, 'spec::config_handle', [p])) for p in (x, y))
    rx, ry = (ex.gload(st, acc(ex, st, 'spec::recipe', [p]), 'path') for p in (x, y))
    v = fv(ex, 'merge', val(ex, st, hx), val(ex, st, hy))
    acc(ex, st, 'spec::make', [acc(ex, st, 'spec::config', [out]), P(ex, st, new(ex, st, 'val', v))])
    ex.gstore(st, acc(ex, st, 'spec::recipe', [out]), 'path', z3.If(z3.Length(ry) != 0, ry, rx))
    s2.ghost['unmergeable'] = True
    return ret(st) + throw(s2)


class Describe(Contract):
    """the description of a dependency: its name, its origin, and its properties"""
    base = 'Maike::Db::toJson'
    sig = re.compile(r'Dependency')

    def loop(self, ex, s0):
        return PropInv(self, s0)

    def entry(self, ex, f):
        st = State()
        ex.c26lits = {}
        self.out, self.d = Ptr(Obj('out', None)), Ptr(Obj('dep', None, fresh=False))
        self.size = [acc(ex, st, 'spec::sizes', [k]) for k in range(4)]
        p = acc(ex, st, 'spec::props', [self.d])
        self.n, self.data = ex.fresh('n', INT, (0, 2 ** 40)), ex.fresh('data', INT, (1, 2 ** 40 - 1))
        ex.assume_range(st, self.n, (0, 2 ** 40))
        ex.assume_range(st, self.data, (1, 2 ** 40 - 1))
        ex.gstore(st, p, 'len', self.n)
        ex.gstore(st, p, 'data', self.data)
        self.name = ex.gload(st, acc(ex, st, 'spec::dep_name', [self.d]), 'path')
        self.origin = acc(ex, st, 'spec::dep_origin', [self.d])
        self.k0 = [code(ex, st, models.lit(x)) for x in (b'ref', b'origin')]
        M = z3.Store(z3.Store(z3.K(INT, z3.IntVal(0)), self.k0[0], strval(ex, self.name)), self.k0[1], strval(ex, name(ex, 'origin', self.origin)))
        self.W = ex.fun('dep.members', INT, MAP)       # after the first i properties
        st.facts.append(self.W(0) == M)
        return st, [self.out, self.d]

    def step(self, ex, st, i):
        s = st.copy()
        p = Ptr(self.data, 0, self.size[2], i)
        nm, vl = (ex.gload(s, acc(ex, s, 'spec::prop_' + w, [p]), 'str') for w in ('name', 'value'))
        st.facts.append(self.W(i + 1) == z3.Store(self.W(i), code(ex, st, nm), strval(ex, vl)))

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'a dependency can be described')
        if o[0] != 'ret':
            return
        h = jansson.handle(ex, st, acc(ex, st, 'spec::handle', [self.out]))
        g = 'map%s' % h
        ex.prove(st, g in st.ghost, 'a dependency is described by an object')
        if g in st.ghost:
            ex.prove(st, st.ghost[g] == self.W(self.n), "the object has the dependency's name, its origin and its properties")


class PropInv:
    def __init__(self, c, s0):
        self.c, self.s0 = c, s0

    def position(self, ex, st):
        for l in ex.locs(self.s0, st):
            if l[0] == 'cell':
                v = ex.getloc(st, l)
                if isinstance(v, Ptr) and isz(v.base) and v.base.eq(self.c.data):
                    return iv(v.i)
                if isz(v) and z3.is_int(v):
                    return v
        return None

    def assume(self, ex, st):
        p = self.position(ex, st)
        if p is None:
            return
        st.facts += [p >= 0, p <= self.c.n]
        self.c.step(ex, st, p)
        for g, v in st.ghost.items():
            if g.startswith('map') and g in self.s0.ghost and not v.eq(self.s0.ghost[g]):
                st.facts.append(v == self.c.W(p))

    def check(self, ex, st, which, hdr=None):
        p = self.position(ex, st)
        if p is None:
            p = z3.IntVal(0)
        ex.prove(st, z3.And(p >= 0, p <= self.c.n), 'position %s' % which)
        for g, v in st.ghost.items():
            if g.startswith('map') and g in self.s0.ghost:
                ex.prove(st, v == self.c.W(p), 'the members so far %s' % which)


def run(S):
    inv = {'invariant': lambda ex, s0, r0, f, h: ex.verifying.loop(ex, s0)}
    m = S.module([DRV], extra=['-fno-access-control'])
    ex = S.exec(m, models_extra=MODELS, opts=inv)
    S.check(ex, Describe())
    for has in (True, False):
        S.check(ex, Build(has))
