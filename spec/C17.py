"""C17: dependencies are resolved by name.

The source files are an array in name order (what std::map is), nm(j) is the class of names of file j (K), find(k) the number of
the file of that class or -1."""
from spec import *
from models import ret, vec_len, vec_data

DRV = os.path.join(os.path.dirname(__file__), 'C17.drv.cpp')
ASSUMPTIONS = ['std::map keeps its elements in the order of operator<, each name once; std::lower_bound has its contract under its precondition (a partitioned range), which is proved',
               'fs::path operator< is a strict total order on classes of equal names', 'storage of different lists does not overlap; a copied list has the elements of the original']
MODELS = []
PAIR = 'std::pair<std::filesystem::__cxx11::path const, Maike::Db::SourceFileInfo>'
nm = z3.Function('name.of.file', INT, INT)
find = z3.Function('file.of.name', INT, INT)
NONE = 2 ** 64 - 1
J = z3.Int('j')


def K(ex, p):
    return ex.fun('path.key', SEQ, INT)(p)


def known(n, j):
    """file j: names increase; find is the inverse of nm"""
    return z3.Implies(z3.And(j >= 0, j < n), find(nm(j)) == j)


def ordered(n, i, j):
    return z3.Implies(z3.And(i >= 0, i < j, j < n), nm(i) < nm(j))


def name(n, k):
    return z3.Or(find(k) == -1, z3.And(find(k) >= 0, find(k) < n, nm(find(k)) == k))


def model(rx):
    def deco(fn):
        MODELS.append((re.compile(rx), fn))
        return fn
    return deco


class Search(Contract):
    """the list of nodes v, in name order"""

    def nodes(self, ex, st, v):
        self.D, self.n = vec_data(ex, st, v), iv(vec_len(ex, st, v))

    def node(self, j):
        return Ptr(self.D, 0, models.type_size(self.ex, 'Maike::Db::SourceFileRecordConst'), j)

    def learn(self, st, j):
        """what is known of node j"""
        ex, j = self.ex, iv(j)
        p = acc(ex, st, 'spec::rec_path', [self.node(j)])
        st.facts.append(z3.Implies(z3.And(j >= 0, j < self.n), z3.And(K(ex, ex.gload(st, p, 'path')) == nm(j), iv(acc(ex, st, 'spec::rec_id', [self.node(j)])) == j, iv(p.base) > 0)))
        st.facts.append(known(self.n, j))


class Resolve(Search):
    base = '{anon}::resolve'

    def entry(self, ex, f):
        self.ex = ex
        st = State()
        self.dep, v, by = Ptr(Obj('dep', None, fresh=False)), Ptr(Obj('nodes', None, fresh=False)), Ptr(Obj('by', 40, fresh=False))
        self.nodes(ex, st, v)
        self.path = ex.gload(st, acc(ex, st, 'spec::dep_name', [self.dep]), 'path')
        self.k = K(ex, self.path)
        self.ref = acc(ex, st, 'spec::dep_ref', [self.dep])
        self.ignore = ex.fresh('ignore', INT, (0, 1))
        ex.assume_range(st, self.ignore, (0, 1))
        st.facts.append(name(self.n, self.k))
        return st, [self.dep, v, self.ignore, by]

    def post(self, ex, st, o, a):
        r = iv(acc(ex, st, 'spec::dep_ref', [self.dep]))
        there = find(self.k) >= 0
        self.learn(st, find(self.k))
        if o[0] == 'exc':
            return ex.prove(st, z3.And(z3.Not(there), self.ignore == 0), 'only a dependency without a node is an error, unless errors are ignored')
        ex.prove(st, z3.Implies(there, r == find(self.k)), 'a dependency refers to the node of its name')
        ex.prove(st, z3.Implies(z3.Not(there), z3.And(self.ignore != 0, r == iv(self.ref))), 'a dependency without a node is an error, or refers to no node')
        ex.prove(st, ex.gload(st, acc(ex, st, 'spec::dep_name', [self.dep]), 'path') == self.path, 'a dependency keeps its name')

    def apply(self, ex, st, a, name_):
        c = ex.verifying
        c.requires(ex, st, a[1])
        k = K(ex, ex.gload(st, acc(ex, st, 'spec::dep_name', [a[0]]), 'path'))
        st.facts.append(name(c.n, k))
        ig = bv(ex.to_bool(a[2]))
        out = []
        for s, b in models.fork(ex, st, find(k) >= 0):
            if b:
                acc(ex, s, 'spec::dep_set', [a[0], find(k)])
                out += ret(s)
                continue
            for s, b in models.fork(ex, s, ig):
                if not b:
                    s.ghost['missing'] = True
                out += ret(s) if b else models.throw(s)
        return out


class Get(Search):
    base = 'Maike::Db::getNode'

    def entry(self, ex, f):
        self.ex = ex
        st = State()
        self.out, g, p = Ptr(Obj('out', None)), Ptr(Obj('graph', None, fresh=False)), Ptr(Obj('name', 40, fresh=False))
        self.nodes(ex, st, acc(ex, st, 'spec::nodes', [g]))
        self.k = K(ex, ex.gload(st, p, 'path'))
        st.facts.append(name(self.n, self.k))
        return st, [self.out, g, p]

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'looking a name up does not throw')
        v = bv(ex.to_bool(acc(ex, st, 'spec::rec_valid', [self.out])))
        there = find(self.k) >= 0
        self.learn(st, find(self.k))
        ex.prove(st, v == there, 'a node is found exactly when there is one of that name')
        for s, b in models.fork(ex, st, there):
            if b and not z3.is_false(z3.simplify(v)):
                ex.prove(s, iv(acc(ex, s, 'spec::rec_id', [self.out])) == find(self.k), 'the node found is the one of that name')
                p = [acc(ex, s, 'spec::rec_' + w, [x]) for w in ('path', 'info') for x in (self.out, self.node(find(self.k)))]
                ex.prove(s, z3.And(bv(ex.ptr_eq(s, p[0], p[1])), bv(ex.ptr_eq(s, p[2], p[3]))), 'the node found is that of the list')


@model(r'std::lower_bound')
def m_lower(ex, st, a, n):
    c = ex.verifying
    d = ex.mod.demangled(n)
    fs = [f for f in ex.mod.funcs.values() if f.lines is not None and ex.basename(f.name).endswith('CompareSourceFileRecord::operator()') and '(Maike::Db::SourceFileRecordConst const&, std' in ex.mod.demangled(f.name)]
    if not isinstance(c, Search) or 'CompareSourceFileRecord' not in d or len(fs) != 1 or len(a) < 3:
        return NotImplemented
    ex.prove(st, z3.And(bv(ex.ptr_eq(st, a[0], c.node(0))), bv(ex.ptr_eq(st, a[1], c.node(c.n)))), 'all nodes are searched')
    k = K(ex, ex.gload(st, a[2], 'path'))
    i, j = ex.fresh('i', INT), ex.fresh('j', INT)
    s2 = st.copy()
    s2.pc.append(z3.And(i >= 0, i < c.n))
    c.learn(s2, i)
    for s3, o in ex.run_func(s2, fs[0], [Ptr(Obj('cmp', 1)), c.node(i), a[2]]):
        if o[0] != 'ret':
            raise Unsupported('comparison throws')
        ex.prove(s3, bv(ex.to_bool(o[1])) == (nm(i) < k), 'nodes are compared by name')
    ex.prove(st, z3.Implies(z3.And(i >= 0, i < j, j < c.n, nm(j) < k), nm(i) < k), 'the nodes are ordered for the search', extra=[ordered(c.n, i, j)])
    r = ex.fresh('found', INT, (0, 2 ** 60))
    st.facts += [z3.And(r >= 0, r <= c.n), z3.Implies(r < c.n, nm(r) >= k), z3.Implies(r > 0, nm(r - 1) < k)]
    c.learn(st, r)
    # the position of the name, if there is one, against r
    x = find(k)
    st.facts += [ordered(c.n, r, x), ordered(c.n, x, r - 1)]
    return c.node(r)


# ---------------------------------------------------------------------------------------------- construction
def is_map(st, p):
    g = st.ghost.get('map')
    return g is not None and isinstance(p, Ptr) and p.base is g.base and p.c == g.c


@model(r'std::map::map')
def m_map(ex, st, a, n):
    if not isinstance(ex.verifying, Construct) or len(a) != 2 or not is_map(st, a[1]) or '&&' not in ex.mod.demangled(n):
        return NotImplemented
    st.ghost['map'] = a[0]
    return None


@model(r'std::map::(~map)')
def m_unmap(ex, st, a, n):
    return None if isinstance(ex.verifying, Construct) else NotImplemented


@model(r'std::map::(begin|cbegin|end|cend|size)')
def m_ends(ex, st, a, n):
    c = ex.verifying
    if not isinstance(c, Construct) or not is_map(st, a[0]):
        return NotImplemented
    if n and ex.basename(n).endswith('size'):
        return c.n
    return c.file(0 if 'begin' in ex.basename(n).split('::')[-1] else c.n, -32)


@model(r'std::_Rb_tree_increment')
def m_inc(ex, st, a, n):
    c = ex.verifying
    if not isinstance(c, Construct) or not isz(a[0].base) or not a[0].base.eq(c.N):
        return NotImplemented
    return Ptr(a[0].base, a[0].c, a[0].s, add(a[0].i, 1))


DEP = 'Maike::Db::Dependency'


def deps_of(ex, n):
    return models.first_targ(ex.mod.demangled(n), 'std::vector') == DEP


@model(r'std::vector::vector')
def m_copy(ex, st, a, n):
    """a list of dependencies copied or moved"""
    if not isinstance(ex.verifying, Construct) or not deps_of(ex, n) or len(a) != 2:
        return models.m_vector(ex, st, a, n)
    ps = models.param_types(ex.mod.demangled(n))
    ln, d = vec_len(ex, st, a[1]), vec_data(ex, st, a[1])
    if '&&' in ps[0]:
        ex.gstore(st, a[1], 'len', 0)
        ex.gstore(st, a[1], 'data', 0)
    elif 'const&' in ps[0]:
        c, new = ex.verifying, ex.newref()
        for k in c.keys:
            h = ex.heap_arr(st, k)
            st.heap[k] = z3.Store(h, new, z3.Select(h, iv(d)))
        d = new
    else:
        return NotImplemented
    ex.gstore(st, a[0], 'len', ln)
    ex.gstore(st, a[0], 'data', d)
    return None


@model(r'std::vector::operator=')
def m_assign(ex, st, a, n):
    if not isinstance(ex.verifying, Construct) or not deps_of(ex, n) or '&&' not in models.param_types(ex.mod.demangled(n))[0]:
        return NotImplemented
    ln, d = vec_len(ex, st, a[1]), vec_data(ex, st, a[1])
    ex.gstore(st, a[1], 'len', 0)
    ex.gstore(st, a[1], 'data', 0)
    ex.gstore(st, a[0], 'len', ln)
    ex.gstore(st, a[0], 'data', d)
    return a[0]


class Construct(Contract):
    base = 'spec::construct'

    def entry(self, ex, f):
        self.ex = ex
        st = State()
        self.g, m = Ptr(Obj('graph', None)), Ptr(Obj('files', 48, fresh=False))
        st.ghost['map'], st.ghost['missing'] = m, False
        self.S = models.type_size(ex, PAIR) + 32
        self.N, self.n = ex.fresh('files', INT), ex.fresh('n', INT, (0, 2 ** 40))
        ex.assume_range(st, self.n, (0, 2 ** 40))
        st.facts.append(z3.And(self.N >= 1, self.N < 2 ** 40))
        self.ignore = ex.fresh('ignore', INT, (0, 1))
        ex.assume_range(st, self.ignore, (0, 1))
        d = Ptr(ex.fresh('d', INT), 0, models.type_size(ex, DEP), 0)
        t = st.copy()
        self.kref = self.probe(ex, t, lambda: acc(ex, t, 'spec::dep_ref', [d]))
        self.kname = self.probe(ex, t, lambda: ex.gload(t, acc(ex, t, 'spec::dep_name', [d]), 'path'))
        self.korigin = self.probe(ex, t, lambda: acc(ex, t, 'spec::dep_origin', [d]))
        self.keys = [self.kref, self.kname, self.korigin]
        for k in self.keys:
            ex.heap_arr(st, k)
        self.pos = None
        return st, [self.g, m, self.ignore]

    def probe(self, ex, t, get):
        before = dict(t.heap)
        get()
        ks = [k for k in t.heap if k not in before]
        if len(ks) != 1:
            raise Unsupported('field of a dependency')
        return ks[0]

    def file(self, j, c=0):
        return Ptr(self.N, c, self.S, j)

    def lists(self, ex, st, j):
        """(data, length) of both lists of file j"""
        v = acc(ex, st, 'spec::value', [self.file(j)])
        return [(iv(vec_data(ex, st, x)), iv(vec_len(ex, st, x))) for x in (acc(ex, st, 'spec::use', [v]), acc(ex, st, 'spec::build', [v]))]

    def node_ok(self, ex, st, D, j):
        r = Ptr(D, 0, models.type_size(ex, 'Maike::Db::SourceFileRecordConst'), j)
        p, i = acc(ex, st, 'spec::rec_path', [r]), acc(ex, st, 'spec::rec_info', [r])
        key, val = acc(ex, st, 'spec::key', [self.file(j)]), acc(ex, st, 'spec::value', [self.file(j)])
        return z3.And(iv(acc(ex, st, 'spec::rec_id', [r])) == j, iv(ex.ptr_to_ref(p)) == iv(ex.ptr_to_ref(key)), iv(ex.ptr_to_ref(i)) == iv(ex.ptr_to_ref(val)))

    def requires(self, ex, st, v):
        """the nodes are those of the files"""
        D, n = vec_data(ex, st, v), vec_len(ex, st, v)
        j = ex.fresh('j', INT)
        ex.prove(st, iv(n) == self.n, 'all nodes are given to the search')
        ex.prove(st, z3.Implies(z3.And(j >= 0, j < self.n), self.node_ok(ex, st, iv(D), j)), 'node j is the j-th source file in name order')

    def loop(self, ex, s0):
        return Inv(self, s0)

    def post(self, ex, st, o, a):
        if o[0] == 'exc':
            return ex.prove(st, st.ghost['missing'], 'construction fails only for a dependency without a node')
        self.requires(ex, st, acc(ex, st, 'spec::nodes', [self.g]))
        ex.prove(st, self.pos == self.n if self.pos is not None else z3.BoolVal(False), 'the dependencies of all files are resolved')


class Inv:
    def __init__(self, c, s0):
        self.c, self.s0, self.loc, self.kind = c, s0, None, None

    def at(self, ex, st):
        v = ex.getloc(st, self.loc)
        return iv(v.i if v.s else 0)

    def assume(self, ex, st):
        c = self.c
        for l in ex.locs(self.s0, st):
            v = ex.getloc(st, l) if l[0] == 'cell' else None
            if not isinstance(v, Ptr) or isinstance(v.base, Obj):
                continue
            if isz(v.base) and v.base.eq(c.N):
                self.loc, self.kind = l, 'files'
            elif v.s == c.kref[0] and self.kind is None:
                self.loc, self.kind = l, 'deps'
        if self.kind is None:
            return
        self.h = st
        p = self.at(ex, st)
        if self.kind == 'files':
            nodes = acc(ex, st, 'spec::nodes', [c.g])
            self.fill = not ex.entails(self.s0, iv(vec_len(ex, self.s0, nodes)) == c.n)
            # counters that start at -1
            self.cnt = [l for l in ex.locs(self.s0, st) if l[0] == 'cell' and not isz(ex.getloc(self.s0, l)) and ex.getloc(self.s0, l) == NONE] if self.fill else []
        if self.kind == 'deps':
            self.base = ex.getloc(st, self.loc).base
            h0 = ex.heap_arr(self.s0, c.kref)
            st.heap[c.kref] = z3.Store(h0, iv(self.base), ex.fresh('refs', z3.ArraySort(INT, INT)))
        st.facts += self.formula(ex, st)
        if self.kind == 'files':
            # the files to come are as they were given (the frame conditions below)
            st.facts += [z3.And(d >= 0, d < 2 ** 40) for d, n in c.lists(ex, st, p)]
        self.hdr = st.copy()
        if self.kind == 'files' and not self.fill:
            c.pos = p

    def formula(self, ex, st):
        c, p = self.c, self.at(ex, st)
        if self.kind == 'deps':
            rd = lambda s, k, x: z3.Select(z3.Select(ex.heap_arr(s, k), iv(self.base)), x)
            f = find(K(ex, rd(st, c.kname, J)))
            return [p >= 0, z3.ForAll([J], rd(st, c.kref, J) == z3.If(z3.And(J >= 0, J < p), z3.If(f >= 0, f, rd(self.s0, c.kref, J)), rd(self.s0, c.kref, J))),
                    z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < p, c.ignore == 0), f >= 0))]
        if not self.fill:
            return [p >= 0, p <= c.n]
        nodes = acc(ex, st, 'spec::nodes', [c.g])
        D, n = iv(vec_data(ex, st, nodes)), iv(vec_len(ex, st, nodes))
        return [iv(ex.getloc(st, l)) == z3.If(p == 0, NONE, p - 1) for l in self.cnt] + [p >= 0, p <= c.n, n == p, z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < p), c.node_ok(ex, st, D, J)))]

    def check(self, ex, st, which, hdr=None):
        c = self.c
        if self.kind is None:
            raise Unsupported('unknown loop')
        p = self.at(ex, st)
        if which == 'init':
            ex.prove(st, p == 0, 'the loop starts at the first element')
        for k, g in enumerate(self.formula(ex, st)):
            ex.prove(st, g, 'loop invariant %d %s' % (k, which))
        if which == 'init' or self.kind == 'deps':
            if self.kind == 'deps':
                x = ex.fresh('x', INT)
                ex.prove(st, z3.Implies(x != iv(self.base), z3.Select(ex.heap_arr(st, c.kref), x) == z3.Select(ex.heap_arr(self.s0, c.kref), x)), 'only the list at hand is changed')
            return
        if self.fill:
            return
        i, h = p - 1, self.hdr.copy()
        old, new = c.lists(ex, h, i), c.lists(ex, st, i)
        for what, (d0, n0), (d, n) in zip(('use', 'build'), old, new):
            ex.prove(st, n == n0, 'no ' + what + ' dependency is lost or added')
            k = ex.fresh('k', INT)
            rd = lambda s, key, x: z3.Select(z3.Select(ex.heap_arr(s, key), x), k)
            f = find(K(ex, rd(st, c.kname, d)))
            inr = z3.And(k >= 0, k < n)
            ex.prove(st, z3.Implies(inr, z3.And(rd(st, c.kname, d) == rd(h, c.kname, d0), rd(st, c.korigin, d) == rd(h, c.korigin, d0))), 'a ' + what + ' dependency keeps its name and origin')
            ex.prove(st, z3.Implies(inr, z3.If(f >= 0, rd(st, c.kref, d) == f, z3.And(c.ignore != 0, rd(st, c.kref, d) == rd(h, c.kref, d0)))), 'every ' + what + ' dependency refers to the node of its name, or to none')
        j = ex.fresh('other', INT)
        for x, y in zip(c.lists(ex, h, j), c.lists(ex, st, j)):
            ex.prove(st, z3.Implies(j != i, z3.And(x[0] == y[0], x[1] == y[1])), 'the dependencies of other files are left alone')
        x = ex.fresh('x', INT)
        ex.prove(st, z3.Implies(z3.And(x >= 1, x < 2 ** 40, *[x != d for d, _ in old + new]), z3.Select(ex.heap_arr(st, c.kref), x) == z3.Select(ex.heap_arr(h, c.kref), x)), 'no other list is changed')


def run(S):
    mod = S.module([DRV], extra=['-fno-access-control'])
    res = Resolve()
    for c in (res, Get(), Construct()):
        ex = S.exec(mod, [res] if isinstance(c, Construct) else [], {'invariant': lambda ex, s0, r0, f, h: ex.verifying.loop(ex, s0) if hasattr(ex.verifying, 'loop') else None}, models_extra=MODELS)
        S.check(ex, c)
