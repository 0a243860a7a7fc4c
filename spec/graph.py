"""C01, C02: contracts of processGraphNodeRecursive and visitNodesInTopoOrder over an arbitrary graph.

Node n has edges 0..deg(n)-1 with targets T(n, j) (INV: no target).  Reach is any transitive relation that contains the edges.
Marks, stack and ghost state (delivered, rank, position of the open entry) are related by the invariants below."""
from spec import *
from models import ret, throw, vec_len, vec_data

DRV = os.path.join(os.path.dirname(__file__), 'graph.drv.cpp')
INV = 2 ** 64 - 1
A = z3.ArraySort
B = z3.BoolSort()
FN = 'Maike::graphutils_detail::processGraphNodeRecursive'
idf = z3.Function('id', INT, INT)
deg = z3.Function('deg', INT, INT)
E = z3.Function('edge', INT, INT, INT)
tgt = z3.Function('target', INT, INT)
gnode = z3.Function('node', INT, INT)
R = z3.Function('reach', INT, INT, B)
N = z3.Int('N')
n_, j_, i_, m_ = z3.Ints('n j i m')


def T(n, j):
    return tgt(E(n, j))


def axioms():
    a, b, c = z3.Ints('a b c')
    return [N >= 0, N < 2 ** 40,
            z3.ForAll([n_], z3.And(deg(n_) >= 0, deg(n_) < 2 ** 40), patterns=[deg(n_)]),
            z3.ForAll([n_, j_], z3.And(E(n_, j_) >= 1, E(n_, j_) < 2 ** 39), patterns=[E(n_, j_)]),
            z3.ForAll([n_, j_], z3.Implies(z3.And(0 <= n_, n_ < N, 0 <= j_, j_ < deg(n_)),
                                           z3.Or(T(n_, j_) == INV, z3.And(0 <= T(n_, j_), T(n_, j_) < N))), patterns=[E(n_, j_)]),
            z3.ForAll([n_], z3.Implies(z3.And(0 <= n_, n_ < N), z3.And(idf(gnode(n_)) == n_, gnode(n_) >= 1, gnode(n_) < 2 ** 39)),
                      patterns=[gnode(n_)]),
            z3.ForAll([n_, j_], z3.Implies(z3.And(0 <= n_, n_ < N, 0 <= j_, j_ < deg(n_), T(n_, j_) != INV), R(n_, T(n_, j_))),
                      patterns=[E(n_, j_)]),
            z3.ForAll([a, b, c], z3.Implies(z3.And(R(a, b), R(b, c)), R(a, c)), patterns=[z3.MultiPattern(R(a, b), R(b, c))])]


class V:
    """the verification state: marks M, stack S1/S2/L, ghosts"""

    def __init__(self, ex, st, vis):
        self.M = z3.Select(ex.heap_arr(st, (4, 0, 'i32')), iv(vec_data(ex, st, vis)))
        self.n = vec_len(ex, st, vis)
        s = st.ghost.get('!stack')
        if s is not None and s is not False:
            self.L = iv(vec_len(ex, st, s))
            d = iv(vec_data(ex, st, s))
            self.S1 = z3.Select(ex.heap_arr(st, (16, 0, 'ptr')), d)
            self.S2 = z3.Select(ex.heap_arr(st, (16, 8, 'ptr')), d)
        self.d, self.rank, self.c, self.p, self.w = [st.ghost[k] for k in ('del', 'rank', 'count', 'p', 'w')]
        self.root = st.ghost.get('root')
        self.d0 = st.ghost.get('del0')

    def s(self, i):
        return idf(self.S1[i])

    def nodes(self, body, pats=None):
        return z3.ForAll([n_], z3.Implies(z3.And(0 <= n_, n_ < N), body), patterns=pats or [])

    def base(self):
        """between calls, and always"""
        return [('marks are 0, 1 or 2', self.nodes(z3.And(0 <= self.M[n_], self.M[n_] <= 2), [self.M[n_]])),
                ('a node is delivered exactly when it is done', self.nodes(self.d[n_] == (self.M[n_] == 2), [self.M[n_]])),
                ('a delivered node comes after its targets',
                 z3.ForAll([n_, j_], z3.Implies(z3.And(0 <= n_, n_ < N, self.d[n_], 0 <= j_, j_ < deg(n_), T(n_, j_) != INV),
                                                z3.And(self.d[T(n_, j_)], self.rank[T(n_, j_)] < self.rank[n_])),
                           patterns=[E(n_, j_)])),
                ('deliveries are numbered', self.nodes(z3.Implies(self.d[n_], self.rank[n_] < self.c), [self.rank[n_]]))]

    def idle(self):
        return self.base() + [('no node is half done', self.nodes(self.M[n_] != 1, [self.M[n_]]))]

    def outer(self):
        p, L, s, M = self.p, self.L, self.s, self.M
        return self.base() + [
            ('stack size', L >= 0),
            ('stack entries are nodes of the graph', z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < L),
             z3.And(0 <= s(i_), s(i_) < N, self.S1[i_] >= 1)), patterns=[self.S1[i_]])),
            ('entries carry an edge to their node', z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < L),
             z3.Or(z3.And(i_ == 0, self.S2[i_] == 0), z3.And(self.S2[i_] >= 1, tgt(self.S2[i_]) == s(i_)))), patterns=[self.S2[i_]])),
            ('an open node has one entry, below it only others', self.nodes(z3.Implies(M[n_] == 1, z3.And(
                0 <= p[n_], p[n_] < L, s(p[n_]) == n_)), [M[n_]])),
            ('an open node has no entry above its own', z3.ForAll([n_, i_], z3.Implies(z3.And(
                0 <= n_, n_ < N, M[n_] == 1, p[n_] < i_, i_ < L), s(i_) != n_), patterns=[z3.MultiPattern(M[n_], self.S1[i_])])),
            ('targets of an open node are done or above it', z3.ForAll([n_, j_], z3.Implies(z3.And(
                0 <= n_, n_ < N, M[n_] == 1, 0 <= j_, j_ < deg(n_), T(n_, j_) != INV),
                z3.Or(M[T(n_, j_)] == 2, z3.And(p[n_] < self.w[n_][j_], self.w[n_][j_] < L, s(self.w[n_][j_]) == T(n_, j_)))),
                patterns=[E(n_, j_)])),
            ('what is above an open node is reachable from it', z3.ForAll([n_, i_], z3.Implies(z3.And(
                0 <= n_, n_ < N, M[n_] == 1, p[n_] < i_, i_ < L), R(n_, s(i_))), patterns=[z3.MultiPattern(M[n_], self.S1[i_])])),
            ('stack entries are reachable from the start', z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < L),
             z3.Or(s(i_) == self.root, R(self.root, s(i_)))), patterns=[self.S1[i_]])),
            ('delivered nodes were delivered before or are reachable from the start', self.nodes(z3.Implies(
                self.d[n_], z3.Or(self.d0[n_], n_ == self.root, R(self.root, n_))), [self.d[n_]])),
            ('nothing is undelivered', self.nodes(z3.Implies(self.d0[n_], self.d[n_]), [self.d0[n_]])),
            ('the lowest entry is the start', z3.Implies(L >= 1, s(z3.IntVal(0)) == self.root)),
            ('the start is in the stack or delivered', z3.Or(self.d[self.root], z3.And(L >= 1, s(0) == self.root)))]


def assume(st, fs):
    st.facts.extend(f for _, f in fs)


def prove_all(ex, st, fs, where):
    for nm, f in fs:
        ex.prove(st, f, '%s (%s)' % (nm, where))


class Outer:
    def __init__(self, vis):
        self.vis = vis

    def assume(self, ex, st):
        assume(st, V(ex, st, self.vis).outer())

    def check(self, ex, st, which, hdr=None):
        v = V(ex, st, self.vis)
        prove_all(ex, st, v.outer(), 'traversal loop, ' + which)
        if hdr is not None:
            o = V(ex, hdr, self.vis)
            ex.prove(st, v.nodes(v.M[n_] >= o.M[n_]), 'marks only grow (traversal loop)')
            x = o.s(o.L - 1)
            ex.prove(st, z3.Or(v.M[x] > o.M[x], z3.And(v.M[x] == o.M[x], v.L < o.L)),
                     'every step marks a node or shortens the stack (termination)')


class Inner:
    """visitEdges: x = the node being expanded; stack below L0 and the marks stay; each edge so far is taken care of"""

    def __init__(self, vis, st0, ex, i_cell):
        self.vis, self.s0 = vis, V(ex, st0, vis)
        self.i_cell = i_cell

    def facts(self, ex, st):
        o, v = self.s0, V(ex, st, self.vis)
        i = iv(ex.load(st, self.i_cell, ir.Ty('int', 64)))
        x = o.s(o.L - 1)
        return [('stack grows', v.L >= o.L),
                ('edges so far', z3.And(0 <= i, i <= deg(x))),
                ('marks unchanged', v.nodes(v.M[n_] == o.M[n_], [v.M[n_]])),
                ('entries below unchanged', z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < o.L), z3.And(v.S1[i_] == o.S1[i_], v.S2[i_] == o.S2[i_])),
                                                      patterns=[v.S1[i_]])),
                ('entries below unchanged (edges)', z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < o.L), v.S2[i_] == o.S2[i_]), patterns=[v.S2[i_]])),
                ('pushed entries are unvisited targets', z3.ForAll([i_], z3.Implies(z3.And(o.L <= i_, i_ < v.L), z3.And(
                    v.S1[i_] >= 1, 0 <= v.s(i_), v.s(i_) < N, o.M[v.s(i_)] == 0, v.S2[i_] >= 1, tgt(v.S2[i_]) == v.s(i_), R(x, v.s(i_)))),
                    patterns=[v.S1[i_]])),
                ('pushed entries carry their edge', z3.ForAll([i_], z3.Implies(z3.And(o.L <= i_, i_ < v.L), z3.And(
                    v.S2[i_] >= 1, tgt(v.S2[i_]) == v.s(i_))), patterns=[v.S2[i_]])),
                ('each edge so far leads to a done or pushed node', z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < i, T(x, j_) != INV), z3.Or(
                    o.M[T(x, j_)] == 2, z3.And(o.L <= v.w[x][j_], v.w[x][j_] < v.L, v.s(v.w[x][j_]) == T(x, j_)))), patterns=[E(x, j_)])),
                ('other witnesses unchanged', z3.ForAll([n_], z3.Implies(n_ != x, v.w[n_] == o.w[n_]), patterns=[v.w[n_]]))]

    def assume(self, ex, st):
        assume(st, self.facts(ex, st))

    def check(self, ex, st, which, hdr=None):
        prove_all(ex, st, self.facts(ex, st), 'edges of a node, ' + which)


def ghosts(ex, st):
    st.ghost['del'] = ex.fresh('delivered', A(INT, B))
    st.ghost['rank'] = ex.fresh('rank', A(INT, INT))
    st.ghost['count'] = ex.fresh('count', INT)
    st.ghost['p'] = ex.fresh('p', A(INT, INT))
    st.ghost['w'] = ex.fresh('w', A(INT, A(INT, INT)))


class Traverse(Contract):
    """graphutils_detail::processGraphNodeRecursive(cb, graph, node, visited)"""
    base = FN
    sig = r'^void (?!.*lambda)'

    def entry(self, ex, f):
        st = State()
        self.vis = Ptr(Obj('visited', fresh=False))
        root = ex.fresh('start', INT, (1, 2 ** 39))
        st.pc += [root >= 1, root < 2 ** 39]
        ghosts(ex, st)
        st.ghost['!stack'] = False
        st.ghost['root'] = idf(root)
        st.ghost['del0'] = st.ghost['del']
        st.pc += [0 <= idf(root), idf(root) < N, iv(vec_len(ex, st, self.vis)) == N]
        iv(vec_data(ex, st, self.vis))
        assume(st, V(ex, st, self.vis).idle())
        ex.vis = self.vis
        return st, [Ptr(Obj('cb', fresh=False)), Ptr(Obj('graph', fresh=False)), Ptr(root), self.vis]

    def post(self, ex, st, o, a):
        v = V(ex, st, self.vis)
        if o[0] == 'exc':
            ex.prove(st, z3.Exists([n_], z3.And(0 <= n_, n_ < N, R(n_, n_))), 'an error is reported only if there is a cycle')
            return
        prove_all(ex, st, v.idle(), 'return')
        ex.prove(st, v.d[v.root], 'the start is delivered')
        ex.prove(st, v.nodes(z3.Implies(v.d[n_], z3.Or(v.d0[n_], n_ == v.root, R(v.root, n_)))), 'only what is reachable is delivered')
        ex.prove(st, v.nodes(z3.Implies(v.d0[n_], v.d[n_])), 'what was delivered stays delivered')

    def apply(self, ex, st, a, name):
        vis = a[3]
        v = V(ex, st, vis)
        root = idf(iv(a[2].base)) if not isinstance(a[2].base, Obj) else None
        if root is None:
            raise Unsupported('start node')
        ex.prove(st, iv(v.n) == N, 'one mark per node (at call)')
        ex.prove(st, z3.And(0 <= root, root < N), 'start is a node of the graph (at call)')
        prove_all(ex, st, v.idle(), 'at call')
        s2 = st.copy()
        s2.pc.append(z3.Exists([n_], z3.And(0 <= n_, n_ < N, R(n_, n_))))
        d0 = st.ghost['del']
        ghosts(ex, st)
        key = (4, 0, 'i32')
        d = iv(vec_data(ex, st, vis))
        st.heap[key] = z3.Store(ex.heap_arr(st, key), d, ex.fresh('marks', A(INT, INT)))
        v = V(ex, st, vis)
        assume(st, v.idle())
        st.facts += [v.d[root], v.nodes(z3.Implies(v.d[n_], z3.Or(d0[n_], n_ == root, R(root, n_)))), v.nodes(z3.Implies(d0[n_], v.d[n_]))]
        return ret(st) + throw(s2)


class Public(Contract):
    """spec::from_node and spec::all: everything starts undelivered; marks are set up by the code"""

    def __init__(self, base, single):
        self.base, self.single = base, single

    def entry(self, ex, f):
        st = State()
        ghosts(ex, st)
        st.ghost['!stack'] = False
        st.ghost['del'] = z3.K(INT, z3.BoolVal(False))
        st.ghost['del0'] = st.ghost['del']
        self.root = ex.fresh('start', INT, (1, 2 ** 39))
        st.pc += [self.root >= 1, self.root < 2 ** 39, 0 <= idf(self.root), idf(self.root) < N]
        st.ghost['root'] = idf(self.root)
        g = Ptr(Obj('graph', fresh=False))
        return st, [g, Ptr(self.root)] if self.single else [g]

    def post(self, ex, st, o, a):
        if o[0] == 'exc':
            ex.prove(st, z3.Exists([n_], z3.And(0 <= n_, n_ < N, R(n_, n_))), '%s: an error is reported only if there is a cycle' % self.base)
            return
        d, rank = st.ghost['del'], st.ghost['rank']
        r = idf(self.root)
        order = z3.ForAll([n_, j_], z3.Implies(z3.And(0 <= n_, n_ < N, d[n_], 0 <= j_, j_ < deg(n_), T(n_, j_) != INV),
                                               z3.And(d[T(n_, j_)], rank[T(n_, j_)] < rank[n_])))
        ex.prove(st, order, '%s: every node after everything it depends on (so there is no cycle)' % self.base)
        if self.single:
            ex.prove(st, d[r], '%s: the start is delivered' % self.base)
            ex.prove(st, z3.ForAll([n_], z3.Implies(z3.And(0 <= n_, n_ < N, d[n_]), z3.Or(n_ == r, R(r, n_)))),
                     '%s: only what is reachable is delivered' % self.base)
        else:
            ex.prove(st, z3.ForAll([n_], z3.Implies(z3.And(0 <= n_, n_ < N), d[n_])), '%s: every node is delivered' % self.base)


def models_for():
    def m(rx, f):
        return (re.compile(rx), f)

    def ref(p):
        if isinstance(p.base, Obj) or p.s or p.c:
            raise Unsupported('node reference')
        return iv(p.base)

    def deliver(ex, st, a, n):
        x = idf(ref(a[0]))
        g = st.ghost
        e = a[1].base if isinstance(a[1], Ptr) else a[1]
        ex.prove(st, z3.And(0 <= x, x < N), 'a node of the graph is delivered')
        ex.prove(st, z3.Not(g['del'][x]), 'a node is delivered at most once')
        ex.prove(st, z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < deg(x), T(x, j_) != INV), g['del'][T(x, j_)])),
                 'a node is delivered after everything it depends on')
        ex.prove(st, z3.Or(z3.And(iv(e) == 0, x == g['root']), z3.And(iv(e) >= 1, tgt(iv(e)) == x)), 'a node is delivered with an edge that leads to it')
        g['rank'] = z3.Store(g['rank'], x, g['count'])
        g['count'] = g['count'] + 1
        g['del'] = z3.Store(g['del'], x, True)

    def expand(ex, st, a, n):
        x = idf(ref(a[0]))
        st.ghost['p'] = z3.Store(st.ghost['p'], x, iv(vec_len(ex, st, st.ghost['!stack'])) - 1)

    def edge_done(ex, st, a, n):
        x = idf(ref(a[0]))
        w = st.ghost['w']
        st.ghost['w'] = z3.Store(w, x, z3.Store(w[x], iv(a[1]), iv(vec_len(ex, st, st.ghost['!stack'])) - 1))

    def byid(ex, st, a, n):
        ex.prove(st, z3.And(0 <= iv(a[1]), iv(a[1]) < N), 'node ids are within the graph')
        return Ptr(gnode(iv(a[1])))
    def idm(ex, st, a, n):
        v = idf(ref(a[0]))
        ex.prove(st, z3.And(0 <= v, v < N), 'only nodes of the graph are looked at')
        st.pc.append(z3.And(0 <= v, v < N))
        return v

    def refm(ex, st, a, n):
        v = tgt(ref(a[0]))
        st.pc.append(z3.And(0 <= v, v <= INV))
        return v

    def degm(ex, st, a, n):
        v = deg(idf(ref(a[0])))
        st.pc.append(z3.And(0 <= v, v < 2 ** 40))
        return v
    return [m(r'spec::id', idm), m(r'spec::reference', refm),
            m(r'spec::size', lambda ex, st, a, n: N), m(r'spec::deg', degm),
            m(r'spec::edge', lambda ex, st, a, n: Ptr(E(idf(ref(a[0])), iv(a[1])))),
            m(r'spec::node', lambda ex, st, a, n: Ptr(gnode(iv(a[1])))),
            m(r'spec::getNodeById', byid), m(r'spec::deliver', deliver), m(r'spec::expand', expand), m(r'spec::edge_done', edge_done)]


class NodesLoop:
    """visitNodes: after i steps the first i nodes are delivered"""

    def __init__(self, vis, i_cell):
        self.vis, self.i_cell = vis, i_cell

    def facts(self, ex, st):
        v = V(ex, st, self.vis)
        i = iv(ex.load(st, self.i_cell, ir.Ty('int', 64)))
        return v.idle() + [('index within graph', z3.And(0 <= i, i <= N)),
                           ('the first nodes are delivered', z3.ForAll([n_], z3.Implies(z3.And(0 <= n_, n_ < i), v.d[n_]), patterns=[v.d[n_]]))]

    def assume(self, ex, st):
        assume(st, self.facts(ex, st))

    def check(self, ex, st, which, hdr=None):
        prove_all(ex, st, self.facts(ex, st), 'loop over all nodes, ' + which)


def run(S):
    m = S.module([DRV])

    def cell(f, r0, nm):
        for k, v in r0.items():
            if k == nm:
                return v
        raise Unsupported('loop counter')

    def invariant(ex, s0, r0, f, h):
        b = ex.basename(f.name)
        if b == 'spec::visitEdges':
            return Inner(ex.vis, s0, ex, cell(f, r0, '%i'))
        if b == 'spec::visitNodes':
            return NodesLoop(find_vis(s0), cell(f, r0, '%i'))
        if b == FN:
            return Outer(ex.vis)
        return None

    def find_vis(st):
        for obj, os in st.objs.items():
            if (0, 'len') in os.ghosts and obj.name.startswith('%visited'):
                return Ptr(obj)
        raise Unsupported('no vector of marks')
    ex = S.exec(m, [], opts={'invariant': invariant, 'sizes': {'Maike::graphutils_detail::Mark': 4},
                             'int_types': lambda t: t.endswith('::Mark')}, models_extra=models_for())
    ex.rg.fun['id'] = (0, 2 ** 64 - 1)
    ex.rg.fun['target'] = (0, 2 ** 64 - 1)
    ex.rg.fun['deg'] = (0, 2 ** 40)
    ex.rg.sym['N'] = (0, 2 ** 40)
    ex.axioms = axioms()
    tr, pub, al = Traverse(), Public('spec::from_node', True), Public('spec::all', False)
    S.use(ex, [tr])
    for c in (tr, pub, al):
        S.check(ex, c)
