"""C24: a recipe name resolves to the project's recipe first, then to the system's.

The dictionary's memory (a map guarded by a reader-writer lock) is, for each class of equal names, an answer or none.  While the lock
is not held other threads may add answers, but never change one; the same is an obligation on every release of the lock here."""
from spec import *
from models import F_type, ret

DRV = os.path.join(os.path.dirname(__file__), 'C24.drv.cpp')
ASSUMPTIONS = ['std::shared_mutex excludes writers; std::map is a map with path equality on its keys', 'the file system does not change during one lookup',
               'std::filesystem::path operations are functions of their operands']
PROJECT, SYSTEM = 0, 2
REGULAR = 1
MODELS = []
B = z3.BoolSort()


def model(rx):
    def deco(fn):
        MODELS.append((re.compile(rx), fn))
        return fn
    return deco


def K(ex, p):
    return ex.fun('path.key', SEQ, INT)(p)


class Map:
    """has: key -> bool; path, origin: the answers"""

    def __init__(self, has, path, origin):
        self.has, self.path, self.origin = has, path, origin

    @staticmethod
    def fresh(ex):
        return Map(ex.fresh('has', z3.ArraySort(INT, B)), ex.fresh('path', z3.ArraySort(INT, SEQ)), ex.fresh('origin', z3.ArraySort(INT, INT)))

    def put(self, k, p, o):
        return Map(z3.Store(self.has, k, True), z3.Store(self.path, k, p), z3.Store(self.origin, k, o))

    def keeps(self, old):
        """every answer of old is still there"""
        k = z3.Int('k')
        return z3.ForAll([k], z3.Implies(z3.Select(old.has, k), z3.And(z3.Select(self.has, k), z3.Select(self.path, k) == z3.Select(old.path, k),
                                                                       z3.Select(self.origin, k) == z3.Select(old.origin, k))))


def is_map(st, p):
    g = st.ghost.get('map')
    return g is not None and p.base is g.base and p.c == g.c


def value(ex, st, node):
    v = acc(ex, st, 'spec::node_value', [node])
    return ex.gload(st, acc(ex, st, 'spec::res_path', [v]), 'path'), iv(acc(ex, st, 'spec::res_origin', [v]))


def held(ex, st, how='rw'):
    ex.prove(st, st.ghost['held'] is not None and st.ghost['held'] in how, 'the answers are only touched under the lock' + ('' if how == 'rw' else ', and only changed under the exclusive lock'))


@model(r'std::(shared_mutex|__shared_mutex_pthread|shared_timed_mutex)::(lock|lock_shared)')
def m_lock(ex, st, a, n):
    ex.prove(st, st.ghost['held'] is None, 'the lock is not taken twice')
    m = Map.fresh(ex)
    st.facts.append(m.keeps(st.ghost['m']))
    st.ghost['m'] = m
    st.ghost['nodes'] = ()
    st.ghost['held'] = 'r' if 'shared' in ex.basename(n).split('::')[-1] else 'w'
    return None


@model(r'std::(shared_mutex|__shared_mutex_pthread|shared_timed_mutex)::(unlock|unlock_shared)')
def m_unlock(ex, st, a, n):
    ex.prove(st, st.ghost['held'] == ('r' if 'shared' in ex.basename(n).split('::')[-1] else 'w'), 'the lock that is released is the one held')
    sync(ex, st)
    st.ghost['held'] = None
    return None


def sync(ex, st):
    for k, nd, new in st.ghost['nodes']:
        p, o = value(ex, st, nd)
        m = st.ghost['m']
        if new:
            st.ghost['m'] = m.put(k, p, o)
            v, (a, b) = ex.verifying, ex.verifying.answers(ex)
            ex.prove(st, z3.If(v.regular(ex, 0), z3.And(p == a[0], o == a[1]), z3.And(v.regular(ex, 1), p == b[0], o == b[1])),
                     'an answer that is kept is the project\'s recipe, else the system\'s')
        else:
            ex.prove(st, z3.And(p == z3.Select(m.path, k), o == z3.Select(m.origin, k)), 'an answer, once given, is never changed')
    st.ghost['nodes'] = tuple((k, nd, False) for k, nd, new in st.ghost['nodes'])


def node(ex, st, k, p, o, new, key=None):
    nd = Ptr(Obj('node', None))
    x = nd.plus(32) if hasattr(nd, 'plus') else Ptr(nd.base, 32)
    ps = []
    for v in (key if key is not None else ex.fresh('key', SEQ), p):
        q = Ptr(Obj('tmp', 40))
        ex.gstore(st, q, 'path', v)
        ps.append(q)
    acc(ex, st, 'spec::node_make', [x] + ps + [o])
    st.ghost['nodes'] = st.ghost['nodes'] + ((k, x, new),)
    return nd


def existing(ex, st, k):
    m = st.ghost['m']
    st.facts.append(z3.And(z3.Select(m.origin, k) >= 0, z3.Select(m.origin, k) <= 3))
    return node(ex, st, k, z3.Select(m.path, k), z3.Select(m.origin, k), False)


@model(r'std::map::(find|lower_bound)')
def m_find(ex, st, a, n):
    if not is_map(st, a[0]) or 'lower_bound' in n:
        return NotImplemented
    held(ex, st)
    k = K(ex, ex.gload(st, a[1], 'path'))
    out = []
    for s, c in models.fork(ex, st, z3.Select(st.ghost['m'].has, k)):
        out += ret(s, existing(ex, s, k) if c else Ptr(a[0].base, a[0].c + 8))
    return out


@model(r'std::map::(count|contains)')
def m_count(ex, st, a, n):
    held(ex, st)
    k = K(ex, ex.gload(st, a[1], 'path'))
    return z3.If(z3.Select(st.ghost['m'].has, k), z3.IntVal(1), z3.IntVal(0))


@model(r'std::map::(insert|emplace|try_emplace|insert_or_assign)')
def m_insert(ex, st, a, n):
    if not is_map(st, a[0]) or len(a) not in (2, 3):
        return NotImplemented
    held(ex, st, 'w')
    if len(a) == 2:
        key, val = acc(ex, st, 'spec::in_key', [a[1]]), acc(ex, st, 'spec::in_value', [a[1]])
    else:
        key, val = a[1], a[2]
    key = ex.gload(st, key, 'path')
    p, o = ex.gload(st, acc(ex, st, 'spec::res_path', [val]), 'path'), iv(acc(ex, st, 'spec::res_origin', [val]))
    k = K(ex, key)
    out = []
    for s, c in models.fork(ex, st, z3.Select(st.ghost['m'].has, k)):
        if c:
            nd = existing(ex, s, k)
            if 'assign' in n:
                q = Ptr(Obj('tmp', 40))
                ex.gstore(s, q, 'path', p)
                acc(ex, s, 'spec::node_make', [Ptr(nd.base, 32), q, q, o])
        else:
            nd = node(ex, s, k, p, o, True, key)
        out += ret(s, Agg([nd, 0 if c else 1]))
    return out


@model(r'std::map::(operator\[\]|at)')
def m_index(ex, st, a, n):
    held(ex, st, 'w' if 'at' not in ex.basename(n).split('::')[-1] else 'rw')
    key = ex.gload(st, a[1], 'path')
    k = K(ex, key)
    out = []
    for s, c in models.fork(ex, st, z3.Select(st.ghost['m'].has, k)):
        nd = existing(ex, s, k) if c else node(ex, s, k, z3.Empty(SEQ), z3.IntVal(0), True, key)
        out += ret(s, acc(ex, s, 'spec::node_value', [Ptr(nd.base, 32)]))
    return out


class Get(Contract):
    base = 'Maike::SourceTreeLoader::CommandDictionary::get'

    def entry(self, ex, f):
        st = State()
        self.d, self.c, self.cmd, self.out = Ptr(Obj('dict', None, fresh=False)), Ptr(Obj('content', None, fresh=False)), Ptr(Obj('cmd', 40, fresh=False)), Ptr(Obj('out', 48))
        acc(ex, st, 'spec::init', [self.d, self.c])
        self.name = ex.gload(st, self.cmd, 'path')
        self.dirs = [ex.gload(st, acc(ex, st, 'spec::' + x, [self.c]), 'path') for x in ('project', 'system')]
        st.ghost.update({'map': acc(ex, st, 'spec::map', [self.c]), 'm': Map.fresh(ex), 'held': None, 'nodes': ()})
        self.m0 = st.ghost['m']
        e = z3.Empty(SEQ)
        st.facts.append((K(ex, self.name) == K(ex, e)) == (self.name == e))
        same = K(ex, self.dirs[0]) == K(ex, self.dirs[1])
        st.facts.append(z3.Implies(same, self.regular(ex, 0) == self.regular(ex, 1)))
        return st, [self.out, self.d, self.cmd]

    def place(self, ex, i):
        return ex.fun('path.div', SEQ, SEQ, SEQ)(self.dirs[i], self.name)

    def regular(self, ex, i):
        return F_type(ex)(self.place(ex, i)) == REGULAR

    def answers(self, ex):
        N = ex.fun('path.lexically_normal', SEQ, SEQ)
        return [(N(self.place(ex, 0)), PROJECT), (N(self.place(ex, 1)), SYSTEM)]

    def post(self, ex, st, o, a):
        ex.prove(st, st.ghost['held'] is None, 'the lock is released')
        k = K(ex, self.name)
        empty = k == K(ex, z3.Empty(SEQ))
        m = st.ghost['m']
        if o[0] == 'exc':
            ex.prove(st, z3.And(*[z3.Not(self.regular(ex, i)) for i in (0, 1)]), 'an error is given only if the recipe is in neither directory')
            ex.prove(st, z3.Not(empty), 'the empty name is no error')
            ex.prove(st, z3.Not(z3.Select(self.m0.has, k)), 'a name that was found before is no error')
            return
        p, q = ex.gload(st, acc(ex, st, 'spec::res_path', [self.out]), 'path'), iv(acc(ex, st, 'spec::res_origin', [self.out]))
        ex.prove(st, z3.Implies(empty, p == self.name), 'the empty name is returned unchanged')
        ex.prove(st, z3.Implies(z3.Not(empty), z3.And(z3.Select(m.has, k), p == z3.Select(m.path, k), q == z3.Select(m.origin, k))),
                 'what is returned is the answer that is kept')


class Set(Contract):
    def __init__(self, i):
        self.i, self.base = i, 'spec::set_' + ('project', 'system')[i]

    def entry(self, ex, f):
        st = State()
        d, c, p = Ptr(Obj('dict', None, fresh=False)), Ptr(Obj('content', None, fresh=False)), Ptr(Obj('dir', 40, fresh=False))
        acc(ex, st, 'spec::init', [d, c])
        self.c = c
        self.old = self.dirs(ex, st)
        self.v = ex.gload(st, p, 'path')
        return st, [d, p]

    def dirs(self, ex, st):
        return [ex.gload(st, acc(ex, st, 'spec::' + x, [self.c]), 'path') for x in ('project', 'system')]

    def post(self, ex, st, o, a):
        d = self.dirs(ex, st)
        ex.prove(st, z3.And(o[0] == 'ret', d[self.i] == self.v, d[1 - self.i] == self.old[1 - self.i]), 'the directory that is set is the one searched, the other is kept')


def run(S):
    mod = S.module([DRV], extra=['-fno-access-control'])
    ex = S.exec(mod, [], {'unroll': lambda ex, f: True}, models_extra=MODELS)
    S.check(ex, Get())
    for i in (0, 1):
        S.check(ex, Set(i))
