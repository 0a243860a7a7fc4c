"""C23: files, callbacks and exit handlers are released exactly once.

Each operation of the three owners conserves what is owned: an open descriptor, a callable, an action has exactly one owner until it
is released, and it is released by its owner's destruction (or reset, or being assigned over), once.  The histories of the property
are sequences of these operations."""
from spec import *
from models import ret, throw

DRV = os.path.join(os.path.dirname(__file__), 'C23.drv.cpp')
ASSUMPTIONS = ['open returns a descriptor nobody else has, or -1; close releases it', 'the callable types of the driver (external functions) stand for all callables',
               'no object is moved onto itself']
MODELS = []
M1 = 2 ** 32 - 1


def model(rx):
    def deco(fn):
        MODELS.append((re.compile(rx), fn))
        return fn
    return deco


def ev(st, *e):
    st.ghost['ev'] = st.ghost.get('ev', ()) + (e,)


def evs(st, *kinds):
    return [e for e in st.ghost.get('ev', ()) if e[0] in kinds]


# ------------------------------------------------------------------------------------------------ UniqueFunction
@model(r'spec::Fun::Fun')
def m_fmove(ex, st, a, n):
    ex.store_raw(st, a[0], 4, ex.load_raw(st, a[1], 4, 'i32'), 'i32')
    ev(st, 'move', a[0].base)
    return None


@model(r'spec::Fun::~Fun')
def m_fdtor(ex, st, a, n):
    ev(st, 'dtor', a[0].base)
    return None


@model(r'spec::Fun::operator\(\)')
def m_fcall(ex, st, a, n):
    r = ex.fresh('r', INT, (0, M1))
    ex.assume_range(st, r, (0, M1))
    ev(st, 'call', a[0].base, a[1], ex.load_raw(st, a[0], 4, 'i32'), r)
    s2 = st.copy()
    return [(st, ('ret', r)), (s2, ('exc', '?', Ptr(Obj('thrown'))))]


def on_delete(ex, st, a):
    if not a[0].isnull():
        ev(st, 'delete', a[0].base)


class UF(Contract):
    def __init__(self, op, t, s=None):
        self.base, self.op, self.t, self.s = 'spec::uf_' + op, op, t, s

    def state(self, ex, st, kind, name):
        """a function object that is empty (moved from) or owns a callable; -> pointer, callable"""
        p = Ptr(Obj(name, None))
        f = Ptr(Obj('src_' + name, 4, fresh=False))
        acc(ex, st, 'spec::uf_make', [p, f])
        c = acc(ex, st, 'spec::uf_data', [p]).base
        if kind == 'empty':
            acc(ex, st, 'spec::uf_move', [Ptr(Obj('thief', None)), p])
            c = None
        return p, c

    def entry(self, ex, f):
        st = State()
        if self.op == 'make':
            self.p, self.c = Ptr(Obj('f', None)), None
            self.fun = Ptr(Obj('fun', 4, fresh=False))
            self.id = ex.load_raw(st, self.fun, 4, 'i32')
            return st, [self.p, self.fun]
        if self.op == 'move':
            self.p = Ptr(Obj('f', None))
        else:
            self.p, self.c = self.state(ex, st, self.t, 'f')
        args = [self.p]
        if self.s:
            self.g, self.d = self.state(ex, st, self.s, 'g')
            args.append(self.g)
        if self.op == 'call':
            self.x = ex.fresh('x', INT, (0, M1))
            ex.assume_range(st, self.x, (0, M1))
            args.append(self.x)
            self.id = ex.load_raw(st, Ptr(self.c), 4, 'i32')
        st.ghost['ev'] = ()
        return st, args

    def valid(self, ex, st, p):
        return ex.to_bool(acc(ex, st, 'spec::uf_valid', [p]))

    def owns(self, ex, st, p, c, what):
        ex.prove(st, self.valid(ex, st, p), what + ' owns the callable')
        ex.prove(st, acc(ex, st, 'spec::uf_data', [p]).base is c, what + ' owns that callable')

    def post(self, ex, st, o, args):
        e = st.ghost['ev']
        if self.op == 'call':
            c = evs(st, 'call')
            ex.prove(st, len(e) == 1 and len(c) == 1 and c[0][1] is self.c, 'a call calls the callable once, and releases nothing')
            if len(c) == 1:
                ex.prove(st, z3.And(iv(c[0][2]) == self.x, iv(c[0][3]) == iv(self.id)), 'a call passes its argument on')
                if o[0] == 'ret':
                    ex.prove(st, iv(o[1]) == c[0][4], 'a call gives the result of the callable')
            self.owns(ex, st, self.p, self.c, 'after a call the function still')
            return
        ex.prove(st, o[0] == 'ret', 'the operation does not throw')
        rel = evs(st, 'dtor', 'delete')
        if self.op == 'make':
            m = evs(st, 'move')
            ex.prove(st, len(m) >= 1, 'the callable is moved into the function')
            q = acc(ex, st, 'spec::uf_data', [self.p])
            self.owns(ex, st, self.p, m[-1][1] if m else None, 'a new function')
            ex.prove(st, iv(ex.load_raw(st, q, 4, 'i32')) == iv(self.id), 'a new function owns the callable given')
            ex.prove(st, all(r[1] is not q.base for r in rel), 'the callable is not released')
            return
        old = self.c if self.op in ('destroy', 'assign') and self.t == 'full' else None
        want = [('dtor', old), ('delete', old)] if old else []
        ex.prove(st, len(rel) == len(want) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(rel, want)),
                 'what the target owned is destroyed exactly once, and nothing else is')
        ex.prove(st, len(e) == len(rel), 'the callable itself is neither called nor moved')
        if self.op in ('move', 'assign'):
            if self.s == 'full':
                self.owns(ex, st, self.p, self.d, 'the target')
            else:
                ex.prove(st, neg(self.valid(ex, st, self.p)), 'the target of an empty source is empty')
            ex.prove(st, neg(self.valid(ex, st, self.g)), 'the source is empty after a move')


# ------------------------------------------------------------------------------------------------ ScopeExitHandler
@model(r'spec::Act::operator\(\)')
def m_act(ex, st, a, n):
    ev(st, 'run', ex.load_raw(st, a[0], 4, 'i32'))
    return None


class SE(Contract):
    def __init__(self, op, two=False):
        self.base, self.op, self.two = 'spec::se_' + op, op, two

    def state(self, ex, st, name):
        p = Ptr(Obj(name, None, fresh=False))
        b = ex.fresh('on_' + name, z3.BoolSort())
        i = ex.fresh('id_' + name, INT, (0, M1))
        ex.assume_range(st, i, (0, M1))
        acc(ex, st, 'spec::se_id_put', [p, i])
        acc(ex, st, 'spec::se_engaged_put', [p, b])
        return p, b, i

    def read(self, ex, st, p):
        return bv(ex.to_bool(acc(ex, st, 'spec::se_engaged', [p])))

    def id(self, ex, st, p):
        return iv(acc(ex, st, 'spec::se_id', [p]))

    def entry(self, ex, f):
        st = State()
        if self.op in ('make', 'move'):
            self.p = Ptr(Obj('h', None))
        else:
            self.p, self.b, self.i = self.state(ex, st, 'h')
        args = [self.p]
        if self.op == 'make':
            a = Ptr(Obj('act', 4, fresh=False))
            self.i2 = ex.load_raw(st, a, 4, 'i32')
            args.append(a)
        if self.two:
            self.q, self.b2, self.i2 = self.state(ex, st, 'g')
            args.append(self.q)
        st.ghost['ev'] = ()
        return st, args

    def post(self, ex, st, o, args):
        ex.prove(st, o[0] == 'ret', 'the operation does not throw')
        runs = evs(st, 'run')
        if self.op == 'destroy':
            ex.prove(st, z3.If(self.b, len(runs) == 1, len(runs) == 0), 'an action is run exactly once when its owner is destroyed, and none otherwise')
            for r in runs:
                ex.prove(st, iv(r[1]) == self.i, 'the action that is run is the one owned')
            return
        ex.prove(st, len(runs) == 0, 'an action is not run before its owner is destroyed')
        if self.op == 'make':
            ex.prove(st, z3.And(self.read(ex, st, self.p), self.id(ex, st, self.p) == iv(self.i2)), 'a new handler owns its action')
            return
        b = self.read(ex, st, self.p)
        ex.prove(st, b == self.b2, 'the target owns an action exactly if the source did')
        if ex.feasible(st, self.b2):
            ex.prove(st, z3.Implies(self.b2, self.id(ex, st, self.p) == self.i2), 'the target owns the action of the source')
        ex.prove(st, z3.Not(self.read(ex, st, self.q)), 'the source owns no action after a move')
        if self.op == 'assign':
            ex.prove(st, isinstance(o[1], Ptr) and bv(ex.ptr_eq(st, o[1], self.p)), 'an assignment returns its target')


# ------------------------------------------------------------------------------------------------ InputFile
@model(r'open|open64')
def m_open(ex, st, a, n):
    import models
    h = ex.fresh('fd', INT, (0, M1))
    st.pc += [z3.Or(h == M1, z3.And(h >= 0, h < 2 ** 31))]
    ev(st, 'open', models.cstr_seq(ex, st, a[0]), a[1], h)
    return h


@model(r'close')
def m_close(ex, st, a, n):
    ev(st, 'close', a[0])
    return 0


@model(r'read')
def m_read(ex, st, a, n):
    r = ex.fresh('n', INT, (0, 2 ** 64 - 1))
    ex.assume_range(st, r, (0, 2 ** 64 - 1))
    ev(st, 'read', a[0], a[1], a[2], r)
    return r


class IF(Contract):
    def __init__(self, op, two=False, name=None):
        self.base, self.op, self.two = 'spec::if_' + (name or op), op, two

    def state(self, ex, st, name):
        p = Ptr(Obj(name, None, fresh=False))
        h = ex.fresh('fd_' + name, INT, (0, M1))
        st.pc += [z3.Or(h == M1, z3.And(h >= 0, h < 2 ** 31))]
        acc(ex, st, 'spec::if_fd_put', [p, h])
        return p, h

    def fd(self, ex, st, p):
        return iv(acc(ex, st, 'spec::if_fd', [p]))

    def entry(self, ex, f):
        st = State()
        if self.op in ('make', 'move'):
            self.p = Ptr(Obj('f', None))
        else:
            self.p, self.h = self.state(ex, st, 'f')
        args = [self.p]
        if self.op == 'make':
            path = Ptr(Obj('path', None, fresh=False))
            self.path = ex.gload(st, path, 'path')
            args.append(path)
        if self.two:
            self.q, self.h2 = self.state(ex, st, 'g')
            if self.op == 'assign':
                st.pc.append(z3.Or(self.h == M1, self.h != self.h2))       # no descriptor has two owners
            args.append(self.q)
        if self.op == 'read':
            self.b, self.n = Ptr(Obj('buf', None, fresh=False)), ex.fresh('n', INT, (0, 2 ** 62))
            ex.assume_range(st, self.n, (0, 2 ** 62))
            args += [self.b, self.n]
        st.ghost['ev'] = ()
        return st, args

    def post(self, ex, st, o, args):
        opens, closes, reads = evs(st, 'open'), evs(st, 'close'), evs(st, 'read')
        if self.op == 'make':
            ex.prove(st, len(opens) == 1 and opens[0][1].eq(self.path), 'the file given is opened, once')
            if len(opens) != 1:
                return
            h = opens[0][3]
            ex.prove(st, (h == M1) if o[0] == 'exc' else (h != M1), 'failing to open is an error, and nothing else is')
            ex.prove(st, len(closes) == 0, 'opening closes nothing')
            if o[0] == 'ret':
                ex.prove(st, self.fd(ex, st, self.p) == h, 'the new object owns the descriptor')
            return
        ex.prove(st, o[0] == 'ret', 'the operation does not throw')
        ex.prove(st, len(opens) == 0, 'no other descriptor is opened')
        if self.op in ('get', 'read'):
            ex.prove(st, len(closes) == 0, 'using a file closes nothing')
            ex.prove(st, self.fd(ex, st, self.p) == self.h, 'using a file keeps it')
            if self.op == 'get':
                ex.prove(st, iv(o[1]) == self.h, 'get gives the descriptor')
            else:
                ok = len(reads) == 1
                ex.prove(st, ok and z3.And(iv(reads[0][1]) == self.h, bv(ex.ptr_eq(st, reads[0][2], self.b)), iv(reads[0][3]) == self.n, iv(o[1]) == reads[0][4]),
                         'read reads from the descriptor, and gives the count')
            return
        if self.op in ('destroy', 'reset'):
            ex.prove(st, z3.If(self.h == M1, len(closes) == 0, len(closes) == 1), 'an open file is closed exactly once, and nothing is closed if there is none')
            for c in closes:
                ex.prove(st, iv(c[1]) == self.h, 'the descriptor owned is the one that is closed')
            if self.op == 'reset':
                ex.prove(st, self.fd(ex, st, self.p) == M1, 'after reset no descriptor is owned')
            return
        ex.prove(st, self.fd(ex, st, self.p) == self.h2, 'the target owns the descriptor of the source')
        other = self.fd(ex, st, self.q)
        if self.op == 'move':
            ex.prove(st, z3.And(other == M1, len(closes) == 0), 'the source owns nothing after a move, and nothing is closed')
            return
        kept = z3.And(other == self.h, len(closes) == 0)
        closed = z3.And(other == M1, len(closes) == 1, iv(closes[0][1]) == self.h) if len(closes) == 1 else z3.BoolVal(False)
        ex.prove(st, z3.Or(kept, closed), 'what the target owned is closed once, or has exactly one owner')
        ex.prove(st, isinstance(o[1], Ptr) and bv(ex.ptr_eq(st, o[1], self.p)), 'an assignment returns its target')


def run(S):
    mod = S.module([DRV], extra=['-fno-access-control'])
    cs = [UF('make', None), UF('move', None, 'full'), UF('move', None, 'empty'), UF('destroy', 'full'), UF('destroy', 'empty'), UF('call', 'full')]
    cs += [UF('assign', a, b) for a in ('full', 'empty') for b in ('full', 'empty')]
    cs += [SE('make'), SE('move', True), SE('assign', True), SE('destroy')]
    cs += [IF('make'), IF('move', True), IF('assign', True), IF('destroy'), IF('reset'), IF('get'), IF('read'), IF('read', name='read2')]
    for c in cs:
        S.check(S.exec(mod, [], {'on_delete': on_delete}, models_extra=MODELS), c)
