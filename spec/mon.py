"""Monitors: data guarded by a mutex, waiting on a condition variable.

Thread-modular reasoning: while the mutex is not held other threads may do anything that keeps the monitor's invariant, so the
guarded fields get arbitrary values (satisfying the invariant) whenever the mutex is taken, at lock or after a wait.  Each stretch
of holding the mutex (from lock, or from waking up, to unlock, or to the next wait) is a segment; a method's contract is stated
over the values at the start and the end of its segments, over what was notified after which segment, and over when it waits."""
from spec import *
from models import ret, throw

MODELS = []


def model(rx):
    def deco(fn):
        MODELS.append((re.compile(rx), fn))
        return fn
    return deco


class Seg:
    def __init__(self, mon, vin):
        self.mon, self.vin, self.vout, self.end, self.notified, self.inside = mon, vin, None, None, False, False

    def copy(self):
        s = Seg(self.mon, self.vin)
        s.__dict__.update(self.__dict__)
        return s


class Monitor:
    """mtx, cv: pointers; names: fields; read(ex, st) -> dict; havoc(ex, st) sets all fields to arbitrary values; inv(vals) -> bool;
    may_wait(ex, st, vals) -> condition under which waiting is right"""
    lock_assume = None

    def __init__(self, mtx, cv, read, havoc, inv=None, may_wait=None, name='m'):
        self.mtx, self.cv, self.read, self.havoc, self.inv, self.may_wait, self.name = mtx, cv, read, havoc, inv, may_wait, name

    def begin(self, ex, st):
        self.havoc(ex, st)
        v = self.read(ex, st)
        if self.inv is not None:
            st.pc.append(bv(self.inv(v)))
        return v


def veq(ex, st, a, b):
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return bv(ex.ptr_eq(st, a, b))
    if z3.is_bool(bv(a) if isinstance(a, bool) else a):
        return bv(a) == bv(b)
    return iv(a) == iv(b)


def vals_eq(ex, st, a, b):
    return z3.And([veq(ex, st, a[k], b[k]) for k in a] or [z3.BoolVal(True)])


def start(ex, st, mons):
    """at entry: nothing held"""
    ex.mons = mons
    st.ghost['held'] = ()
    st.ghost['segs'] = ()
    st.ghost['out'] = {}
    for m in mons:
        m.havoc(ex, st)
        st.ghost['out'] = dict(st.ghost['out'], **{m.name: m.read(ex, st)})


def find(ex, p, what):
    for m in ex.mons:
        q = getattr(m, what)
        if q is not None and isinstance(p, Ptr) and p.base is q.base and p.c == q.c and p.s == q.s:
            return m
    raise Unsupported('unknown %s %r' % (what, p))


def setsegs(st, segs):
    st.ghost['segs'] = tuple(segs)


def outside_ok(ex, st, m, where):
    ex.prove(st, vals_eq(ex, st, m.read(ex, st), st.ghost['out'][m.name]), '%s: guarded fields are changed only while the lock is held' % where)


def lock(ex, st, m):
    ex.prove(st, m.name not in st.ghost['held'], 'the lock is not taken twice')
    outside_ok(ex, st, m, 'lock')
    st.ghost['held'] = st.ghost['held'] + (m.name,)
    setsegs(st, st.ghost['segs'] + (Seg(m, m.begin(ex, st)),))
    if m.lock_assume:
        st.pc.append(bv(m.lock_assume(st.ghost['segs'][-1].vin)))


def close(ex, st, m, end):
    v = m.read(ex, st)
    segs = list(st.ghost['segs'])
    for i in range(len(segs) - 1, -1, -1):
        if segs[i].mon is m:
            s = segs[i].copy()
            s.vout, s.end = v, end
            segs[i] = s
            break
    setsegs(st, segs)
    if m.inv is not None:
        ex.prove(st, bv(m.inv(v)), 'the lock is given up only in a consistent state')
    return v


@model(r'pthread_mutex_lock|__gthread_mutex_lock|std::mutex::lock')
def m_lock(ex, st, a, n):
    lock(ex, st, find(ex, a[0], 'mtx'))
    return 0


@model(r'pthread_mutex_trylock|__gthread_mutex_trylock|std::mutex::try_lock')
def m_trylock(ex, st, a, n):
    raise Unsupported('try_lock')


@model(r'pthread_mutex_unlock|__gthread_mutex_unlock|std::mutex::unlock')
def m_unlock(ex, st, a, n):
    m = find(ex, a[0], 'mtx')
    ex.prove(st, m.name in st.ghost['held'], 'only a held lock is released')
    v = close(ex, st, m, 'unlock')
    st.ghost['held'] = tuple(x for x in st.ghost['held'] if x != m.name)
    st.ghost['out'] = dict(st.ghost['out'], **{m.name: v})
    return 0


@model(r'std::condition_variable::wait')
def m_wait(ex, st, a, n):
    if len(a) != 2 or '<' in ex.mod.demangled(n).split('wait', 1)[1][:1]:
        return NotImplemented
    m = find(ex, a[0], 'cv')
    mtx = ex.load_raw(st, a[1], 8, 'ptr')
    ex.prove(st, bv(ex.ptr_eq(st, mtx, m.mtx)), 'waiting releases the lock that guards the condition')
    ex.prove(st, m.name in st.ghost['held'], 'waiting needs the lock')
    v = close(ex, st, m, 'wait')
    if m.may_wait is not None:
        ex.prove(st, bv(m.may_wait(ex, st, v)), 'a thread waits only while its condition does not hold')
    setsegs(st, st.ghost['segs'] + (Seg(m, m.begin(ex, st)),))
    return None


@model(r'std::condition_variable::notify_(one|all)')
def m_notify(ex, st, a, n):
    m = find(ex, a[0], 'cv')
    segs = []
    for s in st.ghost['segs']:
        if s.mon is m:
            s = s.copy()
            s.notified = 'all' if 'notify_all' in ex.mod.demangled(n) or s.notified == 'all' else 'one'
            if s.end is None:
                s.inside = s.notified
        segs.append(s)
    setsegs(st, segs)
    return None


@model(r'std::condition_variable::condition_variable|std::mutex::mutex|std::condition_variable::~condition_variable')
def m_cv_ctor(ex, st, a, n):
    if '~' in ex.mod.demangled(n):
        st.ghost['destroyed'] = st.ghost.get('destroyed', ()) + ('cv',)
    return None


@model(r'std::__exception_ptr::exception_ptr::_M_(addref|release)')
def m_eptr(ex, st, a, n):
    return None


@model(r'std::rethrow_exception')
def m_rethrow(ex, st, a, n):
    p = ex.load_raw(st, a[0], 8, 'ptr')
    return throw(st, '?', p)


@model(r'std::current_exception')
def m_curexc(ex, st, a, n):
    c = st.ghost.get('!caught', ())
    p = c[-1][2] if c and c[-1][2] is not None else Ptr(0)
    ex.store_raw(st, a[0], 8, p, 'ptr')
    return None


def wait_loop(ex, st, regs, f, h, prev, blocks):
    """a loop that does nothing but wait: after a wait the guarded fields are arbitrary, so every further round is like the second"""
    if 'segs' not in st.ghost:
        return None

    def round(st, regs, prev, dry):
        ex.dry += dry
        try:
            return ex.run(st, regs, f, h, prev, (h, blocks))
        finally:
            ex.dry -= dry

    def waited(o, n0):
        segs = o[1].ghost['segs']
        return len(segs) > n0 and segs[-2].end == 'wait'
    n0 = len(st.ghost['segs'])
    if not st.ghost['held']:
        return None
    probe = round(st.copy(), dict(regs), prev, 1)
    backs = [o for o in probe if o[0] == 'back']
    if not backs or not all(waited(o, n0) for o in backs):
        return None
    out = round(st, regs, prev, 0)
    res = [o for o in out if o[0] != 'back']
    for o in out:
        if o[0] != 'back':
            continue
        s1 = o[1].copy()
        n1 = len(s1.ghost['segs'])
        out2 = round(o[1], dict(o[2]), o[3], 0)
        for p in out2:
            if p[0] != 'back':
                res.append(p)
                continue
            ok = waited(p, n1)
            ms = [s.mon for s in p[1].ghost['segs'][n1:]]
            t = s1.copy()
            u = p[1].copy()
            for m in ex.mons:           # the guarded fields differ, nothing else does
                if m in ms:
                    m.setall(ex, t, m.read(ex, u))
            diff = [l for l in ex.locs(t, u) if not (l[0] == 'ghost' and l[1] in ('segs',))]
            if not ok or diff:
                raise Unsupported('a waiting loop with other effects %s' % (diff[:3],))
    return res


def segs(st, m):
    return [s for s in st.ghost['segs'] if s.mon is m]


def unchanged(ex, st, s):
    return vals_eq(ex, st, s.vin, s.vout)


def finish(ex, st, mons):
    ex.prove(st, len(st.ghost['held']) == 0, 'no lock is held at the end')
    for m in mons:
        if m.name not in st.ghost['held']:
            outside_ok(ex, st, m, 'return')
