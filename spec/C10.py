"""C10: the thread pool runs every submitted task exactly once and joins all workers.

The queue is a ghost (how many tasks are queued).  Adding a task appends one element that runs the task once when called, and wakes a
worker; a worker takes the front element, gives up the lock, calls it once, destroys it, and leaves only when the queue is empty and
the pool is being destroyed; the destructor orders this, wakes all workers and joins each of the n it started."""
from spec import *
from models import ret, throw
import mon
from mon import Monitor, segs, unchanged

DRV = os.path.join(os.path.dirname(__file__), 'C10.drv.cpp')
SRC = ['core/sched/thread_pool.cpp']
ASSUMPTIONS = ['std::mutex, std::condition_variable as for C11', 'std::queue is a queue of move-only elements', 'pthread_create succeeds; pthread_join waits for the thread',
               'AsyncTaskResult::set by its contract (C11)', 'tasks are represented by an external function object that returns or throws']
MODELS = []
LOOPS = 2 ** 31 - 1


def model(rx):
    def deco(fn):
        MODELS.append((re.compile(rx), fn))
        return fn
    return deco


def guarded(ex, st, p):
    ex.prove(st, bv(ex.ptr_eq(st, p, ex.tq)), 'the queue of this pool')
    ex.prove(st, 'q' in st.ghost['held'], 'the queue is used only under the lock')


@model(r'std::queue::empty')
def m_empty(ex, st, a, n):
    guarded(ex, st, a[0])
    return st.ghost['cnt'] == 0


@model(r'std::queue::size')
def m_size(ex, st, a, n):
    guarded(ex, st, a[0])
    return st.ghost['cnt']


@model(r'std::queue::push')
def m_push(ex, st, a, n):
    guarded(ex, st, a[0])
    slot = Ptr(Obj('slot', None))
    acc(ex, st, 'spec::uf_move', [slot, a[1]])
    st.ghost['cnt'] = st.ghost['cnt'] + 1
    st.ghost['slots'] = st.ghost['slots'] + (slot,)
    return None


@model(r'spec::pushed')
def m_pushed(ex, st, a, n):
    if len(st.ghost['slots']) != 1:
        raise Unsupported('pushed')
    st.ghost['running'] = True
    return st.ghost['slots'][0]


def front(ex, st):
    k = st.ghost['pops']
    if k not in ex.fronts:
        ex.fronts[k] = (Obj('front', None), Obj('closure', None, fresh=False))
    return ex.fronts[k]


@model(r'std::queue::front')
def m_front(ex, st, a, n):
    guarded(ex, st, a[0])
    ex.prove(st, st.ghost['cnt'] > 0, 'there is a first task')
    f, c = front(ex, st)
    if not st.ro(f).cells:
        acc(ex, st, 'spec::uf_fill', [Ptr(f), Ptr(c)])
    return Ptr(f)


@model(r'std::queue::pop')
def m_pop(ex, st, a, n):
    guarded(ex, st, a[0])
    ex.prove(st, st.ghost['cnt'] > 0, 'there is a task to remove')
    f, c = front(ex, st)
    if not st.ro(f).cells:
        acc(ex, st, 'spec::uf_fill', [Ptr(f), Ptr(c)])
    acc(ex, st, 'spec::uf_destroy', [Ptr(f)])
    st.o(f).cells.clear()
    st.ghost['cnt'] = st.ghost['cnt'] - 1
    st.ghost['pops'] = st.ghost['pops'] + 1
    return None


@model(r'spec::task_cb')
def m_cb(ex, st, a, n):
    ex.prove(st, len(st.ghost['held']) == 0, 'a task runs without the lock being held')
    st.ghost['ev'] = st.ghost['ev'] + (('call', a[0].base),)
    return None


@model(r'spec::task_dtor')
def m_dtor(ex, st, a, n):
    st.ghost['ev'] = st.ghost['ev'] + (('destroy', a[0].base),)
    return None


@model(r'spec::(Int)?Job::operator\(\)')
def m_job(ex, st, a, n):
    ex.prove(st, len(st.ghost['held']) == 0, 'a task runs without a lock being held')
    ex.prove(st, 'running' in st.ghost, 'adding a task does not run it')
    v = ex.load_raw(st, a[0], 4, 'i32')
    ex.prove(st, eq(v, ex.jobid), 'the task that runs is the one that was added')
    e = ex.fresh('exc', INT, (1, None))
    r = ex.fresh('val', INT, (0, 2 ** 32 - 1))
    s2 = st.copy()
    s2.pc.append(e >= 1)
    ex.assume_range(st, r, (0, 2 ** 32 - 1))
    st.ghost['ev'] = st.ghost['ev'] + (('job', r),)
    s2.ghost['ev'] = s2.ghost['ev'] + (('jobfail', e),)
    return [(st, ('ret', r)), (s2, ('exc', '?', Ptr(e)))]


class ResSet(Contract):
    """AsyncTaskResult::set, by its contract"""
    base = 'Maike::Sched::AsyncTaskResult::set'
    top = False

    def apply(self, ex, st, args, name):
        ex.prove(st, bv(ex.ptr_eq(st, args[0], ex.res)), 'the result slot given is the one that is set')
        if 'exception_ptr' in ex.mod.demangled(name).split('::set')[-1]:
            p = ex.load_raw(st, args[1], 8, 'ptr')
            st.ghost['ev'] = st.ghost['ev'] + (('set_exc', p),)
        else:
            st.ghost['ev'] = st.ghost['ev'] + (('set_val', ex.load_raw(st, args[1], 4, 'i32')),)
        return ret(st)


def ref(ex, p):
    return iv(p.base) if isinstance(p, Ptr) and (isz(p.base) or isinstance(p.base, int)) else iv(ex.ptr_to_ref(p))


def pool_mons(ex, st, o):
    def read(ex, s):
        return {'cnt': iv(s.ghost['cnt']), 'term': bv(ex.to_bool(acc(ex, s, 'spec::tp_term', [o])))}

    def put(ex, s, v):
        s.ghost['cnt'] = v['cnt']
        acc(ex, s, 'spec::tp_term_put', [o, v['term']])

    def havoc(ex, s):
        c = ex.fresh('cnt', INT, (0, 2 ** 62))
        ex.assume_range(s, c, (0, 2 ** 62))
        put(ex, s, {'cnt': c, 'term': ex.fresh('term', z3.BoolSort())})
    q = Monitor(acc(ex, st, 'spec::tp_mtx', [o]), acc(ex, st, 'spec::tp_cv', [o]), read, havoc, None,
                lambda ex, s, v: z3.And(v['cnt'] == 0, z3.Not(v['term'])), 'q')
    q.setall = put

    def eread(ex, s):
        return {'eptr': ref(ex, acc(ex, s, 'spec::tp_eptr', [o]))}

    def eput(ex, s, v):
        acc(ex, s, 'spec::tp_eptr_put', [o, Ptr(v['eptr'])])

    def ehavoc(ex, s):
        e = ex.fresh('eptr', INT, (0, None))
        s.pc.append(e >= 0)
        eput(ex, s, {'eptr': e})
    m = Monitor(acc(ex, st, 'spec::tp_emtx', [o]), None, eread, ehavoc, None, None, 'e')
    m.setall = eput
    ex.tq = acc(ex, st, 'spec::tp_queue', [o])
    ex.fronts = {}
    st.ghost.update(slots=(), pops=0, ev=())
    return [q, m]


class Pool(Contract):
    def entry(self, ex, f):
        st = State()
        self.o = Ptr(Obj('pool', None, fresh=False))
        self.mons = pool_mons(ex, st, self.o)
        mon.start(ex, st, self.mons)
        return st, [self.o] + self.args(ex, st)

    def args(self, ex, st):
        return []

    def post(self, ex, st, o, args):
        mon.finish(ex, st, self.mons)
        self.effect(ex, st, o, args)
        for s in segs(st, self.mons[0]):
            ex.prove(st, z3.Or(s.vout['cnt'] <= s.vin['cnt'], bool(s.notified)), 'a worker is woken after a task was added')


class Add(Pool):
    def __init__(self, base, res=False, run=False):
        self.base, self.res, self.run = base, res, run

    def args(self, ex, st):
        job = Ptr(Obj('job', 4, fresh=False))
        ex.jobid = ex.load_raw(st, job, 4, 'i32')
        a = [job]
        if self.res:
            ex.res = Ptr(Obj('result', None, fresh=False))
            a.append(ex.res)
        return a

    def effect(self, ex, st, o, args):
        ex.prove(st, o[0] == 'ret', 'no exception leaves a task or addTask')
        q, e = self.mons
        ex.prove(st, len(st.ghost['slots']) == 1 and st.ghost['pops'] == 0, 'one task is queued')
        for s in segs(st, q):
            ex.prove(st, s.vout['term'] == s.vin['term'], 'adding a task does not end the pool')
            ex.prove(st, s.end == 'unlock', 'adding a task does not wait')
        ev = st.ghost['ev']
        if not self.run:
            ex.prove(st, ev == (), 'adding a task does not run it')
            for s in st.ghost['slots']:
                ex.prove(st, bv(ex.to_bool(acc(ex, st, 'spec::uf_valid', [s]))), 'the queued task owns its function')
                d = [p.base for p in st.ghost.get('deleted', ())]
                ex.prove(st, ex.load_raw(st, s, 8, 'ptr').base not in d, 'the queued function is alive')
            ex.prove(st, isinstance(o[1], Ptr) and bv(ex.ptr_eq(st, o[1], self.o)), 'addTask returns the pool')
            return
        es = segs(st, e)
        ex.prove(st, len([x for x in ev if x[0] in ('job', 'jobfail')]) == 1, 'the task runs its function exactly once')
        fail = [x[1] for x in ev if x[0] == 'jobfail']
        val = [x[1] for x in ev if x[0] == 'job']
        if self.res:
            sv, se = [x[1] for x in ev if x[0] == 'set_val'], [x[1] for x in ev if x[0] == 'set_exc']
            ex.prove(st, len(sv) + len(se) == 1, 'the result slot is set exactly once')
            if val:
                ex.prove(st, len(sv) == 1 and eq(sv[0], val[0]), 'the value is delivered')
            else:
                ex.prove(st, len(se) == 1 and ref(ex, se[0]) == fail[0], 'the exception is delivered')
            for s in es:
                ex.prove(st, unchanged(ex, st, s), 'the exception is kept only in the slot')
        else:
            if val:
                for s in es:
                    ex.prove(st, unchanged(ex, st, s), 'a task that succeeds leaves no exception')
            else:
                ex.prove(st, z3.Or([z3.If(s.vin['eptr'] == 0, s.vout['eptr'] == fail[0], s.vout['eptr'] == s.vin['eptr']) for s in es] or [False]), 'the first exception is kept')
                for s in es:
                    ex.prove(st, z3.Or(s.vin['eptr'] == s.vout['eptr'], z3.And(s.vin['eptr'] == 0, s.vout['eptr'] == fail[0])), 'an exception that was kept is not replaced')


class Take(Pool):
    base = 'spec::tp_take'

    def effect(self, ex, st, o, args):
        ex.prove(st, o[0] == 'ret', 'takeLastException does not throw')
        es = segs(st, self.mons[1])
        ex.prove(st, z3.Or([z3.And(ref(ex, o[1]) == s.vin['eptr'], s.vout['eptr'] == 0) for s in es] or [False]), 'the exception kept is handed over, and no longer kept')
        ex.prove(st, len(es) == 1, 'in one step')


class Serve(Pool):
    base = 'Maike::Sched::ThreadPool::performTasks'

    def effect(self, ex, st, o, args):
        ex.prove(st, o[0] == 'ret', 'a worker does not end with an exception')
        ss = segs(st, self.mons[0])
        ex.prove(st, len(ss) > 0 and z3.And(ss[-1].vin['cnt'] == 0, ss[-1].vin['term']), 'a worker leaves only when the queue is empty and the pool is being destroyed')
        for s in ss:
            ex.prove(st, z3.Or(s.vout['cnt'] == s.vin['cnt'], s.vout['cnt'] == s.vin['cnt'] - 1), 'a worker takes one task at a time')
            ex.prove(st, s.vout['term'] == s.vin['term'], 'a worker does not change the end mark')
        ex.prove(st, st.ghost['ev'] == () and st.ghost['pops'] == 0, 'leaving runs no task')


def serve_hook(ex, st, regs, f, h, prev, blocks):
    r = mon.wait_loop(ex, st, regs, f, h, prev, blocks) if st.ghost.get('held') else None
    if r is not None:
        return r
    if st.ghost.get('held') or 'segs' not in st.ghost or not isinstance(ex.verifying, Serve):
        return None
    head = st.copy()
    out = ex.run(st, regs, f, h, prev, (h, blocks))
    res = [o for o in out if o[0] != 'back']
    for o in out:
        if o[0] != 'back':
            continue
        s = o[1]
        if not ex.feasible(s):
            continue
        c = ex.fronts[0][1] if 0 in ex.fronts else None
        ex.prove(s, s.ghost['pops'] == 1, 'a round of a worker takes exactly one task')
        ex.prove(s, s.ghost['ev'] == (('call', c), ('destroy', c)), 'a round of a worker calls the task it took exactly once, then destroys it')
        ex.prove(s, len(s.ghost['held']) == 0, 'a round of a worker ends without the lock')
        for m in ex.mons:
            mon.outside_ok(ex, s, m, 'round')
        for g in segs(s, ex.mons[0]):
            ex.prove(s, g.vout['term'] == g.vin['term'], 'a worker does not change the end mark')
            ex.prove(s, z3.Or(g.vout['cnt'] == g.vin['cnt'], g.vout['cnt'] == g.vin['cnt'] - 1), 'a worker takes one task at a time')
        t, u = head.copy(), s.copy()
        for m in ex.mons:
            m.setall(ex, t, m.read(ex, u))
        diff = [l for l in ex.locs(t, u) if not (l[0] == 'ghost' and l[1] in ('segs', 'out', 'pops', 'ev')) and not (l[0] == 'cell' and isinstance(ex.getloc(t, l), Poison))]      # the latter: not set when a round begins
        if diff:
            raise Unsupported('a serving loop with other effects %s' % (diff[:3],))
    return res


@model(r'pthread_join')
def m_join(ex, st, a, n):
    k = st.ghost['joined']
    ex.prove(st, iv(a[0]) == z3.Select(ex.tids, iv(k)), 'each worker is joined, one after the other')
    ex.prove(st, len(st.ghost['held']) == 0, 'workers are joined without the lock being held')
    st.ghost['joined'] = k + 1
    return 0


@model(r'std::queue::~queue|std::unique_ptr::~unique_ptr|std::__exception_ptr::exception_ptr::~exception_ptr')
def m_qdtor(ex, st, a, n):
    if 'ended' in st.ghost:
        st.ghost['ended'] = True
    return None


class Destroy(Pool):
    base = 'spec::tp_destroy'

    def args(self, ex, st):
        self.n = ex.fresh('n', INT, (0, LOOPS))
        ex.assume_range(st, self.n, (0, LOOPS))
        acc(ex, st, 'spec::tp_n_put', [self.o, self.n])
        t = Obj('threads', None, fresh=False)
        start, rg = ex.mkregion(st, t, 0, 8, None)
        ex.tids = rg.arr
        acc(ex, st, 'spec::tp_threads_put', [self.o, Ptr(t, 0, 8, 0)])
        st.ghost['joined'] = z3.IntVal(0)
        return []

    def post(self, ex, st, o, args):
        ex.prove(st, o[0] == 'ret', 'the destructor does not throw')
        ex.prove(st, len(st.ghost['held']) == 0, 'no lock is held at the end')
        ss = segs(st, self.mons[0])
        ex.prove(st, z3.Or([s.vout['term'] for s in ss] or [False]), 'the pool is told to end')
        for s in ss:
            ex.prove(st, z3.Or(s.vout['term'], s.vout['term'] == s.vin['term']), 'the end mark is not taken back')
            ex.prove(st, s.vout['cnt'] == s.vin['cnt'], 'the destructor drops no task')
            ex.prove(st, z3.Or(s.vin['term'], z3.Not(s.vout['term']), s.notified == 'all'), 'all workers are woken at the end')
        ex.prove(st, st.ghost['joined'] == self.n, 'every worker is joined')


@model(r'pthread_create')
def m_create(ex, st, a, n):
    k = st.ghost['created']
    c = ex.verifying
    ex.prove(st, bv(ex.ptr_eq(st, a[0], add_ptr(acc(ex, st, 'spec::tp_threads', [c.o]), k))), 'each worker has its own slot')
    ex.prove(st, bv(ex.ptr_eq(st, a[3], c.o)), 'a worker works for this pool')
    if not isinstance(a[2], Fn):
        raise Unsupported('thread function')
    if c.fn is None:
        c.fn = a[2]
    ex.prove(st, c.fn == a[2], 'all workers run the same function')
    st.ghost['created'] = k + 1
    ex.prove(st, z3.Not(bv(ex.to_bool(acc(ex, st, 'spec::tp_term', [c.o])))), 'a pool starts without the end mark')
    return 0


def add_ptr(p, k):
    return Ptr(p.base, p.c, 8, add(p.i if p.s else 0, k))


class Make(Contract):
    base = 'spec::tp_make'

    def entry(self, ex, f):
        st = State()
        ex.mons = []
        self.o = Ptr(Obj('pool', None))
        self.n = ex.fresh('n', INT, (0, LOOPS))
        ex.assume_range(st, self.n, (0, LOOPS))
        self.fn = None
        st.ghost.update(created=z3.IntVal(0))
        return st, [self.o, self.n]

    def post(self, ex, st, o, args):
        ex.prove(st, o[0] == 'ret', 'the constructor does not throw')
        ex.prove(st, st.ghost['created'] == self.n, 'as many workers are started as were asked for')
        ex.prove(st, iv(acc(ex, st, 'spec::tp_n', [self.o])) == self.n, 'the number of workers is kept')
        ex.prove(st, bv(ex.ptr_eq(st, acc(ex, st, 'spec::tp_eptr', [self.o]), Ptr(0))), 'a new pool holds no exception')


class Body(Contract):
    """the function the workers run"""

    def __init__(self, name):
        self.base = name

    def entry(self, ex, f):
        st = State()
        ex.mons = []
        self.o = Ptr(Obj('pool', None, fresh=False))
        st.ghost['ev'] = ()
        return st, [self.o]

    def post(self, ex, st, o, args):
        ex.prove(st, o[0] == 'ret', 'a worker does not end with an exception')
        ex.prove(st, len(st.ghost['ev']) == 1 and bv(ex.ptr_eq(st, st.ghost['ev'][0][1], self.o)), 'a worker serves the pool it was started for, once')


class ServeCall(Contract):
    base = 'Maike::Sched::ThreadPool::performTasks'
    top = False

    def apply(self, ex, st, args, name):
        st.ghost['ev'] = st.ghost['ev'] + (('serve', args[0]),)
        return ret(st)


class Count(Contract):
    base = 'spec::tp_count'

    def entry(self, ex, f):
        st = State()
        self.o = Ptr(Obj('pool', None, fresh=False))
        self.n = ex.fresh('n', INT, (0, LOOPS))
        ex.assume_range(st, self.n, (0, LOOPS))
        acc(ex, st, 'spec::tp_n_put', [self.o, self.n])
        return st, [self.o]

    def post(self, ex, st, o, args):
        ex.prove(st, o[0] == 'ret' and iv(o[1]) == self.n, 'count is the number of workers')


def on_delete(ex, st, a):
    st.ghost['deleted'] = st.ghost.get('deleted', ()) + (a[0],)


@model(r'std::queue::queue')
def m_qctor(ex, st, a, n):
    return None


def run(S):
    mod = S.module([DRV] + SRC, extra=['-fno-access-control'])
    make = Make()
    for c in [Add('spec::tp_add'), Add('spec::tp_add_run', False, True), Add('spec::tp_addres', True), Add('spec::tp_addres_run', True, True),
              Take(), Serve(), Destroy(), make, Count()]:
        ex = S.exec(mod, [ResSet()], {'on_delete': on_delete}, models_extra=MODELS + mon.MODELS)
        ex.loop_hook = serve_hook
        S.check(ex, c)
    if make.fn is not None:
        ex = S.exec(mod, [ServeCall()], {}, models_extra=MODELS + mon.MODELS)
        f = ex.mod.funcs.get(make.fn.name)
        S.run1(ex, Body(ex.basename(make.fn.name)), f)
    else:
        S.problems.append('no worker function')
