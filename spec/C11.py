"""C11: waiting on an event, counter or result never misses its condition.

Each method is checked against arbitrary interference by other threads whenever the lock is not held (see mon.py).  A waiter tests
its condition under the lock and waits only while it is false; every segment that can make a condition true is followed by a
notification.  Since a notification after the change, under or after the lock, cannot fall between the waiter's test and its going
to sleep (both under the lock), no wake-up is lost."""
from spec import *
from models import ret
import mon
from mon import Monitor, segs, unchanged, vals_eq

DRV = os.path.join(os.path.dirname(__file__), 'C11.drv.cpp')
ASSUMPTIONS = ['std::mutex excludes; std::condition_variable::wait releases and retakes the lock, and a notification wakes a thread that waits',
               'one waiter per event, counter or result, as in the product', 'AsyncTaskResult<int> and SignalingCounter<size_t> stand for the other instantiations',
               'a result is set at most once (C10)']


def fbool(ex, st):
    return ex.fresh('b', z3.BoolSort())


def asbool(ex, v):
    return bv(ex.to_bool(v))


class M(Contract):
    def entry(self, ex, f):
        st = State()
        self.o = Ptr(Obj('obj', None, fresh=False))
        self.mon = self.monitor(ex, st)
        mon.start(ex, st, [self.mon])
        return st, [self.o] + self.args(ex, st)

    def args(self, ex, st):
        return []

    def post(self, ex, st, o, args):
        mon.finish(ex, st, [self.mon])
        ss = segs(st, self.mon)
        self.effect(ex, st, o, args, ss)
        for s in ss:
            self.wakes(ex, st, s)


def event_mon(ex, st, o):
    def read(ex, s):
        return {'status': asbool(ex, acc(ex, s, 'spec::ev_get', [o]))}

    def havoc(ex, s):
        acc(ex, s, 'spec::ev_put', [o, fbool(ex, s)])
    m = Monitor(acc(ex, st, 'spec::ev_mtx', [o]), acc(ex, st, 'spec::ev_cv', [o]), read, havoc, None,
                lambda ex, s, v: z3.Not(v['status']))
    m.setall = lambda ex, s, v: acc(ex, s, 'spec::ev_put', [o, v['status']])
    return m


class Ev(M):
    def monitor(self, ex, st):
        return event_mon(ex, st, self.o)

    def wakes(self, ex, st, s):
        ex.prove(st, z3.Or(s.vin['status'], z3.Not(s.vout['status']), bool(s.notified)), 'event: setting it is followed by a notification')


class EvSet(Ev):
    base = 'spec::ev_set'

    def effect(self, ex, st, o, args, ss):
        ex.prove(st, o[0] == 'ret', 'event: set does not throw')
        ex.prove(st, z3.Or([s.vout['status'] for s in ss]), 'event: set makes it set')
        for s in ss:
            ex.prove(st, z3.Or(s.vout['status'], unchanged(ex, st, s)), 'event: set never clears it')
            ex.prove(st, s.end == 'unlock', 'event: set does not wait')


class EvWait(Ev):
    base = 'spec::ev_wait'

    def effect(self, ex, st, o, args, ss):
        ex.prove(st, o[0] == 'ret', 'event: waiting does not throw')
        took = [z3.And(s.vin['status'], z3.Not(s.vout['status'])) for s in ss]
        ex.prove(st, z3.Or(took), 'event: waiting returns only after it was set, and consumes it')
        ex.prove(st, z3.PbEq([(t, 1) for t in took], 1) if took else False, 'event: one event is consumed')
        for s, t in zip(ss, took):
            ex.prove(st, z3.Or(t, unchanged(ex, st, s)), 'event: waiting has no other effect')


class EvMake(Contract):
    base = 'spec::ev_make'

    def entry(self, ex, f):
        st = State()
        ex.mons = []
        self.o = Ptr(Obj('event', None))
        return st, [self.o]

    def post(self, ex, st, o, args):
        ex.prove(st, z3.Not(asbool(ex, acc(ex, st, 'spec::ev_get', [self.o]))), 'event: a new event is not set')


U = 2 ** 64


def cnt_mon(ex, st, o, value=None):
    def read(ex, s):
        return {'n': iv(acc(ex, s, 'spec::cn_get', [o]))}

    def havoc(ex, s):
        v = ex.fresh('n', INT, (0, U - 1))
        ex.assume_range(s, v, (0, U - 1))
        acc(ex, s, 'spec::cn_put', [o, v])
    m = Monitor(acc(ex, st, 'spec::cn_mtx', [o]), acc(ex, st, 'spec::cn_cv', [o]), read, havoc, None,
                lambda ex, s, v: v['n'] != value if value is not None else z3.BoolVal(False))
    m.setall = lambda ex, s, v: acc(ex, s, 'spec::cn_put', [o, v['n']])
    return m


class Cn(M):
    value = None

    def __init__(self, base, d=0, mode=None):
        self.base, self.d, self.mode = base, d, mode

    def monitor(self, ex, st):
        if self.mode:
            self.value = ex.fresh('value', INT, (0, U - 1))
            ex.assume_range(st, self.value, (0, U - 1))
        return cnt_mon(ex, st, self.o, self.value)

    def args(self, ex, st):
        return [self.value] if self.mode else []

    def wakes(self, ex, st, s):
        ex.prove(st, z3.Or(s.vin['n'] == s.vout['n'], bool(s.notified)), 'counter: a change is followed by a notification')

    def effect(self, ex, st, o, args, ss):
        ex.prove(st, o[0] == 'ret', 'counter: does not throw')
        if self.d:
            did = [s.vout['n'] == (s.vin['n'] + self.d) % U for s in ss]
            ex.prove(st, z3.PbEq([(t, 1) for t in did], 1) if did else False, 'counter: changed by exactly one')
            for s, t in zip(ss, did):
                ex.prove(st, z3.Or(t, unchanged(ex, st, s)), 'counter: no other change')
                ex.prove(st, s.end == 'unlock', 'counter: no waiting')
            if isinstance(o[1], Ptr):
                ex.prove(st, bv(ex.ptr_eq(st, o[1], self.o)), 'counter: returns itself')
            return
        for s in ss:
            ex.prove(st, unchanged(ex, st, s), 'counter: looking at it does not change it')
        if self.mode == 'wait':
            ex.prove(st, z3.Or([s.vin['n'] == self.value for s in ss]), 'counter: waiting returns only after the value was reached')
        else:
            want = self.mode == 'eq'
            ex.prove(st, z3.Or([asbool(ex, o[1]) == ((s.vin['n'] == self.value) == want) for s in ss]), 'counter: compares the value')


class CnMake(Contract):
    base = 'spec::cn_make'

    def entry(self, ex, f):
        st = State()
        ex.mons = []
        self.o = Ptr(Obj('counter', None))
        self.v = ex.fresh('v', INT, (0, U - 1))
        ex.assume_range(st, self.v, (0, U - 1))
        return st, [self.o, self.v]

    def post(self, ex, st, o, args):
        ex.prove(st, iv(acc(ex, st, 'spec::cn_get', [self.o])) == self.v, 'counter: starts with the value given')


def ready(v):
    return z3.Or(v['has'], v['exc'] != 0)


def ref(ex, p):
    return iv(p.base) if isinstance(p, Ptr) and (isz(p.base) or isinstance(p.base, int)) else iv(ex.ptr_to_ref(p))


def res_mon(ex, st, o):
    def read(ex, s):
        return {'has': asbool(ex, acc(ex, s, 'spec::re_has', [o])), 'val': iv(acc(ex, s, 'spec::re_val', [o])),
                'exc': ref(ex, acc(ex, s, 'spec::re_exc', [o]))}

    def put(ex, s, v):
        acc(ex, s, 'spec::re_has_put', [o, v['has']])
        acc(ex, s, 'spec::re_val_put', [o, v['val']])
        acc(ex, s, 'spec::re_exc_put', [o, Ptr(v['exc'])])

    def havoc(ex, s):
        v, e = ex.fresh('val', INT, (0, 2 ** 32 - 1)), ex.fresh('exc', INT, (0, None))
        ex.assume_range(s, v, (0, 2 ** 32 - 1))
        s.pc.append(e >= 0)
        put(ex, s, {'has': fbool(ex, s), 'val': v, 'exc': e})
    m = Monitor(acc(ex, st, 'spec::re_mtx', [o]), acc(ex, st, 'spec::re_cv', [o]), read, havoc,
                lambda v: z3.Not(z3.And(v['has'], v['exc'] != 0)), lambda ex, s, v: z3.Not(ready(v)))
    m.setall = put
    return m


class Re(M):
    def __init__(self, base, mode):
        self.base, self.mode = base, mode

    def monitor(self, ex, st):
        m = res_mon(ex, st, self.o)
        if self.mode in ('set', 'fail'):
            m.lock_assume = lambda v: z3.Not(ready(v))
        return m

    def args(self, ex, st):
        if self.mode == 'set':
            self.v = ex.fresh('v', INT, (0, 2 ** 32 - 1))
            ex.assume_range(st, self.v, (0, 2 ** 32 - 1))
            return [self.v]
        if self.mode == 'fail':
            self.v = ex.fresh('e', INT, (1, None))
            st.pc.append(self.v >= 1)
            return [Ptr(self.v)]
        return []

    def wakes(self, ex, st, s):
        ex.prove(st, z3.Or(ready(s.vin), z3.Not(ready(s.vout)), bool(s.inside)),
                 'result: becoming ready is notified under the lock (the waiter may destroy the result as soon as it gets the lock)')

    def effect(self, ex, st, o, args, ss):
        if self.mode in ('set', 'fail'):
            ex.prove(st, o[0] == 'ret', 'result: setting does not throw')
            ex.prove(st, len(ss) == 1, 'result: set in one step')
            for s in ss:
                if self.mode == 'set':
                    ex.prove(st, z3.And(s.vout['has'], s.vout['val'] == self.v, s.vout['exc'] == 0), 'result: holds the value given')
                else:
                    ex.prove(st, z3.And(z3.Not(s.vout['has']), s.vout['exc'] == self.v), 'result: holds the exception given')
            return
        ex.prove(st, len(ss) > 0 and ready(ss[-1].vin), 'result: waiting ends only when it is ready')
        if not ss:
            return
        v = ss[-1].vin
        if self.mode == 'destroy':
            ex.prove(st, o[0] == 'ret', 'result: destruction does not throw')
            return
        if o[0] == 'exc':
            ex.prove(st, z3.And(v['exc'] != 0, ref(ex, o[2]) == v['exc']), 'result: rethrows the exception stored')
            return
        ex.prove(st, z3.And(v['exc'] == 0, v['has']), 'result: returns only a value that was stored')
        if self.mode == 'take':
            ex.prove(st, iv(o[1]) == v['val'], 'result: yields the value stored')
        else:
            ex.prove(st, bv(ex.ptr_eq(st, o[1], acc(ex, st, 'spec::re_valp', [self.o]))), 'result: refers to the value stored')

    def post(self, ex, st, o, args):
        if self.mode == 'destroy':
            ss = segs(st, self.mon)
            ex.prove(st, len(st.ghost['held']) == 0, 'no lock is held at the end')
            self.effect(ex, st, o, args, ss)
            return
        M.post(self, ex, st, o, args)
        if self.mode in ('get',):
            for s in segs(st, self.mon):
                ex.prove(st, unchanged(ex, st, s), 'result: reading does not change it')


class ReMake(Contract):
    base = 'spec::re_make'

    def entry(self, ex, f):
        st = State()
        ex.mons = []
        self.o = Ptr(Obj('result', None))
        return st, [self.o]

    def post(self, ex, st, o, args):
        ex.prove(st, z3.Not(asbool(ex, acc(ex, st, 'spec::re_has', [self.o]))), 'result: a new result is not ready (no value)')
        ex.prove(st, bv(ex.ptr_eq(st, acc(ex, st, 'spec::re_exc', [self.o]), Ptr(0))), 'result: a new result is not ready (no exception)')


def run(S):
    mod = S.module([DRV], extra=['-fno-access-control'])
    cs = [EvMake(), EvSet(), EvWait(), CnMake(), Cn('spec::cn_inc', 1), Cn('spec::cn_dec', -1), Cn('spec::cn_lock', 1), Cn('spec::cn_unlock', -1),
          Cn('spec::cn_wait', 0, 'wait'), Cn('spec::cn_eq', 0, 'eq'), Cn('spec::cn_ne', 0, 'ne'), ReMake(), Re('spec::re_get', 'get'),
          Re('spec::re_take', 'take'), Re('spec::re_set', 'set'), Re('spec::re_fail', 'fail'), Re('spec::re_destroy', 'destroy')]
    for c in cs:
        ex = S.exec(mod, [], {}, models_extra=mon.MODELS)
        ex.loop_hook = mon.wait_loop
        S.check(ex, c)
