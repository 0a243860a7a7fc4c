"""Contracts on the task list (C04, C05)."""
from spec import *
from models import ret, vec_len, vec_data

DRV = os.path.join(os.path.dirname(__file__), 'tasks.drv.cpp')
MODELS = []
J = z3.Int('j')


def model(rx):
    def deco(fn):
        MODELS.append((re.compile(rx), fn))
        return fn
    return deco


def const(ex, st, n):
    return int(str(iv(acc(ex, st.copy(), 'spec::' + n, []))))


class Status(Contract):
    """Task::status: Success only if everything the step needs has succeeded; otherwise what one of them says"""
    base = 'spec::task_status'

    def entry(self, ex, f):
        st = State()
        self.t, self.l = Ptr(Obj('task', None, fresh=False)), Ptr(Obj('list', None, fresh=False))
        self.R = Ptr(ex.fresh('results', INT))
        st.facts.append(self.R.base >= 1)
        acc(ex, st, 'spec::set_results', [self.l, self.R])
        self.S, self.at = const(ex, st, 'success'), ([z3.IntVal(0)], [z3.IntVal(0)])
        self.v = [(vec_data(ex, st, x), iv(vec_len(ex, st, x))) for x in (acc(ex, st, 'spec::' + w, [self.t]) for w in ('build_deps', 'use_deps'))]
        # C17: every dependency refers to a node
        st.facts += [z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < n), self.ref(ex, st, d, J) < 2 ** 63)) for d, n in self.v]
        return st, [self.t, self.l]

    def ref(self, ex, st, d, j):
        return iv(acc(ex, st, 'spec::dep_ref', [Ptr(d, 0, models.type_size(ex, 'Maike::Db::Dependency'), j)]))

    def value(self, ex, st, d, j):
        return iv(acc(ex, st, 'spec::result', [acc(ex, st, 'spec::result_at', [self.R, self.ref(ex, st, d, j)])]))

    def loop(self, ex, s0):
        return StatusInv(self, s0)

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'asking for the status does not throw')
        if o[0] == 'exc':
            return
        r = iv(o[1])
        for what, (d, n) in zip(('build', 'use'), self.v):
            j = ex.fresh('j', INT)
            ex.prove(st, z3.Implies(z3.And(r == self.S, j >= 0, j < n), self.value(ex, st, d, j) == self.S), 'a step may start only if every %s dependency has succeeded' % what)
        held = [z3.And(p >= 0, p < n, r == self.value(ex, st, d, p)) for (d, n), ps in zip(self.v, self.at) for p in ps]
        ex.prove(st, z3.Or(r == self.S, *held), 'a step is held back only by something it needs')


class StatusInv:
    def __init__(self, c, s0):
        self.c, self.s0, self.loc = c, s0, None

    def pos(self, ex, st):
        v = ex.getloc(st, self.loc)
        return iv(v.i if v.s else 0)

    def assume(self, ex, st):
        for l in ex.locs(self.s0, st):
            v = ex.getloc(st, l) if l[0] == 'cell' else None
            for k, (d, n) in enumerate(self.c.v):
                if isinstance(v, Ptr) and not isinstance(v.base, Obj) and iv(v.base).eq(iv(d)):
                    self.loc, self.k, self.d, self.n = l, k, d, n
        if self.loc is not None:
            st.facts += self.formula(ex, st)
            self.c.at[self.k].append(self.pos(ex, st))

    def formula(self, ex, st):
        p = self.pos(ex, st)
        return [p >= 0, p <= self.n, z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < p), self.c.value(ex, st, self.d, J) == self.c.S))]

    def check(self, ex, st, which, hdr=None):
        if self.loc is None:
            raise Unsupported('unknown loop')
        for k, g in enumerate(self.formula(ex, st)):
            ex.prove(st, g, 'loop invariant %d %s' % (k, which))


# ---------------------------------------------------------------------------------------------- dispatch
class Process(Contract):
    """TaskList::process.  The list of steps is an array with the set 'alive' of those not yet dispatched; 'started' those handed to
    the pool; 'seen' those found waiting since the last wait."""
    base = 'Maike::Db::TaskList::process'

    def __init__(self, tags):
        self.tags = tags

    def say(self, ex, st, tag, goal, name):
        if set(tag.split()) & set(self.tags):
            x, st.exact = st.exact, st.exact or goal is False or isz(goal) and z3.is_false(z3.simplify(goal))  # false as it stands: no loop summary is involved
            ex.prove(st, goal, name)
            st.exact = x

    def entry(self, ex, f):
        st = State()
        self.ex = ex
        self.l, self.pool = Ptr(Obj('list', None, fresh=False)), Ptr(Obj('pool', None, fresh=False))
        self.R = Ptr(ex.fresh('results', INT))
        self.L, self.n = ex.fresh('steps', INT), ex.fresh('n', INT, (0, 2 ** 40))
        ex.assume_range(st, self.n, (0, 2 ** 40))
        st.facts += [self.R.base >= 1, self.L >= 1]
        acc(ex, st, 'spec::set_results', [self.l, self.R])
        acc(ex, st, 'spec::set_log', [self.l, Ptr(Obj('log', None, fresh=False))])
        self.lst = acc(ex, st, 'spec::list', [self.l])
        self.P, self.OK, self.F = [const(ex, st, x) for x in ('pending', 'success', 'failure')]
        self.sz = models.type_size(ex, 'Maike::Db::Task') + 16
        no = z3.K(INT, z3.BoolVal(False))
        al = ex.fresh('alive', z3.ArraySort(INT, z3.BoolSort()))
        st.facts.append(z3.ForAll([J], z3.Select(al, J) == z3.And(J >= 0, J < self.n)))
        st.ghost.update({'alive': al, 'started': no, 'seen': no, 'count': z3.IntVal(0), 'left': self.n, 'ok': z3.IntVal(-1), 'new': z3.BoolVal(False), 'cleared': z3.BoolVal(False),
                         'locks': z3.IntVal(0), 'waited': z3.BoolVal(False), 'thrown': False, 'worker': None})
        inv = ex.fresh('invoker', INT)
        st.facts.append(inv >= 1)
        fc = ex.fresh('force', INT, (0, 1))
        ex.assume_range(st, fc, (0, 1))
        ps = [t for t, _, _ in f.params]
        return st, [self.l, self.pool] + ([Ptr(inv)] * (len(ps) - 3)) + [fc]

    def step(self, k, c=0):
        return Ptr(self.L, c, self.sz, k)

    def idx(self, p):
        """the number of the step at p"""
        if isinstance(p, Ptr) and not isinstance(p.base, Obj) and iv(p.base).eq(self.L):
            return iv(p.i if p.s else 0)
        return None

    def nxt(self, ex, st, k):
        """the next step in the list behind k"""
        r, al = ex.fresh('next', INT, (0, 2 ** 41)), st.ghost['alive']
        st.facts += [z3.And(r > k, r <= self.n), z3.Implies(r < self.n, z3.Select(al, r)), z3.ForAll([J], z3.Implies(z3.And(J > k, J < r), z3.Not(z3.Select(al, J))))]
        return r

    def none(self, st):
        return z3.ForAll([J], z3.Not(z3.Select(st.ghost['alive'], J)))

    def loop(self, ex, s0):
        return ProcessInv(self, s0) if s0.ghost['worker'] is None else None

    def post(self, ex, st, o, a):
        g = st.ghost
        self.say(ex, st, 'C05 C04', g['waited'], 'the build ends only when all steps that were started have finished')
        if o[0] == 'exc':
            return self.say(ex, st, 'C05 C04', g['thrown'], 'an error is one that a step has raised')
        self.say(ex, st, 'C05', z3.And(z3.BoolVal(g['thrown'] is False), z3.Not(g['cleared'])), 'a build in which a step has failed raises an error')
        self.say(ex, st, 'C04', iv(o[1]) == g['count'], 'the number reported is the number of steps started')
        self.say(ex, st, 'C04', z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < self.n, z3.Not(g['cleared'])), z3.Select(g['started'], J))), 'when no step fails every step is started')
        self.say(ex, st, 'C04', z3.Implies(z3.Not(g['cleared']), iv(o[1]) == self.n), 'when no step fails the number reported is the number of steps')

    # what the dispatcher does
    def status(self, ex, st, a):
        k = self.idx(a[0])
        if k is None or st.ghost['worker'] is not None:
            raise Unsupported('status of something else')
        self.say(ex, st, 'C04 C05', z3.And(k >= 0, k < self.n, z3.Select(st.ghost['alive'], k)), 'only steps of the list are looked at')
        if not (isinstance(a[1], Ptr) and a[1].base is self.l.base and a[1].c == 0):
            raise Unsupported('status with another list')
        r = ex.fresh('status', INT, (0, 2))
        out = []
        for v in (self.P, self.OK, self.F):
            s = st.copy()
            s.pc.append(r == v)
            if v == self.P:
                s.ghost['seen'] = z3.Store(s.ghost['seen'], k, True)
            s.ghost['ok'] = k if v == self.OK else z3.IntVal(-1)
            out += ret(s, v)
        return out

    def dispatch(self, ex, st, a, n):
        g = st.ghost
        if g['worker'] is not None:
            raise Unsupported('step started by a step')
        k = iv(g['ok'])
        self.say(ex, st, 'C04 C05', k >= 0, 'a step is started only when everything it needs has succeeded')
        self.say(ex, st, 'C04', z3.And(z3.Not(z3.Select(g['started'], k)), z3.Select(g['alive'], k)), 'a step is started once')
        st.facts.append(z3.Implies(z3.Select(g['alive'], k), g['left'] >= 1))  # 'left' is the size of the set 'alive'
        self.say(ex, st, 'C05', z3.Not(g['cleared']), 'no step is started after a failure was seen')
        self.say(ex, st, 'C05 C04', g['locks'] == 1, 'a step that is started is counted')
        d = ex.mod.demangled(n)
        t = models.first_targ(d, 'addTask')
        fn = {}
        for f in ex.mod.funcs.values():
            if f.lines is not None:
                x = ex.mod.demangled(f.name)
                if x.startswith(t):
                    fn[x[len(t):]] = f
        mv = [f for x, f in fn.items() if re.fullmatch(r'::(\$_\d+|.lambda.*)\((\$_\d+|.*)&&\)', x)]
        dt = [f for x, f in fn.items() if re.fullmatch(r'::~.*\(\)', x)]
        op = [f for x, f in fn.items() if x in ('::operator()()', '::operator()() const')]
        if len(mv) != 1 or len(dt) != 1 or len(op) != 1:
            raise Unsupported('what is handed to the pool')
        out = []
        for s, o in ex.run_func(st, mv[0], [c2 := Ptr(Obj('closure', None)), a[1]]):
            if o[0] != 'ret':
                raise Unsupported('move throws')
            self.work(ex, s.copy(), k, c2, op[0], dt[0])
            g = s.ghost
            g.update({'started': z3.Store(g['started'], k, True), 'count': g['count'] + 1, 'ok': z3.IntVal(-1), 'new': z3.BoolVal(True), 'locks': g['locks'] - 1, 'waited': z3.BoolVal(False)})
            out += ret(s, a[0])
        return out

    def result(self, ex, st, i):
        return iv(acc(ex, st, 'spec::result', [acc(ex, st, 'spec::result_at', [self.R, i])]))

    def work(self, ex, st, k, c2, op, dt):
        """what a worker does with the step, at some later time"""
        src = self.step(k)
        st.ghost['worker'] = {'k': k, 'data': iv(vec_data(ex, st, src)), 'id': iv(acc(ex, st, 'spec::node_id', [src])), 'runs': 0, 'set': 0, 'unlock': 0, 'failed': None}
        w = st.ghost['worker']
        st.facts += [w['id'] < 2 ** 63, self.result(ex, st, w['id']) == self.P]
        st0 = st.copy()
        for s, o in ex.run_func(st, op, [c2]):
            w = s.ghost['worker']
            v = self.result(ex, s, w['id'])
            self.say(ex, s, 'C05 C04', w['runs'] == 1, 'a step is carried out once')
            good = z3.BoolVal(o[0] == 'ret')
            bad = z3.BoolVal(False) if w['failed'] is None else w['failed']
            self.say(ex, s, 'C05', z3.Or(v == self.OK, v == self.F), 'the result of a step is recorded before it counts as finished')
            self.say(ex, s, 'C05 C04', z3.Implies(v == self.OK, z3.And(z3.Not(bad), good)), 'a step is recorded as successful only if its command succeeded or was not needed')
            self.say(ex, s, 'C05', z3.Implies(bad, z3.And(v == self.F, z3.Not(good))), 'a failing command is recorded as a failure, and raised')
            self.say(ex, s, 'C05', z3.Implies(z3.Not(good), v == self.F), 'a step that cannot be carried out is recorded as a failure')
            self.say(ex, s, 'C04', z3.Implies(good, v == self.OK), 'a step that succeeded is recorded so')
            i = ex.fresh('other', INT)
            self.say(ex, s, 'C05 C04', z3.Implies(z3.And(i != w['id'], i >= 0, i < 2 ** 62), self.result(ex, s, i) == self.result(ex, st0.copy(), i)), 'a step records its own result only')
            for s2, o2 in ex.run_func(s, dt, [c2]):
                w = s2.ghost['worker']
                self.say(ex, s2, 'C05 C04', o2[0] == 'ret', 'the end of a step does not throw')
                self.say(ex, s2, 'C05 C04', w['set'] >= 1 and w['unlock'] == 1, 'the end of every step is signalled')

    def signal(self, ex, st, what, p):
        w = st.ghost['worker']
        if w is None:
            return self.say(ex, st, 'C05 C04', False, 'the end of a step is signalled by the step alone')
        v = self.result(ex, st, w['id'])
        self.say(ex, st, 'C05 C04', v != self.P, 'the end of a step is signalled after its result is recorded')
        if what == 'set':
            self.say(ex, st, 'C05', w['unlock'] == 0, 'nothing is touched after the step counts as finished')
        w = dict(w)
        w[what] += 1
        st.ghost['worker'] = w


class ProcessInv:
    def __init__(self, c, s0):
        self.c, self.s0, self.loc, self.num = c, s0, None, None

    def at(self, ex, st):
        return self.c.idx(ex.getloc(st, self.loc))

    def assume(self, ex, st):
        for l in ex.locs(self.s0, st):
            if l[0] != 'cell':
                continue
            v = ex.getloc(st, l)
            if isinstance(v, Ptr) and self.c.idx(v) is not None:
                self.loc = self.loc or l
            elif isz(v) and z3.is_int(v) and not isz(ex.getloc(self.s0, l)) and ex.getloc(self.s0, l) == 0:
                self.num = self.num or l
        if self.loc is not None and self.num is not None:
            st.facts += [f for _, f in self.formula(ex, st)]

    def formula(self, ex, st):
        c, g, k = self.c, st.ghost, self.at(ex, st)
        al, sd, se = [lambda j, x=g[x]: z3.Select(x, j) for x in ('alive', 'started', 'seen')]
        num = iv(ex.getloc(st, self.num))
        return [('C04 C05', z3.And(k >= 0, k <= c.n, z3.Implies(z3.And(k < c.n, z3.Not(g['cleared'])), al(k)), z3.Implies(k == c.n, c.none(st)))),
                ('C04 C05', z3.ForAll([J], z3.Implies(al(J), z3.And(J >= 0, J < c.n, z3.Not(sd(J)))))),
                ('C04', z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < c.n, z3.Not(g['cleared'])), z3.Or(al(J), sd(J))))),
                ('C05', z3.Implies(g['cleared'], c.none(st))),
                ('C04', z3.And(num == g['count'], num >= 0, num <= c.n, z3.Implies(z3.Not(g['cleared']), num + g['left'] == c.n))),
                ('C04 C05', g['locks'] == 0),
                ('C04 C05', z3.ForAll([J], z3.Implies(z3.And(J < k, al(J)), se(J))))]

    def check(self, ex, st, which, hdr=None):
        if self.loc is None or self.num is None:
            raise Unsupported('unknown loop')
        for k, (t, g) in enumerate(self.formula(ex, st)):
            self.c.say(ex, st, t, g, 'loop invariant %d %s' % (k, which))


def proc(ex):
    return ex.verifying if isinstance(ex.verifying, Process) else None


@model(r'Maike::Db::Task::status')
def m_status(ex, st, a, n):
    c = proc(ex)
    return c.status(ex, st, a) if c is not None and 'TaskList>(' in ex.mod.demangled(n) else NotImplemented


@model(r'Maike::Sched::ThreadPool::addTask')
def m_add(ex, st, a, n):
    c = proc(ex)
    return c.dispatch(ex, st, a, n) if c is not None else NotImplemented


@model(r'Maike::Sched::Event::(Event|~Event|set|waitAndReset)')
def m_event(ex, st, a, n):
    c, op = proc(ex), ex.basename(n).split('::')[-1]
    if c is None:
        return NotImplemented
    if op == 'set':
        c.signal(ex, st, 'set', a[0])
    elif op == 'waitAndReset':
        g = st.ghost
        c.say(ex, st, 'C05 C04', z3.And(z3.BoolVal(g['worker'] is None), z3.ForAll([J], z3.Implies(z3.Select(g['alive'], J), z3.Select(g['seen'], J)))), 'the dispatcher waits only after it has found every remaining step waiting')
        c.say(ex, st, 'C05 C04', z3.Or(z3.Not(c.none(st)), g['new']), 'the dispatcher waits only for a step that is going to end')
        g['seen'], g['new'] = z3.K(INT, z3.BoolVal(False)), z3.BoolVal(False)
    elif op == '~Event':
        c.say(ex, st, 'C05', st.ghost['waited'], 'the event outlives the steps')
    return None


@model(r'Maike::Sched::SignalingCounter::(SignalingCounter|~SignalingCounter|lock|unlock|operator\+\+|operator--|wait)')
def m_counter(ex, st, a, n):
    c, op = proc(ex), ex.basename(n).split('::')[-1]
    if c is None:
        return NotImplemented
    if op in ('lock', 'operator++'):
        if st.ghost['worker'] is not None:
            raise Unsupported('counter')
        st.ghost['locks'] = st.ghost['locks'] + 1
    elif op in ('unlock', 'operator--'):
        c.signal(ex, st, 'unlock', a[0])
    elif op == 'wait':
        c.say(ex, st, 'C05 C04', iv(a[1]) == 0, 'the dispatcher waits for all steps')
        st.ghost['waited'] = z3.BoolVal(True)
    elif op == 'SignalingCounter':
        c.say(ex, st, 'C05 C04', iv(a[1]) == 0 if len(a) > 1 else False, 'counting starts at zero')
    elif op == '~SignalingCounter':
        c.say(ex, st, 'C05', st.ghost['waited'], 'the counter outlives the steps')
    return a[0] if op.startswith('operator') else None


@model(r'Maike::Sched::ThreadPool::takeLastException')
def m_take(ex, st, a, n):
    c = proc(ex)
    if c is None:
        return NotImplemented
    c.say(ex, st, 'C05', st.ghost['waited'], 'errors are asked for only when all steps have finished')
    p = [x for x in a if isinstance(x, Ptr) and x.base is not c.pool.base][0]
    # a step that failed has raised an error (above), which the pool keeps (C10)
    s2 = st.copy()
    s2.pc.append(z3.Not(s2.ghost['cleared']))
    acc(ex, s2, 'spec::eptr_set', [p, NULL])
    acc(ex, st, 'spec::eptr_set', [p, Ptr(Obj('error', None, fresh=False))])
    st.ghost['thrown'] = 'taken'
    return ret(st) + (ret(s2) if ex.feasible(s2) else [])


@model(r'std::rethrow_exception')
def m_rethrow(ex, st, a, n):
    if proc(ex) is None:
        return NotImplemented
    st.ghost['thrown'] = st.ghost['thrown'] == 'taken'
    return models.throw(st)


@model(r'std::__exception_ptr::(exception_ptr::(exception_ptr|~exception_ptr)|operator==|operator!=)')
def m_eptr(ex, st, a, n):
    op = ex.basename(n).split('::')[-1]
    if op == '~exception_ptr':
        return None
    if op == 'exception_ptr':
        q = NULL if len(a) < 2 or (isinstance(a[1], Ptr) and a[1].isnull()) else acc(ex, st, 'spec::eptr_get', [a[1]])
        acc(ex, st, 'spec::eptr_set', [a[0], q])
        return None
    x, y = [acc(ex, st, 'spec::eptr_get', [p]) for p in a]
    e = ex.ptr_eq(st, x, y)
    return e if op == 'operator==' else neg(e)


@model(r'Maike::Db::Task::(Task|~Task)')
def m_task(ex, st, a, n):
    c = proc(ex)
    if c is None:
        return NotImplemented
    if '~' in n.split('::')[-1] or ex.basename(n).endswith('~Task'):
        return None
    if len(a) != 2:
        return NotImplemented
    ex.gstore(st, a[0], 'len', vec_len(ex, st, a[1]))
    ex.gstore(st, a[0], 'data', vec_data(ex, st, a[1]))
    acc(ex, st, 'spec::node_copy', [a[0], a[1]])
    return None


@model(r'Maike::Db::Task::runIfNecessary')
def m_run(ex, st, a, n):
    c = proc(ex)
    w = st.ghost['worker'] if c is not None else None
    if w is None:
        return NotImplemented
    out, t = a[0], a[1]
    c.say(ex, st, 'C05 C04', z3.And(iv(vec_data(ex, st, t)) == w['data'], iv(acc(ex, st, 'spec::node_id', [t])) == w['id']), 'the step carried out is the one that was started')
    s1, s2, s3 = st, st.copy(), st.copy()
    acc(ex, s1, 'spec::opt_none', [out])
    sg, rc = ex.fresh_kind('signo', 'i32', s2), ex.fresh_kind('code', 'i32', s2)
    acc(ex, s2, 'spec::res_set', [out, sg, rc])
    for s, f in ((s1, None), (s2, z3.Or(iv(sg) != 2 ** 32 - 1, iv(rc) != 0)), (s3, None)):
        s.ghost['worker'] = dict(w, runs=w['runs'] + 1, failed=f)
    return ret(s1) + ret(s2) + models.throw(s3)


@model(r'Maike::Db::CompilationLog::write')
def m_log(ex, st, a, n):
    if proc(ex) is None:
        return NotImplemented
    return ret(st) + models.throw(st.copy())


@model(r'Maike::Exec::Result::(Result|~Result)')
def m_result(ex, st, a, n):
    if proc(ex) is None:
        return NotImplemented
    if not ex.basename(n).endswith('~Result'):
        if len(a) != 2:
            return NotImplemented
        acc(ex, st, 'spec::res_copy', [a[0], a[1]])
    return None


@model(r'std::list::~?\w+')
def m_list(ex, st, a, n):
    c, op = proc(ex), ex.basename(n).split('::')[-1]
    if c is None:
        return m_lpush(ex, st, a, n)
    if not (isinstance(a[0], Ptr) and a[0].base is c.lst.base and a[0].c == c.lst.c):
        return NotImplemented
    g = st.ghost
    if op in ('end', 'cend'):
        return c.step(c.n, -16)
    if op in ('begin', 'cbegin', 'front'):
        return c.step(c.nxt(ex, st, z3.IntVal(-1)), 0 if op == 'front' else -16)
    if op == 'size':
        st.facts += [g['left'] >= 0, (g['left'] == 0) == c.none(st)]  # 'left' is the size of the set 'alive'
        return g['left']
    if op == 'empty':
        k = c.nxt(ex, st.copy(), z3.IntVal(-1))
        s1, s2 = st, st.copy()
        s1.pc.append(z3.And(c.none(s1), g['left'] == 0))
        s2.pc.append(z3.And(k >= 0, k < c.n, z3.Select(s2.ghost['alive'], k), g['left'] >= 1))
        return ret(s1, 1) + ret(s2, 0)
    if op == 'erase' and len(a) == 2:
        k = c.idx(a[1])
        c.say(ex, st, 'C04', z3.And(z3.Select(g['alive'], k), z3.Or(z3.Select(g['started'], k), g['cleared'])), 'a step leaves the list when it has been started')
        st.facts.append(z3.Implies(z3.Select(g['alive'], k), g['left'] >= 1))
        g['left'] = z3.If(z3.Select(g['alive'], k), g['left'] - 1, g['left'])
        g['alive'] = z3.Store(g['alive'], k, False)
        return c.step(c.nxt(ex, st, k), -16)
    if op == 'clear':
        c.say(ex, st, 'C04', iv(g['ok']) == -1, 'steps are given up only after a failure')
        g['alive'], g['left'] = z3.K(INT, z3.BoolVal(False)), z3.IntVal(0)
        g['cleared'] = z3.BoolVal(True)
        return None
    raise Unsupported('list: ' + op)


@model(r'std::_List_(const_)?iterator::operator\+\+')
def m_inc(ex, st, a, n):
    c = proc(ex)
    if c is None:
        return NotImplemented
    p = ex.load(st, a[0], ir.PTR)
    k = c.idx(p)
    if k is None or len(a) != 1:
        return NotImplemented
    c.say(ex, st, 'C04 C05', k < c.n, 'the end of the list is not passed')
    ex.store(st, a[0], c.step(c.nxt(ex, st, k), -16), ir.PTR)
    return a[0]


# ---------------------------------------------------------------------------------------------- construction
def callback(ex, n, a):
    """the call operator of the function object given to n"""
    d = ex.mod.demangled(n)
    t = models.first_targ(d, ex.basename(n).split('::')[-1])
    t = t.rstrip('&').strip()
    fs = [f for f in ex.mod.funcs.values() if f.lines is not None and re.match(r'(auto )?' + re.escape(t) + r'::operator\(\)', ex.mod.demangled(f.name))]
    if len(fs) != 1:
        raise Unsupported('callback')
    return fs[0]


class Visit(Contract):
    """functions that hand a function object to the graph traversal (C01, C02: which calls it once for each node)"""

    def __init__(self, tags, base=None, sig=None):
        self.tags = tags
        if base:
            self.base, self.sig = base, sig

    def say(self, ex, st, goal, name):
        ex.prove(st, goal, name)

    def record(self, ex, st):
        self.rec, self.info, p = Ptr(Obj('node', None)), Ptr(Obj('info', None, fresh=False)), Ptr(Obj('path', 40, fresh=False))
        self.id = ex.fresh('id', INT, (0, 2 ** 40))
        ex.assume_range(st, self.id, (0, 2 ** 40))
        acc(ex, st, 'spec::rec_make', [self.rec, self.id, p, self.info])


class MakeList(Visit):
    base = 'Maike::Db::TaskList::TaskList'

    def entry(self, ex, f):
        st = State()
        self.P, self.OK = const(ex, st, 'pending'), const(ex, st, 'success')
        self.l, self.g, b, log = Ptr(Obj('list', None)), Ptr(Obj('graph', None, fresh=False)), Ptr(Obj('build', None, fresh=False)), Ptr(Obj('log', None, fresh=False))
        st.ghost['visits'], st.ghost['pushed'] = 0, 0
        a = [self.l, self.g, b, log] + ([Ptr(Obj('target', None, fresh=False))] if len(f.params) == 5 else [])
        return st, a

    def visit(self, ex, st, a, n):
        f = callback(ex, n, a)
        if not (isinstance(a[1], Ptr) and a[1].base is self.g.base):
            raise Unsupported('another graph')
        self.record(ex, st)
        R = acc(ex, st, 'spec::results', [self.l])
        st0 = st.copy()
        val = lambda s, i: iv(acc(ex, s, 'spec::result', [acc(ex, s, 'spec::result_at', [R, i])]))
        t = iv(vec_len(ex, st, acc(ex, st, 'spec::targets', [self.rec])))
        q = Ptr(Obj('edge', 8))
        ex.store(st, q, NULL, ir.PTR)
        args = [a[0], self.rec, q][:len(f.params)]
        for s, o in ex.run_func(st.copy(), f, args):
            self.say(ex, s, o[0] == 'ret' or s.ghost['thrown'], 'listing a step fails only if the step cannot be made')
            if o[0] != 'ret':
                continue
            self.say(ex, s, s.ghost['pushed'] == z3.If(t == 0, 0, 1) if isz(s.ghost['pushed']) else z3.IntVal(s.ghost['pushed']) == z3.If(t == 0, 0, 1), 'each file with a compile step is listed once, and no other')
            self.say(ex, s, val(s, self.id) == z3.If(t == 0, self.OK, self.P), 'a file without a compile step counts as completed, any other as pending')
            i = ex.fresh('other', INT)
            self.say(ex, s, z3.Implies(z3.And(i >= 0, i < 2 ** 60, i != self.id), val(s, i) == val(st0.copy(), i)), 'listing a step leaves other results alone')
        st.ghost['visits'] = st.ghost['visits'] + 1
        return ret(st)

    def post(self, ex, st, o, a):
        self.say(ex, st, st.ghost['visits'] == 1, 'the graph is traversed once')


class MakeTask(Visit):
    base, sig = 'Maike::Db::Task::Task', r'DependencyGraph const&'

    def entry(self, ex, f):
        st = State()
        self.t, self.g = Ptr(Obj('task', None)), Ptr(Obj('graph', None, fresh=False))
        self.record(ex, st)
        st.ghost['deps'] = None
        lf = [ex.fresh('format', INT, (0, 255))]
        return st, [self.t, self.g, self.rec, Ptr(Obj('build', None, fresh=False))] + lf

    def post(self, ex, st, o, a):
        if o[0] != 'ret':
            return
        n = acc(ex, st, 'spec::task_node', [self.t])
        self.say(ex, st, z3.And(iv(acc(ex, st, 'spec::rec_id', [n])) == self.id, bv(ex.ptr_eq(st, acc(ex, st, 'spec::rec_info', [n]), acc(ex, st, 'spec::rec_info', [self.rec])))), 'a step is that of its file')
        d = iv(vec_data(ex, st, acc(ex, st, 'spec::use_deps', [self.t])))
        self.say(ex, st, d == st.ghost['deps'] if st.ghost['deps'] is not None else False, 'a step needs everything its file uses')


class UseDeps(Visit):
    base = 'Maike::Db::getUseDepsRecursive'

    def entry(self, ex, f):
        st = State()
        self.out, self.g, r = Ptr(Obj('out', None)), Ptr(Obj('graph', None, fresh=False)), Ptr(Obj('rec', None, fresh=False))
        st.ghost['visits'], st.ghost['pushed'] = 0, None
        self.r = r
        return st, [self.out, self.g, r]

    def visit(self, ex, st, a, n):
        f = callback(ex, n, a)
        if not (a[1].base is self.g.base and a[2].base is self.r.base and a[2].c == 0):
            raise Unsupported('another graph')
        self.say(ex, st, len(models.param_types(ex.mod.demangled(n))) == 3, 'all dependencies are followed')
        self.record(ex, st)
        for null in (False, True):
            s = st.copy()
            d = NULL if null else Ptr(Obj('dep', None, fresh=False))
            name = None if null else ex.gload(s, acc(ex, s, 'spec::dep_name', [d]), 'path')
            for s2, o in ex.run_func(s, f, [a[0], self.rec, d]):
                self.say(ex, s2, o[0] == 'ret', 'listing a dependency does not throw')
                p = s2.ghost['pushed']
                if null:
                    self.say(ex, s2, p is None, 'the file itself is not listed')
                else:
                    K = ex.fun('path.key', SEQ, INT)
                    self.say(ex, s2, z3.Or(z3.BoolVal(p is not None and p.base is d.base and p.c == 0), name == z3.Empty(SEQ), K(name) == K(z3.Empty(SEQ))), 'every file reached is listed')
        st.ghost['visits'] += 1
        return ret(st)

    def post(self, ex, st, o, a):
        self.say(ex, st, o[0] == 'ret' and st.ghost['visits'] == 1, 'the graph is traversed once')


@model(r'Maike::(visitNodesInTopoOrder|processGraphNodeRecursive)')
def m_visit(ex, st, a, n):
    return ex.verifying.visit(ex, st, a, n) if isinstance(ex.verifying, (MakeList, UseDeps)) else NotImplemented


@model(r'std::vector::(push_back|emplace_back)')
def m_vpush(ex, st, a, n):
    c = ex.verifying
    if isinstance(c, UseDeps) and models.first_targ(ex.mod.demangled(n), 'std::vector') == 'Maike::Db::Dependency':
        if not (a[0].base is c.out.base and a[0].c == 0 and len(a) == 2):
            raise Unsupported('another list')
        st.ghost['pushed'] = a[1]
        return None
    return NotImplemented


def m_lpush(ex, st, a, n):
    c, op = ex.verifying, ex.basename(n).split('::')[-1]
    if not isinstance(c, MakeList) or op not in ('push_back', 'emplace_back', 'list', '~list'):
        return NotImplemented
    if op in ('push_back', 'emplace_back'):
        nd = acc(ex, st, 'spec::task_node', [a[1]]) if len(a) == 2 else a[2] if len(a) == 5 else None
        if nd is None:
            raise Unsupported('list: ' + op)
        c.say(ex, st, iv(acc(ex, st, 'spec::rec_id', [nd])) == c.id, 'the step listed is that of the file')
        st.ghost['pushed'] = st.ghost['pushed'] + 1
    return None


@model(r'Maike::Db::(getUseDepsRecursive|makeBuildCommand|getNode)')
def m_parts(ex, st, a, n):
    c, op = ex.verifying, ex.basename(n).split('::')[-1]
    if isinstance(c, MakeList) and op == 'getNode':
        return None
    if not isinstance(c, MakeTask):
        return NotImplemented
    s2 = st.copy()
    if op == 'getUseDepsRecursive':
        c.say(ex, st, z3.And(z3.BoolVal(a[1].base is c.g.base), iv(acc(ex, st, 'spec::rec_id', [a[2]])) == c.id), 'what a step needs is asked for its file')
        st.ghost['deps'] = z3.IntVal(ex.newref())
        ex.gstore(st, a[0], 'len', ex.fresh('len', INT, (0, 2 ** 40)))
        ex.gstore(st, a[0], 'data', st.ghost['deps'])
    return ret(st) + models.throw(s2)


@model(r'Maike::Db::Task::(Task|~Task)')
def m_task2(ex, st, a, n):
    c = ex.verifying
    if not isinstance(c, MakeList):
        return m_task(ex, st, a, n)
    if ex.basename(n).endswith('~Task'):
        return None
    if len(a) < 3:
        return NotImplemented
    s2 = st.copy()
    s2.ghost['thrown'] = True
    acc(ex, st, 'spec::task_init', [a[0], a[2]])
    return ret(st) + models.throw(s2)


MODELS.insert(0, MODELS.pop())


@model(r'std::make_unique')
def m_unique(ex, st, a, n):
    c = ex.verifying
    if not isinstance(c, MakeList):
        return NotImplemented
    r = Ptr(ex.fresh('results', INT))
    st.facts.append(r.base >= 1)
    ex.store(st, a[0], r, ir.PTR)
    st.ghost['size'] = iv(a[1])
    return None


@model(r'Maike::Db::size|Maike::Db::CompilationLog::outputFormat')
def m_size(ex, st, a, n):
    c = ex.verifying
    if not isinstance(c, MakeList):
        return NotImplemented
    return ex.fresh('size', INT, (0, 255))


def inv(ex, s0, r0, f, h):
    return ex.verifying.loop(ex, s0) if hasattr(ex.verifying, 'loop') else None


def check(S, what, tags=()):
    mod = S.module([DRV], extra=['-fno-access-control'])
    cs = []
    if 'status' in what:
        cs.append(Status())
    if 'process' in what:
        cs.append(Process(tags))
    if 'make' in what:
        cs += [MakeList(tags, 'Maike::Db::TaskList::TaskList', r'CompilationLog&\)$'), MakeList(tags, 'Maike::Db::TaskList::TaskList', r'Target const&\)$'), MakeTask(tags), UseDeps(tags)]
    for c in cs:
        S.check(S.exec(mod, [], {'invariant': inv}, models_extra=MODELS), c)
