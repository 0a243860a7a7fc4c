"""C03: a compile step runs exactly when forced or when a target is out of date."""
from spec import *
from models import F_exists, F_mtime, F_type, vec_len, vec_data, ret

DRV = os.path.join(os.path.dirname(__file__), 'C03.drv.cpp')
EXTERNAL = (2, 3)           # SourceFileOrigin::System, PkgConfig
ALWAYS = 0


def P(ex, st, p):
    return ex.gload(st, p, 'path')


def older(ex, a, b):
    e, t = F_exists(ex), F_mtime(ex)
    return z3.Or(z3.Not(e(a)), z3.And(e(b), t(a) < t(b)))


def newer(ex, a, b):
    e, t = F_exists(ex), F_mtime(ex)
    return z3.And(e(a), z3.Or(z3.Not(e(b)), t(a) > t(b)))


def neither(ex, a, b):
    e = F_exists(ex)
    return z3.And(z3.Not(e(a)), z3.Not(e(b)))


def isdir(ex, p):
    return F_type(ex)(p) == 2


def skip(ex, st, d):
    """dependency that takes no part in the comparison"""
    o = acc(ex, st, 'spec::dep_origin', [d])
    return z3.Or(*[iv(o) == x for x in EXTERNAL], isdir(ex, P(ex, st, acc(ex, st, 'spec::dep_name', [d]))))


def dep_ok(ex, st, d, t):
    return z3.Or(skip(ex, st, d), older(ex, P(ex, st, acc(ex, st, 'spec::dep_name', [d])), t))


def forall_elems(ex, st, vec, base, pred):
    i = ex.fresh('e', INT)
    n = vec_len(ex, st, vec)
    p = Ptr(vec_data(ex, st, vec), 0, base, i)
    k = len(st.pc)
    body = pred(p)
    del st.pc[k:]
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < iv(n)), body))


def dep_size(ex):
    return models.type_size(ex, 'Maike::Db::Dependency')


def tgt_size(ex):
    return models.type_size(ex, 'Maike::Db::TargetInfo')


def up1(ex, st, t, src, deps):
    """target t is up to date (given that the comparison is defined)"""
    return z3.Or(isdir(ex, t), z3.And(older(ex, src, t),
                 forall_elems(ex, st, deps, dep_size(ex), lambda d: dep_ok(ex, st, d, t))))


def err1(ex, t, src):
    return z3.And(z3.Not(isdir(ex, t)), neither(ex, src, t))


def run(S):
    m = S.module([DRV], extra=['-fno-access-control'])
    isOlder = Pure('Maike::isOlder', 2, lambda ex, st, a: neither(ex, P(ex, st, a[0]), P(ex, st, a[1])),
                   lambda ex, st, a: older(ex, P(ex, st, a[0]), P(ex, st, a[1])))
    isNewer = Pure('Maike::isNewer', 2, lambda ex, st, a: neither(ex, P(ex, st, a[0]), P(ex, st, a[1])),
                   lambda ex, st, a: newer(ex, P(ex, st, a[0]), P(ex, st, a[1])))
    depOlder = Pure('Maike::Db::isOlder', 2,
                    lambda ex, st, a: z3.And(z3.Not(skip(ex, st, a[0])),
                                             neither(ex, P(ex, st, acc(ex, st, 'spec::dep_name', [a[0]])), P(ex, st, a[1]))),
                    lambda ex, st, a: dep_ok(ex, st, a[0], P(ex, st, a[1])))

    def tname(ex, st, p):
        return P(ex, st, acc(ex, st, 'spec::target_name', [p]))
    upT = Pure('Maike::Db::isUpToDate', 3,
               lambda ex, st, a: err1(ex, tname(ex, st, a[0]), P(ex, st, a[1])),
               lambda ex, st, a: up1(ex, st, tname(ex, st, a[0]), P(ex, st, a[1]), a[2]), sig=r'isUpToDate\(Maike::Db::TargetInfo')
    UpR = z3.Function('uptodate.target', INT, z3.BoolSort())

    class UpRec(Contract):
        """a record is up to date iff each target is; throws iff the first target that is not up to date has an undefined
        comparison. Stated over the first index w whose target is not up to date (w = n: none)."""
        base = 'Maike::Db::isUpToDate'
        sig = r'isUpToDate\(Maike::Db::SourceFileRecordConst'

        def entry(self, ex, f):
            st = State()
            return st, [Ptr(Obj('rec', fresh=False)), Ptr(Obj('deps', fresh=False))]

        def parts(self, ex, st, a):
            src = P(ex, st, acc(ex, st, 'spec::rec_path', [a[0]]))
            ts = acc(ex, st, 'spec::rec_targets', [a[0]])
            n = vec_len(ex, st, ts)

            def at(j):
                k = len(st.pc)
                p = Ptr(vec_data(ex, st, ts), 0, tgt_size(ex), j)
                t = tname(ex, st, p)
                r = z3.And(z3.Not(err1(ex, t, src)), up1(ex, st, t, src, a[1]))
                er = err1(ex, t, src)
                del st.pc[k:]
                return r, er
            return n, at

        def facts(self, ex, st, a, o):
            n, at = self.parts(ex, st, a)
            j = ex.fresh('j', INT)
            all_ok = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < iv(n)), at(j)[0]))
            w = ex.fresh('w', INT)
            first = z3.Exists([w], z3.And(0 <= w, w < iv(n), *at(w)[1:] if o == 'exc' else [z3.Not(at(w)[0]), z3.Not(at(w)[1])]))
            return all_ok, first

        def post(self, ex, st, o, a):
            if o[0] == 'exc':
                _, first = self.facts(ex, st, a, 'exc')
                ex.prove(st, first, 'isUpToDate(record): throws only for an undefined comparison')
            else:
                all_ok, _ = self.facts(ex, st, a, 'ret')
                ex.prove(st, bv(ex.to_bool(o[1])) == all_ok, 'isUpToDate(record): true iff every target is up to date')

        def apply(self, ex, st, a, name):
            s2 = st.copy()
            _, first = self.facts(ex, s2, a, 'exc')
            s2.pc.append(first)
            all_ok, _ = self.facts(ex, st, a, 'ret')
            b = ex.fresh('uptodate', z3.BoolSort())
            st.facts.append(b == all_ok)
            st.ghost['uptodate'] = (b, a)
            return ret(st, b) + models.throw(s2)

    class Run(Contract):
        base = 'Maike::Db::Task::runIfNecessary'

        def entry(self, ex, f):
            st = State()
            self.res, self.task = Ptr(Obj('result')), Ptr(Obj('task', fresh=False))
            self.force = ex.fresh('force', INT, (0, 1))
            ex.assume_range(st, self.force, (0, 1))
            st.ghost['runs'] = 0
            h = Ptr(Obj('handle', fresh=False))
            fn = Obj('execve')
            self.cmd = acc(ex, st, 'spec::task_cmd', [self.task])

            def call(ex, s, a, t):
                s.ghost['runs'] = add(s.ghost['runs'], 1)
                ex.prove(s, ex.ptr_eq(s, a[1], h), 'the invoker is called with its own handle')
                ex.prove(s, ex.ptr_eq(s, a[2], self.cmd), 'the command that is run is the command of the task')
                s2 = s.copy()
                return ret(s, None) + models.throw(s2)
            fn.call = call
            return st, [self.res, self.task, self.force, h, Ptr(fn)]

        def want(self, ex, st):
            n = acc(ex, st, 'spec::task_node', [self.task])
            d = acc(ex, st, 'spec::task_deps', [self.task])
            pol = acc(ex, st, 'spec::rec_policy', [n])
            N, at = UpRec().parts(ex, st, [n, d])
            j = ex.fresh('j', INT)
            up = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < iv(N)), at(j)[0]))
            return z3.Or(self.force == 1, iv(pol) == ALWAYS, z3.Not(up))

        def post(self, ex, st, o, a):
            w = self.want(ex, st)
            runs = iv(st.ghost['runs'])
            if o[0] == 'exc':
                ex.prove(st, z3.Implies(runs == 1, w), 'runIfNecessary: command run only when necessary (exception)')
                ex.prove(st, runs <= 1, 'runIfNecessary: at most one run (exception)')
                n = acc(ex, st, 'spec::task_node', [self.task])
                d = acc(ex, st, 'spec::task_deps', [self.task])
                _, first = UpRec().facts(ex, st, [n, d], 'exc')
                ex.prove(st, z3.Or(runs == 1, first), 'runIfNecessary: error only from the command or an undefined comparison')
                return
            ex.prove(st, runs == z3.If(w, z3.IntVal(1), z3.IntVal(0)), 'runIfNecessary: the command is run exactly when necessary')
            hv = acc(ex, st, 'spec::has_value', [self.res])
            ex.prove(st, bv(ex.to_bool(hv)) == (runs == 1), 'runIfNecessary: a result is returned exactly when the command was run')

    rec, run_ = UpRec(), Run()
    run_.sig = r'ForceRecompilation'
    ex = S.exec(m, [isOlder, isNewer, depOlder, upT, rec, run_],
                models_extra=[(re.compile(r'Maike::Exec::Result::.*'), lambda ex, st, a, n: None)])
    for c in (isOlder, isNewer, depOlder, upT, rec, run_):
        S.check(ex, c)
