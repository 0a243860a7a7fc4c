"""C22: running a command.

The operating system's calls are modelled on a table of descriptors: pipe k has the ends (k, 'r') and (k, 'w'); a child has a copy of
the table.  fork has three outcomes, execve two.  What the child connects to its descriptors 0, 1 and 2, and where it reports that it
could not be started, says which pipe is which; the parent has to use them accordingly.  A thread is run where it is started."""
from spec import *
from models import ret, throw, cstr_seq, vec_len, vec_data

HERE = os.path.dirname(__file__)
DRV = os.path.join(HERE, 'C22.drv.cpp')
ASSUMPTIONS = [
    "POSIX: pipe2, fork, execve, dup2, close, fcntl, read, write, waitpid, _exit as specified; read and write on a pipe are not interrupted (no signal handlers are installed) and do not fail except for a broken pipe; waitpid on one's own child succeeds",
    "descriptors 0 to 2 are open; descriptor numbers mean nothing else to the code",
    "std::thread runs its function once and join waits for it; std::vector<std::byte>::insert at the end appends",
    "what the threads deliver goes to separate callbacks, which do not interfere (IOCapture: one vector each)",
    "paths and arguments hold no NUL",
]
J = z3.Int('j')
SEQS, BOOLS, BYTES = z3.ArraySort(INT, SEQ), z3.ArraySort(INT, z3.BoolSort()), z3.ArraySort(INT, INT)
STD = ((0, 'tty0', '-', False), (1, 'tty1', '-', False), (2, 'tty2', '-', False))
MODELS = []


def model(rx):
    def deco(fn):
        MODELS.append((re.compile(rx), fn))
        return fn
    return deco


def num(ex, st, name, lo, hi):
    v = ex.fresh(name, INT, (lo, hi))
    ex.assume_range(st, v, (lo, hi))
    return v


def fd(v):
    if isz(v):
        raise Unsupported('symbolic descriptor')
    return v if v < 2 ** 31 else v - 2 ** 32


def sure(ex, st, ok, name):
    """what happens to descriptors, threads and processes does not depend on what was collected in a loop"""
    was, st.exact = st.exact, st.exact or isinstance(ok, bool) or name in ('the exit code is reported', 'the signal is reported')
    r = ex.prove(st, ok, name)
    st.exact = was
    return r


MINUS1 = {4: 2 ** 32 - 1, 8: 2 ** 64 - 1}


def entry(st, n):
    return next((e for e in st.ghost['fds'] if e[0] == n), None)


def writers(st, k):
    return any(e[1] == k and e[2] == 'w' for e in st.ghost['fds'])


def R(ex):
    return ex.verifying if isinstance(ex.verifying, Run) else None


@model(r'pipe2?$')
def m_pipe(ex, st, a, n):
    flags = a[1] if len(a) > 1 else 0
    k = sum(1 for _ in st.ghost['made'])
    s2 = st.copy()
    r, w = 10 + 2 * k, 11 + 2 * k
    st.ghost['made'] += (k,)
    ce = not isz(flags) and bool(flags & 0o2000000)
    sure(ex, st, ce, 'no other command inherits the ends of a pipe')
    st.ghost['fds'] += ((r, k, 'r', ce), (w, k, 'w', ce))
    ex.store(st, a[0], r, ir.I32)
    ex.store(st, Ptr(a[0].base, a[0].c + 4, a[0].s, a[0].i), w, ir.I32)
    s2.ghost['cannot'] = True
    return ret(st, 0) + ret(s2, MINUS1[4])


@model(r'close$')
def m_close(ex, st, a, n):
    f = fd(a[0])
    e = entry(st, f)
    if st.ghost['role'] != 'child':
        sure(ex, st, f == -1 or e is not None and f > 2, 'only descriptors of its own are closed, once')
    if e is None:
        return MINUS1[4]
    st.ghost['fds'] = tuple(x for x in st.ghost['fds'] if x[0] != f)
    return 0


@model(r'dup2$')
def m_dup2(ex, st, a, n):
    x, y = fd(a[0]), fd(a[1])
    sure(ex, st, st.ghost['role'] == 'child', "the parent's descriptors stay as they are")
    e = entry(st, x)
    if e is None:
        return MINUS1[4]
    st.ghost['fds'] = tuple(t for t in st.ghost['fds'] if t[0] != y) + ((y, e[1], e[2], False),)
    return y


@model(r'fcntl(64)?$')
def m_fcntl(ex, st, a, n):
    f, e = fd(a[0]), entry(st, fd(a[0]))
    if e is None:
        return MINUS1[4]
    if a[1] == 2:
        st.ghost['fds'] = tuple((t[0], t[1], t[2], bool(a[2] & 1)) if t[0] == f else t for t in st.ghost['fds'])
        return 0
    if a[1] == 1:
        return int(e[3])
    raise Unsupported('fcntl')


@model(r'fork$')
def m_fork(ex, st, a, n):
    c = R(ex)
    sure(ex, st, st.ghost['role'] == 'before', 'one process is started')
    s0, s1 = st.copy(), st.copy()
    s0.ghost['role'], s1.ghost['role'], st.ghost['role'] = 'child', 'before', 'parent'
    s1.ghost['cannot'] = True
    if c.child:
        return ret(s0, 0)
    c.pid = num(ex, st, 'pid', 1, 2 ** 31 - 1)
    return ret(s1, MINUS1[4]) + ret(st, c.pid)


@model(r'vfork$|posix_spawnp?|system$|popen$|exec[vl](p|pe|e)?$')
def m_exec_other(ex, st, a, n):
    if n.lstrip('@') != 'execve':
        raise Unsupported(n)
    c, g = R(ex), st.ghost
    sure(ex, st, g['role'] == 'child', 'only the child becomes the command')
    sure(ex, st, cstr_seq(ex, st, a[0]) == c.exe, 'the given executable is started')
    v = [x for x in g if x.startswith('argv')]
    d = [x for x in v if ex.ptr_eq(st, a[1], Ptr(int(x[4:]))) is True]
    sure(ex, st, len(d) == 1, 'its arguments are those that were collected')
    if len(d) == 1:
        k = d[0][4:]
        A, Z, n = g['argv' + k], g['null' + k], iv(g['argn' + k])
        q = ex.fresh('q', INT)
        sure(ex, st, z3.And(n == c.n + 2, z3.Select(A, 0) == c.exe, z3.Not(z3.Select(Z, 0))), 'the executable is the first argument')
        sure(ex, st, z3.Implies(z3.And(q >= 0, q < c.n), z3.And(z3.Not(z3.Select(Z, q + 1)), z3.Select(A, q + 1) == c.arg(ex, st, q))), 'the given arguments follow, each one, in order')
        sure(ex, st, z3.Select(Z, c.n + 1), 'and nothing else')
    after = {e[0]: (e[1], e[2]) for e in g['fds'] if not e[3]}
    io = [after.get(k, ('none', '')) for k in range(3)]
    ok = [x[1] for x in io] == ['r', 'w', 'w'] and len({x[0] for x in io}) == 3
    sure(ex, st, ok, "the command's input and its two outputs are pipes of their own")
    sure(ex, st, all(k in (0, 1, 2) for k in after), 'the command has no other end of a pipe')
    if ok:
        c.io = [x[0] for x in io]
    e = num(ex, st, 'errno', 1, 133)
    ex.store(st, c.errno, e, ir.I32)
    st.ghost['errno'] = e
    return ret(st, MINUS1[4])


@model(r'_exit$|_Exit$|exit$|abort$|quick_exit$')
def m_exit(ex, st, a, n):
    g = st.ghost
    sure(ex, st, g['role'] == 'child' and n.lstrip('@').lower() == '_exit', 'the build tool itself goes on')
    if g['role'] == 'child':
        R(ex).ends += 1
        sure(ex, st, g['reported'], 'a command that cannot be started reports that before the child ends')
    return [(st, ('stop',))]


@model(r'__errno_location')
def m_errno(ex, st, a, n):
    return R(ex).errno if R(ex) else NotImplemented


@model(r'signal$|sigaction$')
def m_signal(ex, st, a, n):
    if n.lstrip('@') == 'signal':
        sure(ex, st, not isz(a[0]) and a[0] == 13, 'only SIGPIPE is ignored')
    return Ptr(0) if n.lstrip('@') == 'signal' else 0


@model(r'pthread_mutex_(lock|unlock|trylock)|__gthread_mutex_(lock|unlock)')
def m_lock(ex, st, a, n):
    return 0


@model(r'std::unique_lock::(unique_lock|~unique_lock|lock|unlock)|std::lock_guard::(lock_guard|~lock_guard)')
def m_ulock(ex, st, a, n):
    return None


def flushed(ex, st):
    p = st.ghost['pending']
    if p is not None:
        sure(ex, st, eq(p[2], p[1]), 'what was read is passed on before more is read')
        st.ghost['pending'] = None


@model(r'read$')
def m_read(ex, st, a, n):
    c, g = R(ex), st.ghost
    if c is None:
        return NotImplemented
    e = entry(st, fd(a[0]))
    ok = g['role'] == 'parent' and e is not None and e[2] == 'r' and c.io is not None
    sure(ex, st, ok, 'only pipes from the command are read')
    if not ok:
        raise Unsupported('read')
    k = e[1]
    sure(ex, st, not writers(st, k), 'a pipe that is read is not kept open for writing')
    if k == c.err:
        s2 = st.copy()
        s2.ghost['started'] = True
        if not (isinstance(a[2], int) and a[2] == 4):
            raise Unsupported('read of the report')
        v = num(ex, st, 'why', 1, 133)
        ex.store(st, a[1], v, ir.I32)
        st.ghost['failed'] = True
        return ret(st, c.errn) + ret(s2, 0)
    sure(ex, st, k in c.io[1:], 'only the outputs of the command are read')
    sure(ex, st, g['started'] is True, 'output is read when the command has been started')
    flushed(ex, st)
    w = c.io.index(k) if k in c.io else 9
    if not g['thread']:
        sure(ex, st, all(g['end%d' % x] is True for x in (1, 2) if x != w), 'nothing waits for one output while the other is not read')
    s2 = st.copy()
    s2.ghost['end%d' % w] = True
    m = num(ex, st, 'got', 1, 2 ** 31)
    st.pc.append(m <= iv(a[2]))
    p = a[1]
    if not isinstance(p.base, Obj):
        raise Unsupported('buffer')
    A = ex.fresh('bytes', BYTES)
    ex.mkregion(st, p.base, p.c, 1, None)
    st.o(p.base).regs[p.c] = Region(1, A, None)
    if p.base.size is not None and not isz(p.base.size):
        sure(ex, st, p.c + iv(a[2]) <= p.base.size, 'what is read fits the buffer')
    st.ghost['pending'] = (p, m, 0, A, w)
    return ret(s2, 0) + ret(st, m)


@model(r'spec_(out|err)$')
def m_deliver(ex, st, a, n):
    c, p = R(ex), st.ghost['pending']
    w = 1 if ex.basename(n).endswith('out') else 2
    sure(ex, st, ex.ptr_eq(st, a[0], c.cb), 'output goes to the given receiver')
    ok = p is not None and p[4] == w
    sure(ex, st, ok, 'standard output and standard error are kept apart')
    if not ok:
        return None
    rd, q = ex.byte_reader(st, a[1]), ex.fresh('q', INT)
    sure(ex, st, z3.And(iv(a[2]) >= 0, iv(p[2]) + iv(a[2]) <= iv(p[1])), 'no more is passed on than was read')
    sure(ex, st, z3.Implies(z3.And(q >= 0, q < iv(a[2])), rd(q) == z3.Select(p[3], iv(p[2]) + q)), 'the bytes passed on are those that were read, in order')
    off = add(p[2], a[2])
    st.ghost['pending'] = None if ex.entails(st, eq(off, p[1])) else (p[0], p[1], off, p[3], w)
    return None


@model(r'spec_in$')
def m_input(ex, st, a, n):
    c = R(ex)
    sure(ex, st, ex.ptr_eq(st, a[0], c.cb), 'input comes from the given sender')
    m = num(ex, st, 'in', 0, 2 ** 40)
    st.pc.append(m <= iv(a[2]))
    return m


@model(r'write$')
def m_write(ex, st, a, n):
    c, g = R(ex), st.ghost
    if c is None:
        return NotImplemented
    e = entry(st, fd(a[0]))
    if g['role'] == 'child':
        sure(ex, st, e is not None and e[2] == 'w' and e[0] > 2, 'a failed start is reported')
        if e is not None:
            c.err, c.errn = e[1], a[2]
            sure(ex, st, eq(a[2], 4) and eq(ex.load(st, a[1], ir.I32), g['errno']), 'a failed start is reported with its reason')
            st.ghost['reported'] = True
        return ret(st, a[2])
    sure(ex, st, g['role'] == 'parent' and e is not None and e[2] == 'w' and c.io is not None and e[1] == c.io[0], 'only the input of the command is written')
    sure(ex, st, all(g['end%d' % x] is True for x in (1, 2)), 'input is written while both outputs are read')
    s2 = st.copy()
    m = num(ex, st, 'wrote', 0, 2 ** 62)
    st.pc.append(m == iv(a[2]))
    return ret(st, m) + ret(s2, MINUS1[8])


@model(r'wait(pid|4)?$')
def m_wait(ex, st, a, n):
    c, g = R(ex), st.ghost
    if not n.endswith('waitpid'):
        raise Unsupported(n)
    sure(ex, st, g['role'] == 'parent' and g['status'] is None and conj(eq(a[0], c.pid), eq(a[2], 0)), 'the end of the command is waited for')
    sure(ex, st, all(g['end%d' % x] is True for x in (1, 2)), 'both outputs are read while the command runs')
    sure(ex, st, c.io is not None and not writers(st, c.io[0]), 'the command sees the end of its input')
    s2 = st.copy()
    v = num(ex, st, 'code', 0, 255)
    ex.store(st, a[1], z3.simplify(256 * v), ir.I32)
    st.ghost['status'] = ('exit', v)
    s = num(ex, s2, 'sig', 1, 64)
    core = num(ex, s2, 'core', 0, 1)
    w = ex.fresh('wstatus', INT, (1, 192))
    ex.assume_range(s2, w, (1, 192))
    s2.facts.append(w == s + 128 * core)
    ex.store(s2, a[1], w, ir.I32)
    s2.ghost['status'] = ('signal', s)
    return ret(st, c.pid) + ret(s2, c.pid)


@model(r'std::thread::_M_start_thread')
def m_thread(ex, st, a, n):
    p = ex.load(st, a[1], ir.PTR)
    vt = ex.load(st, p, ir.PTR)
    fn = ex.load(st, Ptr(vt.base, vt.c + 16), ir.PTR)
    if not isinstance(fn, Fn):
        raise Unsupported('thread')
    was = st.ghost['thread']
    st.ghost['thread'] = True
    out = []
    for s, o in ex.run_func(st, ex.mod.funcs[fn.name], [p]):
        sure(ex, s, o[0] == 'ret', 'a thread does not end with an error')
        if o[0] == 'ret':
            flushed(ex, s)
            s.ghost['thread'] = was
            ex.store(s, a[1], Ptr(0), ir.PTR)
            s.ghost['running'] = s.ghost['running'] + 1
            ex.store(s, a[0], 1 + s.ghost['running'], ir.Ty('int', 64))
            out += ret(s)
    return out


@model(r'std::thread::_State::~_State')
def m_state(ex, st, a, n):
    return None


@model(r'std::to_string')
def m_to_string(ex, st, a, n):
    ex.gstore(st, a[0], 'str', ex.fresh('digits', SEQ))
    return None


@model(r'std::thread::join')
def m_join(ex, st, a, n):
    sure(ex, st, neg(eq(ex.load(st, a[0], ir.Ty('int', 64)), 0)), 'a thread is joined once')
    ex.store(st, a[0], 0, ir.Ty('int', 64))
    st.ghost['running'] = st.ghost['running'] - 1
    return None


@model(r'std::thread::(detach|~thread)$')
def m_detach(ex, st, a, n):
    if ex.basename(n).endswith('detach'):
        raise Unsupported('detach')
    return NotImplemented


@model(r'std::vector::(push_back|emplace_back|vector|reserve|~vector|size|data)')
def m_argv(ex, st, a, n):
    """the argument vector"""
    d = ex.mod.demangled(n)
    b = ex.basename(n).split('::')[-1]
    if models.first_targ(d, 'std::vector') not in ('char const*', 'char*') or R(ex) is None:
        return models.default(ex, st, a, n)
    if b == 'vector':
        r = models.m_vector(ex, st, a, n)
        if r is NotImplemented:
            raise Unsupported('argument vector')
        k = vec_data(ex, st, a[0])
        st.ghost['argv%s' % k], st.ghost['null%s' % k], st.ghost['argn%s' % k] = ex.fresh('argv', SEQS), ex.fresh('null', BOOLS), 0
        return r
    if b == 'reserve' or b == '~vector':
        return None
    if b == 'data':
        return Ptr(vec_data(ex, st, a[0]), 0)
    if b == 'size':
        return vec_len(ex, st, a[0])
    k = vec_data(ex, st, a[0])
    g = st.ghost
    if 'argv%s' % k not in g:
        raise Unsupported('argument vector')
    v = ex.load(st, a[1], ir.PTR)
    ln = g['argn%s' % k]
    null = isinstance(v, Ptr) and v.isnull()
    if not null:
        g['argv%s' % k] = z3.Store(g['argv%s' % k], iv(ln), cstr_seq(ex, st, v))
    g['null%s' % k] = z3.Store(g['null%s' % k], iv(ln), z3.BoolVal(bool(null)))
    g['argn%s' % k] = add(ln, 1)
    ex.gstore(st, a[0], 'len', add(ln, 1))
    return None


class Run(Contract):
    """starting a command and talking to it"""
    base = 'Maike::Exec::execve'
    sig = re.compile(r'Maike::Io::Redirector const&\)$')

    def __init__(self, child=None):
        self.child, self.pid, self.ends = child is None, None, 0
        self.io, self.err, self.errn = (child.io, child.err, child.errn) if child else (None, None, None)

    def entry(self, ex, f):
        st = State()
        self.path, self.args, self.red, self.cb = Ptr(Obj('path', 40, fresh=False)), Ptr(Obj('args', 24, fresh=False)), Ptr(Obj('redirector', None, fresh=False)), Ptr(Obj('receiver', None, fresh=False))
        self.errno = Ptr(Obj('errno', 4, fresh=False))
        self.exe = ex.fresh('exe', SEQ)
        ex.gstore(st, self.path, 'path', self.exe)
        self.n, self.d = num(ex, st, 'n', 0, 2 ** 40), num(ex, st, 'data', 1, 2 ** 40 - 1)
        ex.gstore(st, self.args, 'len', self.n)
        ex.gstore(st, self.args, 'data', self.d)
        acc(ex, st, 'spec::make_redirector', [self.red, self.cb])
        st.ghost.update(fds=STD, made=(), role='before', cannot=False, started=None, failed=False, pending=None, end1=False, end2=False, thread=False, running=0, status=None, reported=False)
        return st, [self.path, self.args, self.red]

    def arg(self, ex, st, j):
        s = st.copy()
        return ex.gload(s, Ptr(self.d, 0, 32, j), 'str')

    def loop(self, ex, s0):
        return ArgInv(self, s0)

    def post(self, ex, st, o, a):
        g = st.ghost
        if g['role'] == 'child':
            return sure(ex, st, False, 'the child does not go on as the build tool')
        if self.child:
            return
        sure(ex, st, not any(e[0] > 2 for e in g['fds']), 'no descriptor is left open')
        sure(ex, st, self.err is not None and self.io is not None and self.err not in self.io, 'a failed start is reported on a pipe of its own')
        if g['cannot'] or g['failed']:
            return sure(ex, st, o[0] == 'exc' and not o[1].startswith('!'), 'a command that cannot be started is an error')
        sure(ex, st, o[0] == 'ret', 'a command that was started is not an error')
        if o[0] != 'ret':
            return
        sure(ex, st, g['started'] is True, 'whether the command was started is known')
        sure(ex, st, g['end1'] is True and g['end2'] is True, 'both outputs are read to their end')
        sure(ex, st, g['running'] == 0, 'everything is captured before the result is used')
        sure(ex, st, g['status'] is not None, 'the command has ended')
        if g['status'] is not None:
            p = Ptr(Obj('status', 8))
            ex.store(st, p, o[1], ir.Ty('int', 64))
            m, c, s = (acc(ex, st, 'spec::' + w, [p]) for w in ('from_main', 'code', 'signo'))
            if g['status'][0] == 'exit':
                sure(ex, st, conj(ex.to_bool(m), eq(c, g['status'][1])), 'the exit code is reported')
            else:
                sure(ex, st, conj(neg(ex.to_bool(m)), eq(s, g['status'][1])), 'the signal is reported')


class ArgInv:
    """arguments collected so far"""

    def __init__(self, c, s0):
        self.c, self.s0 = c, s0

    def formula(self, ex, st, j):
        out = []
        for g, v in list(st.ghost.items()):
            if g.startswith('argv') and g in self.s0.ghost:
                k = g[4:]
                Z, n = st.ghost['null' + k], iv(st.ghost['argn' + k])
                out.append((k, v, z3.And(n >= 1, z3.Select(v, 0) == self.c.exe, z3.Not(z3.Select(Z, 0)),
                                         z3.Implies(z3.And(j >= 1, j < n), z3.And(z3.Not(z3.Select(Z, j)), z3.Select(v, j) == self.c.arg(ex, st, j - 1))))))
        return out

    def changed(self, st, k):
        return any(not st.ghost[w + k].eq(self.s0.ghost[w + k]) for w in ('argv', 'null'))

    def assume(self, ex, st):
        if self.s0.ghost['pending'] is None:
            st.ghost['pending'] = None
        for k, v, f in self.formula(ex, st, J):
            if self.changed(st, k):
                self.mine = k
                st.facts.append(z3.ForAll([J], f, patterns=[z3.Select(v, J)]))
                st.facts.append(z3.substitute(f, (J, z3.IntVal(0))))

    def check(self, ex, st, which, hdr=None):
        if self.s0.ghost['pending'] is None:
            flushed(ex, st)
        q = ex.fresh('q', INT)
        for k, v, f in self.formula(ex, st, q):
            if getattr(self, 'mine', None) == k:
                ex.prove(st, f, 'the arguments so far %s' % which)


@model(r'std::vector::insert')
def m_insert(ex, st, a, n):
    """bytes added at the end of a vector"""
    d = ex.mod.demangled(n)
    if models.first_targ(d, 'std::vector') != 'std::byte' or len(a) != 4 or not isinstance(ex.verifying, Capture):
        return models.default(ex, st, a, n)
    ln, dt = vec_len(ex, st, a[0]), vec_data(ex, st, a[0])
    ex.prove(st, ex.ptr_eq(st, a[1], Ptr(dt, 0, 1, ln)), 'output is added at the end')
    m = ex.ptr_diff(a[3], a[2])
    src, old = ex.byte_reader(st, a[2]), z3.Select(ex.heap_arr(st, (1, 0, 'i8')), iv(dt))
    r, A = ex.newref(), ex.fresh('captured', BYTES)
    st.facts += [z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < iv(ln)), z3.Select(A, J) == z3.Select(old, J)), patterns=[z3.Select(A, J)]),
                 z3.ForAll([J], z3.Implies(z3.And(J >= iv(ln), J < iv(ln) + iv(m)), z3.Select(A, J) == src(J - iv(ln))), patterns=[z3.Select(A, J)])]
    st.heap[(1, 0, 'i8')] = z3.Store(ex.heap_arr(st, (1, 0, 'i8')), r, A)
    ex.gstore(st, a[0], 'len', add(ln, m))
    ex.gstore(st, a[0], 'data', r)
    return Ptr(r, 0, 1, ln)


@model(r'Maike::Exec::execve')
def m_run(ex, st, a, n):
    c, d = ex.verifying, ex.mod.demangled(n)
    if isinstance(c, Capture) and d.endswith('Maike::Io::Redirector const&)'):
        return c.start(ex, st, a)
    if isinstance(c, Local) and d.startswith('Maike::Exec::execve(std::filesystem'):
        return c.start(ex, st, a)
    return NotImplemented


class Capture(Contract):
    """what the command writes is what is reported"""
    base = 'Maike::Exec::execve'
    sig = re.compile(r'^Maike::Exec::execve\(std::filesystem::__cxx11::path const&, std::vector<.*> const&\)$')

    def entry(self, ex, f):
        st = State()
        self.res, self.path, self.args = Ptr(Obj('result', None)), Ptr(Obj('path', 40, fresh=False)), Ptr(Obj('args', 24, fresh=False))
        self.runs, self.st = 0, None
        st.ghost.update(runs=0, threw=False)
        return st, [self.res, self.path, self.args]

    def piece(self, ex, st, fn, h, vec=None):
        """the callback given a piece of output: where does it go?"""
        s = st.copy()
        b, m = Ptr(Obj('piece', None, fresh=False)), num(ex, s, 'm', 0, 2 ** 31)
        ex.mkregion(s, b.base, 0, 1, None)
        s.ghost['chunk'] = (b, m)
        if vec is not None:
            L, D = num(ex, s, 'L', 0, 2 ** 40), num(ex, s, 'D', 1, 2 ** 40 - 1)
            ex.gstore(s, vec, 'len', L)
            ex.gstore(s, vec, 'data', D)
            s.ghost['before'] = (L, z3.Select(ex.heap_arr(s, (1, 0, 'i8')), D))
        return s.copy(), b, m, ex.run_func(s, ex.mod.funcs[fn.name], [h, b, m])

    def sink(self, ex, st, fn, h, what):
        ex.dry += 1
        s0, b, m, out = self.piece(ex, st, fn, h)
        where = {(l[1], l[2][0]) for s, o in out for l in ex.locs(s0, s) if l[0] == 'ghostcell' and l[2][1] == 'len'}
        ex.dry -= 1
        ex.prove(st, len(where) == 1, '%s is collected' % what)
        if len(where) != 1:
            raise Unsupported('no sink')
        obj, off = next(iter(where))
        vec = Ptr(obj, off)
        s0, b, m, out = self.piece(ex, st, fn, h, vec)
        for s, o in out:
            L, old = s.ghost['before']
            rd, q = ex.byte_reader(s0, b), ex.fresh('q', INT)
            A = z3.Select(ex.heap_arr(s, (1, 0, 'i8')), iv(vec_data(ex, s, vec)))
            ex.prove(s, o[0] == 'ret', 'collecting %s does not fail' % what)
            ex.prove(s, eq(vec_len(ex, s, vec), L + m), 'every byte of %s is collected' % what)
            ex.prove(s, z3.Implies(z3.And(q >= 0, q < L), z3.Select(A, q) == z3.Select(old, q)), '%s so far is kept' % what)
            ex.prove(s, z3.Implies(z3.And(q >= 0, q < m), z3.Select(A, L + q) == rd(q)), '%s is collected in order' % what)
        return vec

    def start(self, ex, st, a):
        ex.prove(st, st.ghost['runs'] == 0, 'the command is run once')
        ex.prove(st, conj(ex.ptr_eq(st, a[0], self.path), ex.ptr_eq(st, a[1], self.args)), 'the given command is run')
        h, fo, fe = (acc(ex, st, 'spec::' + w, [a[2]]) for w in ('handle', 'out', 'err'))
        V = [self.sink(ex, st, f, h, w) for f, w in ((fo, 'standard output'), (fe, 'standard error'))]
        ex.prove(st, neg(ex.ptr_eq(st, V[0], V[1])), 'standard output and standard error are collected apart')
        st.ghost['runs'] = 1
        s2 = st.copy()
        s2.ghost['threw'] = True
        self.got = []
        for v in V:
            ex.prove(st, eq(vec_len(ex, st, v), 0), 'nothing is collected before the command runs')
            n, d = num(ex, st, 'n', 0, 2 ** 40), num(ex, st, 'd', 1, 2 ** 40 - 1)
            ex.gstore(st, v, 'len', n)
            ex.gstore(st, v, 'data', d)
            self.got.append((n, d))
        self.st = num(ex, st, 'status', 0, 2 ** 64 - 1)
        return ret(st, self.st) + throw(s2)

    def post(self, ex, st, o, a):
        g = st.ghost
        if o[0] == 'exc':
            return ex.prove(st, g['threw'], 'an error only when the command could not be started')
        ex.prove(st, not g['threw'] and g['runs'] == 1, 'a command that could not be started is an error')
        for (n, d), w in zip(self.got, ('out', 'err')):
            v = acc(ex, st, 'spec::res_' + w, [self.res])
            ex.prove(st, conj(eq(vec_len(ex, st, v), n), eq(vec_data(ex, st, v), d)), 'the result has what was collected: ' + w)
        ex.prove(st, eq(ex.load(st, acc(ex, st, 'spec::res_status', [self.res]), ir.Ty('int', 64)), self.st), "the result has the command's status")


class Local(Contract):
    """a dry run runs nothing"""
    base = 'Maike::Exec::execve'
    sig = re.compile(r'LocalExecve')

    def entry(self, ex, f):
        st = State()
        self.res, self.cmd = Ptr(Obj('result', None)), Ptr(Obj('command', None, fresh=False))
        self.dry = num(ex, st, 'dryrun', 0, 1)
        st.ghost['run'] = None
        return st, [self.res, self.dry, self.cmd]

    def start(self, ex, st, a):
        ex.prove(st, st.ghost['run'] is None and z3.And(self.dry == 0), 'nothing is started in a dry run')
        ex.prove(st, len(a) == 3 and conj(ex.ptr_eq(st, a[0], self.res), ex.ptr_eq(st, a[1], acc(ex, st, 'spec::exe', [self.cmd])), ex.ptr_eq(st, a[2], acc(ex, st, 'spec::args', [self.cmd]))), 'the given command is run')
        st.ghost['run'] = 'ok'
        s2 = st.copy()
        s2.ghost['run'] = 'error'
        return ret(st) + throw(s2)

    def post(self, ex, st, o, a):
        r = st.ghost['run']
        if r is not None:
            return ex.prove(st, (o[0] == 'ret') == (r == 'ok'), 'the result is that of the command')
        ex.prove(st, self.dry == 1, 'a command is run')
        ex.prove(st, o[0] == 'ret', 'a dry run does not fail')
        if o[0] != 'ret':
            return
        p = acc(ex, st, 'spec::res_status', [self.res])
        ex.prove(st, conj(ex.to_bool(acc(ex, st, 'spec::from_main', [p])), eq(acc(ex, st, 'spec::code', [p]), 0)), 'a dry run is a success')
        ex.prove(st, conj(*[eq(vec_len(ex, st, acc(ex, st, 'spec::res_' + w, [self.res])), 0) for w in ('out', 'err')]), 'a dry run has no output')


class Failed(Contract):
    def __init__(self, base):
        self.base, self.signal = base, 'signal' in base

    def entry(self, ex, f):
        st = State()
        self.v = num(ex, st, 'v', 1 if self.signal else 0, 64 if self.signal else 255)
        return st, [self.v]

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'failed does not throw')
        if o[0] == 'ret':
            ex.prove(st, bv(ex.to_bool(o[1])) == (z3.BoolVal(True) if self.signal else self.v != 0), 'a command counts as failed unless it exited with code 0')


def run(S):
    inv = {'invariant': lambda ex, s0, r0, f, h: ex.verifying.loop(ex, s0)}
    m = S.module([DRV], extra=['-fno-access-control'])
    ex = S.exec(m, models_extra=MODELS, opts=inv)
    child = Run()
    S.check(ex, child)
    S.check(ex, Run(child))
    S.check(ex, Capture())
    S.check(ex, Local())
    for b in ('failed_exit', 'failed_signal', 'failed_result_exit', 'failed_result_signal'):
        S.check(ex, Failed('spec::' + b))
