"""C25: scanning a source tree finds every file that is not filtered out.

One task of the scan is specified for itself: which paths it leaves out, what it records and under which name, and which tasks it adds.
The map of files is, for each class of equal names, whether it is recorded; while its lock is not held other tasks may record more.
That all tasks together find all files follows by induction over the depth of the tree (DESIGN.md)."""
from spec import *
import models
from models import F_type, ret, throw, fork, vec_len, vec_data

DRV = os.path.join(os.path.dirname(__file__), 'C25.drv.cpp')
ASSUMPTIONS = ['std::shared_mutex and std::mutex exclude each other as specified; std::map is a map with path equality on its keys',
               'the pool runs every task that is added once (proved in C10); SignalingCounter::wait returns when the count is zero (proved in C11)',
               'a directory gives its entries as a finite sequence and the file system does not change during the scan',
               'a path and its normal form name the same file; std::filesystem::path operations are functions of their operands',
               'errors are std::exceptions; memory does not run out while an error is being recorded',
               'std::regex_search of a pattern in a text is a function of the two']
MODELS = []
B = z3.BoolSort()
MATCH = z3.Function('MATCH', SEQ, INT, B)
ENT = z3.Function('ENT', SEQ, INT, SEQ)
NENT = z3.Function('NENT', SEQ, INT)
CAT = z3.Function('CAT', INT, SEQ)
J = z3.Int('j')
BASE = 'Maike::SourceTreeLoader::'


def model(rx):
    def deco(fn):
        MODELS.append((re.compile(rx), fn))
        return fn
    return deco


def K(ex, p):
    return ex.fun('path.key', SEQ, INT)(p)


def N(ex, p):
    return ex.fun('path.lexically_normal', SEQ, SEQ)(p)


def isdir(ex, p):
    return F_type(ex)(p) == 2


def path(ex, st, p):
    return ex.gload(st, p, 'path')


def same(ex, st, p, q):
    return bv(ex.ptr_eq(st, p, q))


def ours(ex, cls):
    return ex.verifying if isinstance(ex.verifying, cls) else None


class Scan:
    """the scanner and what is known of it"""

    def scanner(self, ex, st):
        self.d = Ptr(Obj('scanner', 512, fresh=False))
        for k in ('root', 'filter', 'dir_filter', 'loaders', 'counter', 'files', 'files_mtx', 'errlog', 'errlog_mtx', 'workers'):
            setattr(self, 'p_' + k, acc(ex, st, 'spec::' + k, [self.d]))
        self.rec = ex.to_bool(acc(ex, st, 'spec::recursive', [self.d]))
        self.root = path(ex, st, self.p_root)
        st.ghost.update({'cnt': z3.IntVal(0), 'added': z3.IntVal(0), 'held': None, 'elock': False, 'worker': None})

    def filters(self, st):
        return [(self.p_filter, 'FILE'), (self.p_dir_filter, 'PATH')]


# ------------------------------------------------------------------------------------------------------ the counter and the pool
@model(r'Maike::Sched::SignalingCounter::(lock|unlock|operator\+\+|operator--)')
def m_counter(ex, st, a, n):
    c, op = ours(ex, Scan), ex.basename(n).split('::')[-1]
    if c is None:
        return NotImplemented
    ex.prove(st, same(ex, st, a[0], c.p_counter), 'the counter is the one of this scan')
    st.ghost['cnt'] = st.ghost['cnt'] + (1 if op in ('lock', 'operator++') else -1)
    return a[0] if op.startswith('operator') else None


def closure(ex, n):
    t = models.first_targ(ex.mod.demangled(n), 'addTask')
    fn = {}
    for f in ex.mod.funcs.values():
        x = ex.mod.demangled(f.name) if f.lines is not None else ''
        if x.startswith(t):
            fn[x[len(t):]] = f
    mv = [f for x, f in fn.items() if re.fullmatch(r'::[^(:]+\(.*&&\)', x)]
    dt = [f for x, f in fn.items() if re.fullmatch(r'::~.*\(\)', x)]
    op = [f for x, f in fn.items() if x in ('::operator()()', '::operator()() const')]
    if len(mv) != 1 or len(dt) != 1 or len(op) != 1:
        raise Unsupported('what is handed to the pool')
    return mv[0], dt[0], op[0]


@model(r'Maike::Sched::ThreadPool::addTask')
def m_add(ex, st, a, n):
    c = ours(ex, Scan)
    if c is None:
        return NotImplemented
    if st.ghost['worker'] is not None:
        raise Unsupported('task added by a simulated task')
    ex.prove(st, same(ex, st, a[0], c.p_workers), 'the pool is the one of this scan')
    mv, dt, op = closure(ex, n)
    src, target = c.child(ex, st)
    ex.prove(st, st.ghost['cnt'] >= c.base_count + 1, 'a task that is added is counted, before the task that adds it counts as finished')
    out = []
    c2 = Ptr(Obj('closure', None))
    for s, o in ex.run_func(st, mv, [c2, a[1]]):
        if o[0] != 'ret':
            raise Unsupported('move throws')
        w = s.copy()
        w.ghost['worker'] = {'src': src, 'target': target, 'runs': 0}
        w.ghost['cnt'] = z3.IntVal(1)
        for s1, o1 in ex.run_func(w, op, [c2]):
            ex.prove(s1, s1.ghost['worker']['runs'] == 1, 'a task scans its path once')
            for s2, o2 in ex.run_func(s1, dt, [c2]):
                ex.prove(s2, o2[0] == 'ret', 'the end of a task does not throw')
                ex.prove(s2, s2.ghost['cnt'] == 0, 'every task is taken off the counter when it ends')
        s.ghost['cnt'] = s.ghost['cnt'] - 1
        s.ghost['added'] = s.ghost['added'] + 1
        out += ret(s, a[0]) + c.fail(ex, s.copy())
    return out


# ------------------------------------------------------------------------------------------------------------------- the filters
class Match(Contract):
    base = BASE + 'InputFilter::match'

    def entry(self, ex, f):
        st = State()
        self.f, self.s = Ptr(Obj('filter', None, fresh=False)), ex.fresh('text', SEQ)
        v = acc(ex, st, 'spec::compiled', [self.f])
        self.n, self.data = iv(vec_len(ex, st, v)), vec_data(ex, st, v)
        return st, [self.f, Ptr(models.CStr(self.s), 0, 1, 0)]

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'matching does not throw')
        ex.prove(st, ex.to_bool(o[1]) == z3.Exists([J], z3.And(J >= 0, J < self.n, MATCH(self.s, J))), 'a filter matches exactly when one of its patterns is found in the text')

    def apply(self, ex, st, a, n):
        c = ours(ex, Process)
        if c is None:
            return NotImplemented
        t = models.cstr_seq(ex, st, a[1])
        out = []
        for p, k in c.filters(st):
            if ex.ptr_eq(st, a[0], p) is True or ex.entails(st, same(ex, st, a[0], p)):
                return ret(st, c.MT(k)(t)) + c.fail(ex, st.copy())
        raise Unsupported('another filter')


@model(r'std::regex_search')
def m_search(ex, st, a, n):
    c = ours(ex, Match)
    if c is None:
        return NotImplemented
    ps = models.param_types(ex.mod.demangled(n))
    if len(ps) < 2 or 'char const*' not in ps[0] and not ps[0].startswith('std::__cxx11::basic_string') or 'basic_regex' not in ps[1].split('<')[0] or len(a) > 3:
        raise Unsupported('this overload of regex_search')
    if len(a) > 2:
        ex.prove(st, iv(a[2]) == 0, 'a pattern is searched without further conditions')
    s = models.cstr_seq(ex, st, a[0]) if 'char const*' in ps[0] else ex.gload(st, a[0], 'str')
    if isinstance(a[1], Ptr) and not isinstance(a[1].base, Obj) and iv(c.data).eq(iv(a[1].base)) and a[1].s:
        return ret(st, MATCH(s, iv(a[1].i)))
    raise Unsupported('a pattern that is not one of the filter')


@model(r'std::basic_regex::~?basic_regex')
def m_regex(ex, st, a, n):
    if ours(ex, Source) is None:
        return NotImplemented
    if '~' in ex.basename(n):
        return None
    ps = models.param_types(ex.mod.demangled(n))
    if len(a) == 3 and ('basic_string' in ps[0] or 'char const*' in ps[0]):
        ex.prove(st, iv(a[2]) == iv(ex.c_basic), 'a pattern is a basic regular expression')
        s2 = st.copy()
        ex.gstore(st, a[0], 'str', ex.gload(st, a[1], 'str') if 'basic_string' in ps[0] else models.cstr_seq(ex, st, a[1]))
        return ret(st) + throw(s2, '@_ZTISt11regex_error')
    if len(a) == 2 and 'basic_regex' in ps[0].split('<')[0]:
        ex.gstore(st, a[0], 'str', ex.gload(st, a[1], 'str'))
        return None
    raise Unsupported('this pattern')


@model(r'std::vector::(push_back|emplace_back)')
def m_patpush(ex, st, a, n):
    c = ours(ex, Source)
    if c is None or 'std::vector<std::__cxx11::basic_regex' not in ex.mod.demangled(n):
        return models.default(ex, st, a, n)
    g, l = st.ghost, iv(vec_len(ex, st, a[0]))
    ps = models.param_types(ex.mod.demangled(n))
    ex.prove(st, l == g['np'], 'patterns are appended to one list')
    out = []
    if len(a) == 2 and 'basic_regex' in ps[0].split('<')[0]:
        t = ex.gload(st, a[1], 'str')
    elif len(a) == 3 and ('basic_string' in ps[0] or 'char const*' in ps[0]) and 'syntax_option_type' in ps[1]:
        ex.prove(st, iv(ex.load(st, a[2], ir.I32)) == iv(ex.c_basic), 'a pattern is a basic regular expression')
        t = ex.gload(st, a[1], 'str') if 'basic_string' in ps[0] else models.cstr_seq(ex, st, ex.load(st, a[1], ir.PTR))
        out = throw(st.copy(), '@_ZTISt11regex_error')
    else:
        raise Unsupported('emplace_back')
    g['pats'] = z3.Store(g['pats'], l, t)
    g['np'] = l + 1
    ex.gstore(st, a[0], 'len', l + 1)
    if ex.basename(n).endswith('emplace_back'):
        return ret(st, Ptr(vec_data(ex, st, a[0]), 0, 32, l)) + out
    return ret(st) + out


@model(r'std::vector::operator=')
def m_assign(ex, st, a, n):
    if ours(ex, Source) is None:
        return NotImplemented
    l, d = vec_len(ex, st, a[1]), vec_data(ex, st, a[1])
    ex.gstore(st, a[0], 'len', l)
    if '&&' in models.param_types(ex.mod.demangled(n))[0]:
        ex.gstore(st, a[0], 'data', d)
        ex.gstore(st, a[1], 'len', 0)
        ex.gstore(st, a[1], 'data', ex.newref())
    else:
        raise Unsupported('copy of a list')
    return a[0]


class Source(Contract):
    """pattern k is built from text k, as a basic regular expression"""
    base = BASE + 'InputFilter::source'
    sig = r'source\(std::vector'
    top = False

    def entry(self, ex, f):
        st = State()
        self.f, self.v = Ptr(Obj('filter', None, fresh=False)), Ptr(Obj('texts', 24, fresh=False))
        self.n, self.data = iv(vec_len(ex, st, self.v)), vec_data(ex, st, self.v)
        self.start(ex, st)
        return st, [self.f, self.v]

    def start(self, ex, st):
        st.ghost.update(np=z3.IntVal(0), pats=z3.K(INT, z3.Empty(SEQ)), pdata=None)

    def text(self, ex, st, j):
        return ex.gload(st, Ptr(self.data, 0, 32, j), 'str')

    def loop(self, ex, s0):
        return SourceInv(self, s0)

    def done(self, ex, st, k):
        return z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < k), z3.Select(st.ghost['pats'], J) == self.text(ex, st, J)), patterns=[z3.Select(st.ghost['pats'], J)])

    def post(self, ex, st, o, a):
        if o[0] == 'exc':
            return ex.prove(st, o[1] == '@_ZTISt11regex_error', 'only a bad pattern is an error')
        fv, sv = acc(ex, st, 'spec::compiled', [self.f]), acc(ex, st, 'spec::sources', [self.f])
        ex.prove(st, iv(vec_len(ex, st, fv)) == self.n, 'there are as many patterns as texts')
        ex.prove(st, st.ghost['np'] == self.n, 'a pattern is built from each text')
        ex.prove(st, self.done(ex, st, self.n), 'pattern k is built from text k')
        ex.prove(st, z3.And(iv(vec_len(ex, st, sv)) == self.n, iv(vec_data(ex, st, sv)) == iv(self.data)), 'the texts are kept')
        ex.prove(st, same(ex, st, o[1], self.f), 'the filter is returned')


class SourceInv:
    def __init__(self, c, s0):
        self.c, self.s0, self.loc, self.len = c, s0, None, None

    def at(self, ex, st):
        v = ex.getloc(st, self.loc)
        return iv((v.i if v.s else 0) if isinstance(v, Ptr) else v)

    def assume(self, ex, st):
        for l in ex.locs(self.s0, st):
            v = ex.getloc(st, l)
            if self.loc is None and l[0] == 'cell' and isinstance(v, Ptr) and not isinstance(v.base, Obj) and iv(v.base).eq(iv(self.c.data)):
                self.loc = l
            v0 = ex.getloc(self.s0, l)
            if self.loc is None and l[0] == 'cell' and not isinstance(v, Ptr) and isz(v) and z3.is_int(v) and not isz(v0) and v0 == 0:
                self.loc = l
            if self.len is None and l[0] == 'ghostcell' and l[2] == (0, 'len'):
                self.len = l
        if self.loc is not None and self.len is not None:
            st.facts += self.formula(ex, st)

    def formula(self, ex, st):
        k = self.at(ex, st)
        return [k >= 0, k <= self.c.n, st.ghost['np'] == k, iv(ex.getloc(st, self.len)) == k, self.c.done(ex, st, k)]

    def check(self, ex, st, which, hdr=None):
        if self.loc is None or self.len is None:
            raise Unsupported('unknown loop')
        for k, g in enumerate(self.formula(ex, st)):
            ex.prove(st, g, 'loop invariant %d %s' % (k, which))


class What:
    def __init__(self, text):
        self.text = text

    def call(self, ex, st, a, n):
        return ret(st, Ptr(models.CStr(self.text), 0, 1, 0))


# --------------------------------------------------------------------------------------------------------------- the scan of one path
class Process(Scan, Contract):
    base = BASE + 'DirectoryScanner::processPath'
    sig = r'processPath\(std::filesystem::__cxx11::path&&'
    base_count = 1

    def MT(self, k):
        return z3.Function('MATCH.' + k, SEQ, B)

    def entry(self, ex, f):
        st = State()
        self.scanner(ex, st)
        self.s, self.t, self.l = Ptr(Obj('src', 40, fresh=False)), Ptr(Obj('target', 40, fresh=False)), Ptr(Obj('lock', 16))
        acc(ex, st, 'spec::lock_init', [self.l, self.p_counter])
        self.src, self.target = path(ex, st, self.s), path(ex, st, self.t)
        self.norm = N(ex, self.src)
        self.m0 = ex.fresh('has', z3.ArraySort(INT, B))
        self.nodes = {}
        st.ghost.update({'cnt': z3.IntVal(1), 'has': self.m0, 'nodes': (), 'loads': 0, 'mine': False, 'err': None, 'log': 0, 'dir': None, 'pos': z3.IntVal(0)})
        st.facts += [F_type(ex)(self.src) == F_type(ex)(self.norm)]
        rel = ex.fun('path.lexically_relative', SEQ, SEQ, SEQ)(self.src, self.root)
        name = ex.fun('path.filename', SEQ, SEQ)(self.src)
        self.skip = z3.And(K(ex, self.src) != K(ex, self.root),
                           z3.Or(z3.And(z3.Not(bv(self.rec)), isdir(ex, self.src)), self.MT('FILE')(name), self.MT('PATH')(rel)))
        return st, [self.d, self.s, self.t, self.l]

    def child(self, ex, st):
        g = st.ghost
        if g['dir'] is None:
            ex.prove(st, False, 'tasks are added only for the entries of a directory')
        ex.prove(st, bv(g['mine']), 'the entries of a directory are scanned by the task that recorded it')
        ex.prove(st, g['added'] < NENT(g['dir']), 'a task is added once for each entry')
        return ENT(g['dir'], g['added']), self.target

    def fail(self, ex, st, text=None):
        t = ex.fresh('what', SEQ) if text is None else text
        st.facts += [z3.Length(t) < 2 ** 40, t[z3.Length(t)] == 0]  # a C string: the byte past its text is zero
        vt, e = Obj('vtable', None), Obj('exception object', None)
        ex.store(st, Ptr(vt, 16), Ptr(What(t)), ir.PTR)
        ex.store(st, Ptr(e), Ptr(vt), ir.PTR)
        st.ghost['err'] = t
        return throw(st, '@_ZTISt9exception', Ptr(e))

    def loop(self, ex, s0):
        return EntryInv(self, s0)

    def post(self, ex, st, o, a):
        g = st.ghost
        ex.prove(st, o[0] == 'ret', 'a scan task does not throw')
        ex.prove(st, g['held'] is None and not g['elock'], 'all locks are released')
        owns = ex.to_bool(acc(ex, st, 'spec::lock_owns', [self.l]))
        ex.prove(st, g['cnt'] == z3.If(bv(owns), 1, 0), 'the task is still counted, or taken off the counter once')
        ex.prove(st, z3.And(path(ex, st, self.p_root) == self.root, bv(ex.to_bool(acc(ex, st, 'spec::recursive', [self.d]))) == bv(self.rec)), 'the scanner itself is not changed')
        isd = isdir(ex, self.norm)
        if g['err'] is not None:
            ex.prove(st, g['log'] == 1, 'an error is kept for the end of the scan')
            return
        ex.prove(st, g['log'] == 0, 'no error is reported without reason')
        ex.prove(st, z3.Implies(self.skip, z3.And(z3.Not(bv(g['mine'])), g['added'] == 0)), 'what is filtered out is not recorded and not entered')
        ex.prove(st, z3.Implies(z3.Not(self.skip), z3.Select(g['has'], K(ex, self.norm))), 'what is not filtered out is recorded under its normalised path')
        n = NENT(g['dir']) if g['dir'] is not None else z3.IntVal(-1)
        ex.prove(st, z3.Implies(z3.And(bv(g['mine']), isd), g['added'] == n), 'every entry of a recorded directory is scanned')
        ex.prove(st, z3.Implies(z3.Not(z3.And(bv(g['mine']), isd)), g['added'] == 0), 'only directories that were recorded are entered, once')

    def apply(self, ex, st, a, n):
        w = st.ghost.get('worker')
        c = ours(ex, Scan)
        if c is None or w is None:
            raise Unsupported('a scan that is not a task')
        ex.prove(st, same(ex, st, a[0], c.d), 'a task belongs to this scan')
        ex.prove(st, path(ex, st, a[1]) == w['src'], 'a task scans the path it was added for')
        ex.prove(st, path(ex, st, a[2]) == w['target'], 'a task gets the target directory')
        ex.prove(st, z3.And(bv(ex.to_bool(acc(ex, st, 'spec::lock_owns', [a[3]]))), st.ghost['cnt'] == 1), 'a task is counted while it runs')
        ex.prove(st, same(ex, st, acc(ex, st, 'spec::lock_mutex', [a[3]]), c.p_counter), 'a task is counted by the counter of this scan')
        st.ghost['worker'] = dict(w, runs=w['runs'] + 1)
        return ret(st) + throw(st.copy(), '?')


class EntryInv:
    """so many tasks were added as entries were passed"""

    def __init__(self, c, s0):
        self.c, self.s0 = c, s0

    def formula(self, ex, st):
        g = st.ghost
        if g['dir'] is None:
            raise Unsupported('loop over something else')
        return [g['pos'] >= 0, g['pos'] <= NENT(g['dir']), g['added'] == g['pos'], g['cnt'] == 1]

    def assume(self, ex, st):
        st.facts += self.formula(ex, st)

    def check(self, ex, st, which, hdr=None):
        for k, g in enumerate(self.formula(ex, st)):
            ex.prove(st, g, 'loop invariant %d %s' % (k, which))


# ------------------------------------------------------------------------------------------------------------------ directory entries
def live(ex, st, p):
    return iv(ex.load(st, p, ir.I64))


@model(r'fs::__cxx11::directory_iterator::~?directory_iterator')
def m_dirit(ex, st, a, n):
    c = ours(ex, Process)
    if c is None:
        return NotImplemented
    if '~' in ex.basename(n):
        return None
    ps = models.param_types(ex.mod.demangled(n))
    if not ps or ps == ['']:
        ex.store(st, a[0], 0, ir.I64)
        return None
    if 'directory_iterator' in ps[0]:
        ex.store(st, a[0], ex.load(st, a[1], ir.I64), ir.I64)
        return None
    if not ps[0].startswith('std::filesystem::__cxx11::path') or len(a) > 2 or st.ghost['dir'] is not None:
        raise Unsupported('this use of a directory')
    p = path(ex, st, a[1])
    ex.prove(st, N(ex, p) == N(ex, c.norm), 'the directory that is entered is the one scanned')
    ex.prove(st, isdir(ex, p), 'only directories are entered')
    s2 = st.copy()
    ex.store(st, a[0], 1, ir.I64)
    st.ghost['dir'] = p
    st.facts += [NENT(p) >= 0, NENT(p) < 2 ** 40]
    return ret(st) + c.fail(ex, s2)



def at_end(ex, st, p):
    g = st.ghost
    return z3.Or(live(ex, st, p) == 0, g['pos'] == NENT(g['dir'])) if g['dir'] is not None else live(ex, st, p) == 0


@model(r'fs::__cxx11::operator(==|!=)')
def m_direq(ex, st, a, n):
    if ours(ex, Process) is None or 'directory_iterator' not in models.param_types(ex.mod.demangled(n))[0]:
        return NotImplemented
    e = at_end(ex, st, a[0]) == at_end(ex, st, a[1])
    return e if '==' in ex.basename(n) else z3.Not(e)


@model(r'fs::__cxx11::directory_iterator::operator(\*|->|\+\+)')
def m_dirop(ex, st, a, n):
    c = ours(ex, Process)
    if c is None:
        return NotImplemented
    g = st.ghost
    ex.prove(st, z3.And(live(ex, st, a[0]) == 1, g['pos'] < NENT(g['dir'])), 'the entries are not left')
    if '++' not in ex.basename(n):
        e = Ptr(Obj('entry', None))
        ex.gstore(st, acc(ex, st, 'spec::entry_path', [e]), 'path', ENT(g['dir'], g['pos']))
        return e
    if len(a) > 1:
        raise Unsupported('postfix increment')
    s2 = st.copy()
    g['pos'] = g['pos'] + 1
    return ret(st, a[0]) + c.fail(ex, s2)


@model(r'fs::__cxx11::directory_entry::(is_directory|is_regular_file|is_symlink|exists)')
def m_entry(ex, st, a, n):
    c = ours(ex, Process)
    if c is None:
        return NotImplemented
    if len(a) != 1:
        raise Unsupported('query with an error code')
    p = path(ex, st, acc(ex, st, 'spec::entry_path', [a[0]]))
    t, u, op = F_type(ex)(p), models.ltype(ex, st, p), ex.basename(n).split('::')[-1]
    return {'is_directory': t == 2, 'is_regular_file': t == 1, 'is_symlink': u == 3, 'exists': z3.And(t != 0, t != 255)}[op]


# ------------------------------------------------------------------------------------------------------------------ what is recorded
@model(r'Maike::SourceTreeLoader::SourceFileLoaderDelegator::load')
def m_load(ex, st, a, n):
    c = ours(ex, Process)
    if c is None:
        return NotImplemented
    g = st.ghost
    ex.prove(st, same(ex, st, a[1], c.p_loaders), 'files are loaded by the loaders of this scan')
    ex.prove(st, z3.Not(c.skip), 'nothing that is filtered out is loaded')
    ex.prove(st, g['held'] is None, 'no lock is held while a file is loaded')
    ex.prove(st, z3.And(N(ex, path(ex, st, a[2])) == N(ex, c.src), path(ex, st, a[3]) == c.root, path(ex, st, a[4]) == c.target), 'the file that is loaded is the one scanned')
    s2 = st.copy()
    g['loads'] = g['loads'] + 1
    ex.store(st, a[0], 100 + g['loads'], ir.I64)
    return ret(st) + c.fail(ex, s2)


@model(r'Maike::Db::SourceFileInfo::~?SourceFileInfo')
def m_info(ex, st, a, n):
    if ours(ex, Process) is None:
        return NotImplemented
    if '~' in ex.basename(n):
        return None
    ps = models.param_types(ex.mod.demangled(n))
    if len(a) != 2 or 'SourceFileInfo' not in ps[0]:
        raise Unsupported('source file info')
    ex.store(st, a[0], ex.load(st, a[1], ir.I64), ir.I64)
    if '&&' in ps[0]:
        ex.store(st, a[1], 0, ir.I64)
    return None


@model(r'std::(shared_mutex|__shared_mutex_pthread|mutex)::(lock|lock_shared|unlock|unlock_shared)')
def m_lock(ex, st, a, n):
    c = ours(ex, Process)
    if c is None:
        return NotImplemented
    g, op = st.ghost, ex.basename(n).split('::')[-1]
    how = 'r' if op.endswith('shared') else 'w'
    if ex.ptr_eq(st, a[0], c.p_errlog_mtx) is True:
        ex.prove(st, g['elock'] is (op != 'lock'), 'the lock of the errors is taken and released in turn')
        g['elock'] = op == 'lock'
    elif ex.ptr_eq(st, a[0], c.p_files_mtx) is True:
        if op.startswith('lock'):
            ex.prove(st, g['held'] is None, 'the lock is not taken twice')
            h = ex.fresh('has', z3.ArraySort(INT, B))
            st.facts.append(z3.ForAll([J], z3.Implies(z3.Select(g['has'], J), z3.Select(h, J)), patterns=[z3.Select(h, J)]))
            g['has'], g['held'] = h, how
        else:
            ex.prove(st, g['held'] == how, 'the lock that is released is the one held')
            g['held'] = None
    else:
        raise Unsupported('another lock')
    return None


def held(ex, st, how='rw'):
    ex.prove(st, st.ghost['held'] is not None and st.ghost['held'] in how, 'the files are only touched under the lock' + ('' if how == 'rw' else ', and only changed under the exclusive lock'))


def is_map(ex, st, p, c):
    if ex.ptr_eq(st, p, c.p_files) is not True:
        raise Unsupported('another map')


def node(ex, st, key):
    nd = Ptr(Obj('node', None))
    ex.gstore(st, acc(ex, st, 'spec::node_key', [Ptr(nd.base, 32)]), 'path', key)
    return nd


def existing(ex, st, k):
    p = ex.fresh('key', SEQ)
    st.facts.append(K(ex, p) == k)
    return node(ex, st, p)


@model(r'std::map::(find|count|contains)')
def m_find(ex, st, a, n):
    c = ours(ex, Process)
    if c is None:
        return NotImplemented
    is_map(ex, st, a[0], c)
    held(ex, st)
    k = K(ex, path(ex, st, a[1]))
    if not ex.basename(n).endswith('find'):
        return z3.If(z3.Select(st.ghost['has'], k), z3.IntVal(1), z3.IntVal(0))
    out = []
    for s, b in fork(ex, st, z3.Select(st.ghost['has'], k)):
        out += ret(s, existing(ex, s, k) if b else Ptr(a[0].base, a[0].c + 8))
    return out


@model(r'std::map::(insert|emplace|try_emplace)')
def m_insert(ex, st, a, n):
    c = ours(ex, Process)
    if c is None:
        return NotImplemented
    if len(a) not in (2, 3):
        raise Unsupported('insert')
    is_map(ex, st, a[0], c)
    held(ex, st, 'w')
    if len(a) == 2:
        key, val = acc(ex, st, 'spec::in_key', [a[1]]), acc(ex, st, 'spec::in_value', [a[1]])
    else:
        key, val = a[1], a[2]
    key, g = path(ex, st, key), st.ghost
    k = K(ex, key)
    ex.prove(st, z3.And(z3.Not(c.skip), k == K(ex, c.norm)), 'only the file that is scanned is recorded, under its normalised path')
    ex.prove(st, g['cnt'] >= 1, 'files are recorded by tasks that are counted')
    ex.prove(st, z3.And(iv(ex.load(st, val, ir.I64)) == 100 + g['loads'], z3.BoolVal(g['loads'] >= 1)), 'what is recorded is what was loaded')
    out = []
    for s, b in fork(ex, st, z3.Select(g['has'], k)):
        nd = existing(ex, s, k) if b else node(ex, s, key)
        if not b:
            ex.prove(s, not s.ghost['mine'], 'a file is recorded once')
            s.ghost['mine'] = True
            s.ghost['has'] = z3.Store(s.ghost['has'], k, True)
        out += ret(s, Agg([nd, 0 if b else 1]))
    return out


@model(r'std::map::(operator\[\]|insert_or_assign|erase|clear|swap|merge|extract|operator=)')
def m_other(ex, st, a, n):
    if ours(ex, Process) is None:
        return NotImplemented
    raise Unsupported('this use of the map')


@model(r'std::forward_list::(push_front|emplace_front)')
def m_log(ex, st, a, n):
    c = ours(ex, Process)
    if c is None:
        return NotImplemented
    g = st.ghost
    if ex.ptr_eq(st, a[0], c.p_errlog) is not True:
        raise Unsupported('another list')
    ex.prove(st, g['elock'], 'errors are recorded under their lock')
    ex.prove(st, g['cnt'] >= 1, 'errors are recorded by tasks that are counted')
    t = g['err']
    if t is None:
        ex.prove(st, False, 'no error is recorded without reason')
        return None
    p = ex.load(st, a[1], ir.PTR)
    rd = ex.byte_reader(st, p)
    j = ex.fresh('at', INT)
    ex.prove(st, z3.Implies(z3.And(j >= 0, j < z3.Length(t), t[j] != 0), iv(rd(j)) == t[j]), 'the text of the error is kept')
    ex.prove(st, iv(rd(z3.Length(t))) == 0, 'the text of the error ends')
    g['log'] = g['log'] + 1
    return ret(st)


# ------------------------------------------------------------------------------------------------------------------- start and end
class Start(Scan, Contract):
    base = BASE + 'DirectoryScanner::processPath'
    sig = r'processPath\(std::filesystem::__cxx11::path const&'
    base_count = 0

    def entry(self, ex, f):
        st = State()
        self.scanner(ex, st)
        self.s, self.t = Ptr(Obj('src', 40, fresh=False)), Ptr(Obj('target', 40, fresh=False))
        self.src, self.target = path(ex, st, self.s), path(ex, st, self.t)
        return st, [self.d, self.s, self.t]

    def fail(self, ex, st):
        return []

    def child(self, ex, st):
        ex.prove(st, path(ex, st, self.p_root) == N(ex, self.src), 'the root is known, normalised, before the scan starts')
        ex.prove(st, st.ghost['added'] == 0, 'the scan is started once')
        return N(ex, self.src), self.target

    def post(self, ex, st, o, a):
        ex.prove(st, z3.And(z3.BoolVal(o[0] == 'ret'), st.ghost['added'] == 1), 'one task is added, for the root')
        ex.prove(st, st.ghost['cnt'] == 0, 'starting the scan is not counted itself')
        ex.prove(st, path(ex, st, self.p_root) == N(ex, self.src), 'the root is kept normalised')
        ex.prove(st, bv(ex.to_bool(acc(ex, st, 'spec::recursive', [self.d]))) == bv(self.rec), 'the scanner is not changed otherwise')
        ex.prove(st, same(ex, st, o[1], self.d), 'the scanner is returned')


class Errors(Contract):
    """the text of the error: every message that was kept, each on a line of its own"""
    base = BASE + 'DirectoryScanner::ScanException::ScanException'
    sig = r'forward_list'
    top = False

    def entry(self, ex, f):
        st = State()
        self.e, self.l = Ptr(Obj('exception', 64)), Ptr(Obj('errors', None, fresh=False))
        self.ref, self.n = ex.fresh('messages', INT), ex.fresh('n', INT)
        st.facts += [self.ref >= 1, self.n >= 0, self.n < 2 ** 40, CAT(z3.IntVal(0)) == z3.Empty(SEQ)]
        return st, [self.e, self.l]

    def text(self, ex, st, i):
        return ex.fun('cstr.at0', INT, SEQ)(iv(ex.load(st, Ptr(self.ref, 8, 16, i), ir.PTR).base))

    def loop(self, ex, s0):
        return ErrorsInv(self, s0)

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'reporting the errors does not fail')
        ex.prove(st, ex.gload(st, acc(ex, st, 'spec::errors', [self.e]), 'str') == CAT(self.n), 'every error that was kept is reported')

    def apply(self, ex, st, a, n):
        c = ours(ex, Take)
        if c is None:
            return NotImplemented
        ex.prove(st, same(ex, st, a[1], c.p_errlog), 'the errors reported are those of the scan')
        st.ghost['reported'] = a[0].base
        return ret(st)


class ErrorsInv:
    def __init__(self, c, s0):
        self.c, self.s0, self.loc, self.str = c, s0, None, None

    def assume(self, ex, st):
        for l in ex.locs(self.s0, st):
            v = ex.getloc(st, l)
            if l[0] == 'cell' and isinstance(v, Ptr) and not isinstance(v.base, Obj) and iv(v.base).eq(iv(self.c.ref)):
                self.loc = self.loc or l
            if l[0] == 'ghostcell' and l[2][1] == 'str' and l[1] is self.c.e.base:
                self.str = l
        if self.loc is not None:
            st.facts += self.formula(ex, st)
            k = self.at(ex, st)
            st.facts.append(CAT(k + 1) == z3.Concat(CAT(k), self.c.text(ex, st, k), z3.Unit(z3.IntVal(10))))

    def at(self, ex, st):
        v = ex.getloc(st, self.loc)
        return iv(v.i if v.s else 0)

    def formula(self, ex, st):
        k = self.at(ex, st)
        return [k >= 0, k <= self.c.n, ex.gload(st, acc(ex, st, 'spec::errors', [self.c.e]), 'str') == CAT(k)]

    def check(self, ex, st, which, hdr=None):
        if self.loc is None:
            raise Unsupported('unknown loop')
        for k, g in enumerate(self.formula(ex, st)):
            ex.prove(st, g, 'loop invariant %d %s' % (k, which))


@model(r'std::forward_list::(begin|end|cbegin|cend|empty|~forward_list)')
def m_flist(ex, st, a, n):
    op = ex.basename(n).split('::')[-1]
    c = ours(ex, Errors)
    if c is not None:
        if '~' in op:
            return None
        if ex.ptr_eq(st, a[0], c.l) is not True:
            raise Unsupported('another list')
        return c.n == 0 if op == 'empty' else Ptr(c.ref, 0, 16, c.n if 'end' in op else 0)
    c = ours(ex, Take)
    if c is None:
        return NotImplemented
    if op != 'empty':
        raise Unsupported('this use of the errors')
    ex.prove(st, st.ghost['waited'], 'the errors are looked at when all tasks have finished')
    ex.prove(st, same(ex, st, a[0], c.p_errlog), 'the errors are those of the scan')
    return c.nerr == 0


@model(r'std::_Fwd_list_(const_)?iterator::operator\+\+')
def m_finc(ex, st, a, n):
    if ours(ex, Errors) is None:
        return NotImplemented
    p = ex.load(st, a[0], ir.PTR)
    if len(a) != 1 or not p.s:
        raise Unsupported('iterator')
    ex.store(st, a[0], Ptr(p.base, p.c, p.s, iv(p.i) + 1), ir.PTR)
    return a[0]


class Text(Contract):
    base = BASE + 'DirectoryScanner::ScanException::what'

    def entry(self, ex, f):
        st = State()
        self.e = Ptr(Obj('exception', None, fresh=False))
        self.s = ex.gload(st, acc(ex, st, 'spec::errors', [self.e]), 'str')
        return st, [self.e]

    def post(self, ex, st, o, a):
        ex.prove(st, models.cstr_seq(ex, st, o[1]) == self.s, 'the error that is given to the caller is the text kept')


class Take(Scan, Contract):
    base = 'spec::take'

    def entry(self, ex, f):
        st = State()
        self.scanner(ex, st)
        self.out = Ptr(Obj('result', 64))
        self.nerr = ex.fresh('nerr', INT)
        st.facts.append(self.nerr >= 0)
        st.ghost.update(waited=False, where=self.p_files, reported=None)
        return st, [self.d, self.out]

    def post(self, ex, st, o, a):
        g = st.ghost
        ex.prove(st, g['waited'], 'the result is taken when all tasks have finished')
        if o[0] == 'exc':
            ex.prove(st, self.nerr > 0, 'a scan fails only if there were errors')
            ex.prove(st, isinstance(o[2], Ptr) and g['reported'] is o[2].base, 'a scan fails with the errors that were kept')
            return
        ex.prove(st, self.nerr == 0, 'an error makes the scan fail')
        ex.prove(st, same(ex, st, g['where'], self.out), 'the files found are returned')


@model(r'Maike::Sched::SignalingCounter::wait')
def m_wait(ex, st, a, n):
    c = ours(ex, Take)
    if c is None:
        return NotImplemented
    ex.prove(st, z3.And(same(ex, st, a[0], c.p_counter), iv(a[1]) == 0), 'taking the result waits for all tasks of the scan')
    st.ghost['waited'] = True
    return None


@model(r'std::map::(map|~map)')
def m_mapmove(ex, st, a, n):
    c = ours(ex, Take)
    if c is None:
        return NotImplemented
    if '~' in ex.basename(n):
        return None
    ps = models.param_types(ex.mod.demangled(n))
    if len(a) != 2 or not ps[0].startswith('std::map<') or not ps[0].endswith(('&&', 'const&')):
        raise Unsupported('the list of files')
    ex.prove(st, st.ghost['waited'], 'the files are taken when all tasks have finished')
    if ex.ptr_eq(st, a[1], st.ghost['where']) is not True and not (ps[0].endswith('&') and ex.ptr_eq(st, a[1], c.p_files) is True):
        raise Unsupported('another list of files')
    st.ghost['where'] = a[0]
    return None


def inv(ex, s0, r0, f, h):
    return ex.verifying.loop(ex, s0) if hasattr(ex.verifying, 'loop') else None


def run(S):
    mod = S.module([DRV], extra=['-fno-access-control'])
    ex = S.exec(mod, [], {'invariant': inv}, models_extra=MODELS)
    S.use(ex, [Match(), Process()])
    S.check(ex, Process())
    S.check(ex, Start())
    S.check(S.exec(mod, [], {}, models_extra=MODELS), Match())
    sx = S.exec(mod, [], {'invariant': inv}, models_extra=MODELS)
    sx.c_basic = acc(sx, State(), 'spec::basic', [])
    S.check(sx, Source())
    ax = S.exec(mod, [], {'invariant': inv}, models_extra=MODELS)
    S.use(ax, [Errors()])
    S.check(ax, Take())
    S.check(S.exec(mod, [], {'invariant': inv}, models_extra=MODELS), Errors())
    S.check(S.exec(mod, [], {}, models_extra=MODELS), Text())
