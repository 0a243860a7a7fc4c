"""C06: the dependencies of a C++ file are its include directives.

A reference automaton (lexref.py) reads the text byte by byte as the code takes it. Whenever it completes an include directive, the code
owes exactly one dependency with that path and the right origin, to be appended before the next byte is taken; otherwise nothing may be
appended."""
from spec import *
import models
from models import ret, throw, vec_len, vec_data
import autoloop
import lexref

HERE = os.path.dirname(__file__)
DRV = os.path.join(HERE, 'C06.drv.cpp')
SRC = ['core/source_file_info_loaders/cxx/source_file_loader.cpp']
ASSUMPTIONS = [
    "InputBuffer::getchar delivers the next byte, or -1 only when the source has reported its end (proved in C08)",
    "std::regex_search of a pattern in a path is a function of the two",
    "an element appended to the vector of dependencies stays as it was appended",
    "the reference automaton (spec/lexref.py) states what an include directive is; it leaves out the texts that are outside the domain",
]
MATCH = z3.Function('MATCH', SEQ, INT, z3.BoolSort())
J = z3.Int('j')
MODELS = []


def model(rx):
    def deco(fn):
        MODELS.append((re.compile(rx), fn))
        return fn
    return deco


def gen(path, n):
    return z3.Exists([J], z3.And(J >= 0, J < n, MATCH(path, J)))


def ready(ex, st):
    return [(st.ghost['owed'] == '', 'a completed include directive is reported before the scan goes on')]


def taken(ex, st, b, ev):
    if ev in ('system', 'quoted'):
        st.ghost['owed'] = ev


@model(r'std::vector::(push_back|emplace_back)')
def m_push(ex, st, a, n):
    if 'q' not in st.ghost or not re.search(r'std::vector<Maike::Db::Dependency\b', ex.mod.demangled(n)):
        return NotImplemented
    C = ex.verifying
    if not ex.ptr_eq(st, a[0], C.out) is True:
        raise Unsupported('another list of dependencies')
    if len(a) > 2:
        raise Unsupported('emplace_back')
    name = ex.gload(st, acc(ex, st, 'spec::dep_name', [a[1]]), 'path')
    org = iv(acc(ex, st, 'spec::dep_origin', [a[1]]))
    g = st.ghost
    if g['owed'] == 'system':
        what = (org == C.system, 'an angle-bracketed path is a system dependency')
    else:
        what = (org == z3.If(C.GEN(g['g_path']), iv(C.generated), iv(C.project)), 'a quoted path is a project dependency, or generated when a pattern matches')
    if not lexref.holds(ex, st, [(g['owed'] != '', 'only include directives are reported, each once'), (name == g['g_path'], 'the path is taken verbatim'), what,
                                 (iv(acc(ex, st, 'spec::dep_props', [a[1]])) == 0, 'a dependency has no properties')]):
        return [(st, ('stop',))]
    g['owed'] = ''
    g['count'] = g['count'] + 1
    ex.gstore(st, a[0], 'len', iv(vec_len(ex, st, a[0])) + 1)
    return ret(st)


@model(r'std::regex_search')
def m_search(ex, st, a, n):
    C = ex.verifying
    ps = models.param_types(ex.mod.demangled(n))
    rx = [p for p, t in zip(a, ps) if 'std::__cxx11::basic_regex' in t.split('<')[0]]
    if len(rx) != 1 or not ('char const*' in ps[0] or ps[0].startswith('std::__cxx11::basic_string')) or not ('basic_regex' in ps[1]):
        raise Unsupported('this overload of regex_search')
    s = models.cstr_seq(ex, st, a[0]) if 'char const*' in ps[0] else ex.gload(st, a[0], 'str')
    r = rx[0]
    if iv(C.data).eq(iv(r.base)) and r.s:
        return ret(st, MATCH(s, iv(r.i)))
    raise Unsupported('a pattern that is not a configured one')


class Origin(Contract):
    base = '{anon}::get_origin'
    top = False

    def entry(self, ex, f):
        st = State()
        self.v, self.p = Ptr(Obj('patterns', None, fresh=False)), Ptr(Obj('path', None, fresh=False))
        self.setup(ex, st)
        return st, [self.v, self.p]

    def setup(self, ex, st):
        self.n, self.data = iv(vec_len(ex, st, self.v)), vec_data(ex, st, self.v)
        for k in ('project', 'system', 'generated'):
            setattr(self, k, acc(ex, st, 'spec::' + k, []))

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'get_origin does not throw')
        path = ex.gload(st, self.p, 'path')
        ex.prove(st, iv(o[1]) == z3.If(gen(path, self.n), iv(self.generated), iv(self.project)), 'generated exactly when a configured pattern matches')

    def apply(self, ex, st, a, n):
        C = ex.verifying
        if not isinstance(C, Deps) or not ex.ptr_eq(st, a[0], C.v) is True:
            raise Unsupported('other patterns')
        path = ex.gload(st, a[1], 'path')
        return ret(st, z3.If(C.GEN(path), iv(C.generated), iv(C.project)))


class Deps(Contract):
    base = 'Cxx::SourceFileLoader::getDependencies'

    def entry(self, ex, f):
        st = State()
        lexref.start(ex, st)
        st.ghost.update(owed='', count=z3.IntVal(0))
        self.out = Ptr(Obj('deps', 24))
        self.self_ = Ptr(Obj('loader', None, fresh=False))
        self.v = acc(ex, st, 'spec::patterns', [self.self_])
        Origin.setup(self, ex, st)
        self.GEN = lambda p: gen(p, self.n)
        return st, [self.out, self.self_, Ptr(Obj('reader', None, fresh=False))]

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'getDependencies does not throw')
        if o[0] != 'ret':
            return
        g = st.ghost
        ex.prove(st, g['q'] == 'eof', 'the text is read to its end')
        ex.prove(st, g['owed'] == '', 'the last include directive is reported')
        ex.prove(st, iv(vec_len(ex, st, self.out)) == g['count'], 'what was reported is what is returned')


def more(ex, st, l):
    if l[0] == 'ghostcell' and l[1] is ex.verifying.out.base and l[2] == (0, 'len'):
        return st.ghost['count']


def run(S):
    mod = S.module([DRV] + SRC, extra=['-fno-access-control'])
    steps = lexref.Steps()
    ex = S.exec(mod, [], {'steps': steps}, models_extra=[(re.compile(r'Maike::Io::InputBuffer::getchar'), lexref.getchar(lexref.Ref(), ready, taken))] + MODELS)
    ex.loop_hook = autoloop.AutoLoop(lexref.relations(more), lexref.active, ('pos', 'last', 'step', 'count'), lexref.refine, steps.add)
    S.use(ex, [Origin()])
    S.check(ex, Deps())
    S.check(S.exec(mod, [], {}, models_extra=MODELS), Origin())
    if S.failed() or S.problems:
        S.witnesses += steps.witnesses()
