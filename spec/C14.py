"""C14: a logged command line runs the same command when given to a shell.

mode, nw, len, ch are the result of reading a text with the POSIX shell's tokeniser (the part of it without expansions: any character
that could start one is an error outside quotes), defined by one step per character.  mode 0: between words, 1: inside single quotes,
2: inside a word, 3: after a backslash, 9: something else than plain words; nw words were started, word w is ch(w, 0..len(w)-1)."""
from spec import *
from models import ret

DRV = os.path.join(os.path.dirname(__file__), 'C14.drv.cpp')
SRC = ['core/exec/command.cpp']
ASSUMPTIONS = ['std::string and fs::path::string are sequences of characters', 'the shell tokenises as POSIX 2.2, 2.3 says (single quotes, backslash, blanks); the harness compares with /bin/sh']
mode = z3.Function('sh.mode', SEQ, INT)
nw = z3.Function('sh.nw', SEQ, INT)
ln = z3.Function('sh.len', SEQ, INT, INT)
ch = z3.Function('sh.ch', SEQ, INT, INT, INT)
w, j = z3.Int('w'), z3.Int('j')


def FA(vs, body, patterns):
    try:
        return z3.ForAll(vs, body, patterns=patterns)
    except z3.Z3Exception:
        return z3.ForAll(vs, body)


def safe(c):
    r = [z3.And(c >= a, c <= b) for a, b in ((48, 57), (65, 90), (97, 122))]
    return z3.Or(r + [c == ord(x) for x in '_@%+:,./-'])


def step(v, c, r):
    """r = v followed by the character c"""
    m, n = mode(v), nw(v)
    start = z3.And(m == 0, c != 32)
    m0 = z3.If(m == 0, z3.If(c == 32, 0, z3.If(c == 39, 1, z3.If(c == 92, 3, z3.If(safe(c), 2, 9)))),
               z3.If(m == 1, z3.If(c == 39, 2, 1),
                     z3.If(m == 2, z3.If(c == 32, 0, z3.If(c == 39, 1, z3.If(c == 92, 3, z3.If(safe(c), 2, 9)))),
                           z3.If(z3.And(m == 3, c != 10), 2, 9))))
    put = z3.Or(z3.And(m == 0, safe(c)), z3.And(m == 1, c != 39), z3.And(m == 2, safe(c)), m == 3)
    n2 = n + z3.If(start, 1, 0)
    cur = n2 - 1
    return [mode(r) == m0, nw(r) == n2,
            FA([w], ln(r, w) == ln(v, w) + z3.If(z3.And(put, w == cur), 1, 0), patterns=[ln(r, w)]),
            FA([w, j], ch(r, w, j) == z3.If(z3.And(put, w == cur, j == ln(v, w)), c, ch(v, w, j)), patterns=[ch(r, w, j)])]


def join(v, b, r):
    """r = v followed by b; known only between words"""
    g = mode(v) == 0
    return [z3.Implies(g, z3.And(mode(r) == mode(b), nw(r) == nw(v) + nw(b))),
            FA([w], z3.Implies(z3.And(g, w >= 0), ln(r, w) == z3.If(w < nw(v), ln(v, w), ln(b, w - nw(v)))), patterns=[ln(r, w)]),
            FA([w, j], z3.Implies(z3.And(g, w >= 0), ch(r, w, j) == z3.If(w < nw(v), ch(v, w, j), ch(b, w - nw(v), j))), patterns=[ch(r, w, j)])]


EMPTY = z3.Empty(SEQ)
INIT = [mode(EMPTY) == 0, nw(EMPTY) == 0, FA([w], ln(EMPTY, w) == 0, patterns=[ln(EMPTY, w)])]


def atoms(v):
    if z3.is_app_of(v, z3.Z3_OP_SEQ_CONCAT):
        r = []
        for c in v.children():
            r += atoms(c)
        return r
    return [v]


def unit(a):
    """the character of a sequence of length one, or None"""
    if z3.is_app_of(a, z3.Z3_OP_SEQ_UNIT):
        return a.arg(0)
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        x, y = unit(a.arg(1)), unit(a.arg(2))
        if x is not None and y is not None:
            return z3.If(a.arg(0), x, y)
    return None


def on_string(ex, st, v):
    """the text v is given a name t; only what the tokeniser makes of it is kept"""
    as_ = atoms(v)
    if len(as_) == 0 or len(as_) == 1 and unit(as_[0]) is None:
        return None
    defs = ex.__dict__.setdefault('shdefs', {})

    def expand(a):
        return [y for x in defs[a.decl().name()] for y in expand(x)] if z3.is_const(a) and a.decl().name() in defs else [a]
    first = as_[0]
    as_ = as_[:1] + [y for x in as_[1:] for y in expand(x)]
    full = list(as_)
    p = EMPTY
    if unit(first) is None:
        p = as_.pop(0)
    for a in as_:
        t = ex.fresh('text', SEQ)
        st.facts += step(p, unit(a), t) if unit(a) is not None else join(p, a, t)
        p = t
    defs[p.decl().name()] = full
    return p


def is_word(r, n, k, s):
    """word k of the text r is the sequence s"""
    return [ln(r, k) == z3.Length(s), FA([j], z3.Implies(z3.And(j >= 0, j < z3.Length(s)), ch(r, k, j) == s[j]), patterns=[ch(r, k, j)])]


def position(ex, s0, st, pick):
    """how far the loop got: the pointer into the traversed object, or the counter"""
    ps, ns = [], []
    for loc in ex.locs(s0, st):
        if loc[0] != 'cell':
            continue
        v = ex.getloc(st, loc)
        if isinstance(v, Ptr) and pick(v):
            ps.append(loc)
        elif (isinstance(v, int) or isz(v) and z3.is_int(v)) and not isz(ex.getloc(s0, loc)) and ex.getloc(s0, loc) == 0:
            ns.append(loc)
    return (ps or ns or [None])[0]


class LoopInv:
    def __init__(self, s0, out, pick, formula):
        self.s0, self.out, self.pick, self.formula, self.loc = s0, out, pick, formula, None

    def pos(self, ex, st):
        v = ex.getloc(st, self.loc)
        if isinstance(v, Ptr):
            return iv(v.i if v.s else 0)
        return iv(v)

    def assume(self, ex, st):
        loc = position(ex, self.s0, st, self.pick)
        if loc is None:
            return
        self.loc = loc
        st.facts += self.formula(ex, st, self.pos(ex, st))

    def check(self, ex, st, which, hdr=None):
        if self.loc is None:
            raise Unsupported('loop without a position')
        for k, g in enumerate(self.formula(ex, st, self.pos(ex, st))):
            ex.prove(st, g, 'loop invariant %d %s' % (k, which))


class Escape(Contract):
    base = '{anon}::shell_escape'

    def entry(self, ex, f):
        st = State()
        self.out = Ptr(Obj('out', 32))
        self.s = ex.fresh('str', SEQ)
        p = Ptr(Obj('in', 32, fresh=False))
        ex.gstore(st, p, 'str', self.s)
        st.facts += INIT + [FA([j], z3.And(self.s[j] >= 0, self.s[j] <= 255), patterns=[self.s[j]])]
        return st, [self.out, p]

    def loop(self, ex, s0):
        def formula(ex, st, p):
            r = ex.gload(st, self.out, 'str')
            return [z3.And(mode(r) == 1, nw(r) == 1, ln(r, 0) == p, p >= 0, p <= z3.Length(self.s)),
                    FA([j], z3.Implies(z3.And(j >= 0, j < p), ch(r, 0, j) == self.s[j]), patterns=[ch(r, 0, j)])]
        return LoopInv(s0, self.out, lambda v: isinstance(v.base, CStr) and v.base.seq.eq(self.s), formula)

    def post(self, ex, st, o, args):
        ex.prove(st, o[0] == 'ret', 'shell_escape does not throw')
        r = ex.gload(st, self.out, 'str')
        ex.prove(st, z3.And(mode(r) == 2, nw(r) == 1), 'shell_escape: a single word, with all quotes closed')
        for g in is_word(r, 1, 0, self.s):
            ex.prove(st, g, 'shell_escape: the word is the text given')

    def apply(self, ex, st, args, name):
        s = ex.gload(st, args[1], 'str')
        q = ex.fresh('quoted', SEQ)
        st.facts += [mode(q) == 2, nw(q) == 1] + is_word(q, 1, 0, s)
        ex.gstore(st, args[0], 'str', q)
        return ret(st)


class ToString(Contract):
    base = 'Maike::Exec::toString'
    sig = r'Command'

    def entry(self, ex, f):
        st = State()
        self.out = Ptr(Obj('out', 32))
        self.c = Ptr(Obj('cmd', None, fresh=False))
        self.exe = ex.gload(st, acc(ex, st, 'spec::cmd_exe', [self.c]), 'path')
        v = acc(ex, st, 'spec::cmd_args', [self.c])
        import models
        self.n, self.d = iv(models.vec_len(ex, st, v)), models.vec_data(ex, st, v)
        st.facts += INIT
        return st, [self.out, self.c]

    def arg(self, ex, st, k):
        return z3.Select(z3.Select(ex.heap_arr(st, (32, 0, 'str')), iv(self.d)), k)

    def words(self, ex, st, r, p):
        k = z3.Int('k')
        return [ln(r, 0) == z3.Length(self.exe),
                FA([j], z3.Implies(z3.And(j >= 0, j < z3.Length(self.exe)), ch(r, 0, j) == self.exe[j]), patterns=[ch(r, 0, j)]),
                FA([k], z3.Implies(z3.And(k >= 1, k <= p), ln(r, k) == z3.Length(self.arg(ex, st, k - 1))), patterns=[ln(r, k)]),
                FA([k, j], z3.Implies(z3.And(k >= 1, k <= p, j >= 0, j < z3.Length(self.arg(ex, st, k - 1))), ch(r, k, j) == self.arg(ex, st, k - 1)[j]), patterns=[ch(r, k, j)])]

    def loop(self, ex, s0):
        def formula(ex, st, p):
            r = ex.gload(st, self.out, 'str')
            return [z3.And(mode(r) == 2, nw(r) == p + 1, p >= 0, p <= self.n)] + self.words(ex, st, r, p)
        return LoopInv(s0, self.out, lambda v: isz(v.base) and v.base.eq(iv(self.d)), formula)

    def post(self, ex, st, o, args):
        ex.prove(st, o[0] == 'ret', 'toString does not throw')
        r = ex.gload(st, self.out, 'str')
        ex.prove(st, z3.And(mode(r) == 2, nw(r) == self.n + 1), 'toString: as many words as the command has, with all quotes closed')
        for g in self.words(ex, st, r, self.n):
            ex.prove(st, g, 'toString: the words are the executable and the arguments, in order')


def run(S):
    mod = S.module([DRV] + SRC, extra=['-fno-access-control'])
    esc = Escape()
    for c in (esc, ToString()):
        ex = S.exec(mod, [esc], {'on_string': on_string, 'invariant': lambda ex, s0, r0, f, h: ex.verifying.loop(ex, s0)})
        S.check(ex, c)
