"""C18: the loader with the longest matching file name extension is used."""
from spec import *
from models import ret

DRV = os.path.join(os.path.dirname(__file__), 'C18.drv.cpp')
ASSUMPTIONS = ['std::filesystem::path::extension and stem are functions of the path; the stem of a path with an extension is shorter than the path',
               'the dictionary type of the driver (find by text, end) stands for std::map with a transparent comparison']
MODELS = []
full = z3.Function('full', SEQ, SEQ)                # the full extension of a file name
conf = z3.Function('configured', SEQ, INT)          # position of an extension in the dictionary, 0: not there
EMPTY = z3.Empty(SEQ)


def ext(ex, p):
    return ex.fun('path.extension', SEQ, SEQ)(p)


def stem(ex, p):
    return ex.fun('path.stem', SEQ, SEQ)(p)


def unfold(ex, p):
    e, s = ext(ex, p), stem(ex, p)
    return z3.And(full(p) == z3.If(e == EMPTY, EMPTY, z3.Concat(full(s), e)), z3.Implies(e != EMPTY, z3.Length(s) < z3.Length(p)))


class Full(Contract):
    base = 'Maike::getFullExtension'

    def entry(self, ex, f):
        st = State()
        self.out, p = Ptr(Obj('out', 32)), Ptr(Obj('name', 40, fresh=False))
        self.p = ex.gload(st, p, 'path')
        return st, [self.out, p]

    def loop(self, ex, s0):
        return FullInv(self, s0)

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'taking the extension does not throw')
        ex.prove(st, ex.gload(st, self.out, 'str') == full(self.p), 'the full extension is all extensions of the name, in order')

    def apply(self, ex, st, a, name):
        ex.gstore(st, a[0], 'str', full(ex.gload(st, a[1], 'path')))
        return ret(st)


class FullInv:
    """what is left of the name, and what was taken from it, make up its full extension"""

    def __init__(self, c, s0):
        self.c, self.s0, self.loc, self.m = c, s0, None, None

    def formula(self, ex, st):
        return z3.Concat(full(ex.getloc(st, self.loc)), ex.gload(st, self.c.out, 'str')) == full(self.c.p)

    def assume(self, ex, st):
        ls = [l for l in ex.locs(self.s0, st) if isz(ex.getloc(self.s0, l)) and ex.getloc(self.s0, l).eq(self.c.p)]
        if len(ls) != 1:
            return
        self.loc = ls[0]
        p = ex.getloc(st, self.loc)
        st.facts += [self.formula(ex, st), unfold(ex, p)]
        self.m = z3.Length(p)

    def check(self, ex, st, which, hdr=None):
        if self.loc is None:
            raise Unsupported('loop over the extensions')
        ex.prove(st, self.formula(ex, st), 'loop invariant ' + which)
        if self.m is not None and which != 'init':
            ex.prove(st, z3.Length(ex.getloc(st, self.loc)) < self.m, 'the loop over the extensions ends')


def suffix(e, k):
    return z3.SubSeq(e, k, z3.Length(e) - k)


class Match(Contract):
    base = 'spec::match'

    def entry(self, ex, f):
        st = State()
        p = Ptr(Obj('name', 40, fresh=False))
        self.e = full(ex.gload(st, p, 'path'))
        return st, [p, Ptr(Obj('dict', 1, fresh=False))]

    def hit(self, j):
        return z3.And(self.e[j] == 46, conf(suffix(self.e, j)) != 0)

    def none(self, n):
        j = z3.Int('j')
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(self.hit(j))))

    def loop(self, ex, s0):
        return MatchInv(self, s0)

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'matching does not throw')
        r = iv(o[1])
        ex.prove(st, z3.Implies(r == 0, self.none(z3.Length(self.e))), 'none is chosen only if no suffix is configured')
        k = self.pos
        ex.prove(st, z3.Implies(r != 0, z3.And(k >= 0, k < z3.Length(self.e), self.hit(k), r == conf(suffix(self.e, k)), self.none(k))), 'the chosen entry is the one of the longest configured suffix')


class MatchInv:
    def __init__(self, c, s0):
        self.c, self.s0, self.loc, self.cnt = c, s0, None, []

    def pos(self, ex, st):
        v = ex.getloc(st, self.loc)
        return iv(v.i if v.s else v.c) if isinstance(v, Ptr) else iv(v)

    def formula(self, ex, st):
        p, n = self.pos(ex, st), z3.Length(self.c.e)
        return [z3.And(p >= 0, p <= n), self.c.none(p)] + [iv(ex.getloc(st, l)) == n - p for l in self.cnt]

    def assume(self, ex, st):
        ls = ex.locs(self.s0, st)
        ps = [l for l in ls if isinstance(ex.getloc(st, l), Ptr) and isinstance(ex.getloc(st, l).base, CStr)]
        if len(ps) != 1:
            return
        self.loc = ps[0]
        s = z3.Solver()
        s.set('timeout', 2000)
        for l in ls:
            v = ex.getloc(self.s0, l)
            if l != self.loc and isz(v) and z3.is_int(v) and s.check(*self.s0.facts, *self.s0.pc, v != z3.Length(self.c.e)) == z3.unsat:
                self.cnt.append(l)
        st.facts += self.formula(ex, st)
        self.c.pos = self.pos(ex, st)

    def check(self, ex, st, which, hdr=None):
        if self.loc is None:
            raise Unsupported('loop over the suffixes')
        for g in self.formula(ex, st):
            ex.prove(st, g, 'loop invariant ' + which)


def m_find(ex, st, a, n):
    ptr = [x for x in a[1:] if isinstance(x, Ptr)][0]
    ln = [x for x in a[1:] if not isinstance(x, Ptr)][0]
    b = ptr.base
    if not isinstance(b, CStr):
        raise Unsupported('find')
    k = iv(add(ptr.c, ptr.i) if ptr.s else ptr.c)
    ex.prove(st, z3.And(k >= 0, iv(ln) >= 0, k + iv(ln) <= z3.Length(b.seq)), 'the text looked up lies in the extension')
    r = conf(z3.SubSeq(b.seq, k, iv(ln)))
    st.facts.append(z3.And(r >= 0, r < 2 ** 62))
    return r


MODELS.append((re.compile(r'spec::Dict::find'), m_find))


def run(S):
    mod = S.module([DRV], extra=['-fno-access-control'])
    fu = Full()
    for c in (fu, Match()):
        ex = S.exec(mod, [fu], {'invariant': lambda ex, s0, r0, f, h: ex.verifying.loop(ex, s0)}, models_extra=MODELS)
        S.check(ex, c)
