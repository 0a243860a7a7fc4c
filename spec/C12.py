"""C12: build ids survive the round trip through text."""
from spec import *
from models import ret

SRC = ['core/build/id.cpp']


def nib_ok(c):
    return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102))


def nib(c):
    return z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))


def digit(v):
    """ASCII code of the lower-case digit for v"""
    return z3.If(v < 10, v + 48, v + 87)


class Parse(Contract):
    base = 'Maike::Build::Id::Id'
    sig = r'Id\(char const\*\)'

    def entry(self, ex, f):
        st = State()
        self.id = Ptr(Obj('id', 32))
        self.t = Ptr(Obj('text', 65, fresh=False))
        self.c = [iv(ex.load(st, self.t.add(k), ir.I8)) for k in range(65)]
        for c in self.c:
            st.pc += [c >= 0, c <= 255]
        return st, [self.id, self.t]

    def post(self, ex, st, o, a):
        """text ends at the first NUL; longer than 64 digits: the rest is not looked at"""
        live = [z3.BoolVal(True)]
        for c in self.c:
            live.append(z3.And(live[-1], c != 0))       # live[j+1]: length > j
        bad = z3.Or(*[z3.And(live[j + 1], z3.Not(nib_ok(self.c[j]))) for j in range(64)])
        if o[0] == 'exc':
            ex.prove(st, bad, 'Id(text): only a text with a bad character is rejected')
            return
        ex.prove(st, z3.Not(bad), 'Id(text): a text with a bad character among the first 64 is rejected')
        ex.prove(st, z3.Implies(live[64], z3.And(*[
            iv(ex.load(st, self.id.add(k), ir.I8)) == 16 * nib(self.c[2 * k]) + nib(self.c[2 * k + 1]) for k in range(32)])),
            'Id(text): each byte is its two digits')


class Text(Contract):
    base = 'Maike::Build::toString'
    sig = r'toString.*\(Maike::Build::Id'

    def entry(self, ex, f):
        st = State()
        self.id = Ptr(Obj('id', 32, fresh=False))
        self.out = Ptr(Obj('text', 32))
        self.b = [ex.load(st, self.id.add(k), ir.I8) for k in range(32)]
        return st, [self.out, self.id]

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'toString: always gives a text')
        if o[0] != 'ret':
            return
        s = ex.gload(st, self.out, 'str')
        us = []
        for k in range(32):
            v = iv(self.b[k])
            us += [z3.Unit(digit(v / 16)), z3.Unit(digit(v % 16))]
        # position by position: the concatenation has the wanted shape
        got = units(s)
        if got is not None and len(got) == 64:
            for k in range(64):
                ex.prove(st, iv(got[k]) == us[k].arg(0), 'toString: digit %d' % k)
        else:
            ex.prove(st, s == z3.Concat(*us), 'toString: 64 lower-case digits')


def units(s):
    """elements of a sequence written as a concatenation of units, or None"""
    if not isz(s):
        return None
    k = s.decl().kind()
    if k == z3.Z3_OP_SEQ_UNIT:
        return [s.arg(0)]
    if k == z3.Z3_OP_SEQ_EMPTY:
        return []
    if k == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for c in s.children():
            u = units(c)
            if u is None:
                return None
            out += u
        return out
    return None


def roundtrip(S, ex):
    """lemma over the two contracts: nib(digit(v)) = v and digits are accepted"""
    st = State()
    v = z3.Int('v')
    st.pc += [v >= 0, v <= 15]
    ex.cur_fn = 'lemma'
    ex.prove(st, z3.And(nib_ok(digit(v)), nib(digit(v)) == v), 'parsing the text of an id gives the id back')
    c = z3.Int('c')
    st2 = State()
    st2.pc += [c >= 97, c <= 102]
    ex.prove(st2, nib(c) == nib(c - 32), 'upper and lower case digits mean the same')


def run(S):
    m = S.module(SRC)

    def mk(ex, st):
        c = ex.fresh('c', INT, (0, 255))
        ex.assume_range(st, c, (0, 255))
        return [c]
    nb = Pure('{anon}::to_nibble', 1, lambda ex, st, a: z3.Not(nib_ok(iv(a[0]))), lambda ex, st, a: nib(iv(a[0])), top=False, mk=mk)
    ex = S.exec(m, [nb], opts={'unroll': lambda ex, f: True})
    S.check(ex, nb)
    S.check(ex, Text())
    S.check(ex, Parse())
    roundtrip(S, ex)
