"""Abstraction of sequence terms: every term of sort Seq(Int) becomes a term of an uninterpreted sort, built-in operations on sequences
become uninterpreted functions. What is unsatisfiable after it was so before."""
import z3

SEQ = z3.SeqSort(z3.IntSort())
U = z3.DeclareSort('Text')


class Abs:
    def __init__(self):
        self.memo, self.keep = {}, []

    def srt(self, s):
        return U if s == SEQ else s

    def fn(self, name, args, out):
        return z3.Function('abs:' + name + ':' + ','.join(str(a.sort()) for a in args), *([a.sort() for a in args] + [out]))(*args)

    def go(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k]
        r = self.go1(e)
        self.memo[k] = r
        self.keep.append(e)
        return r

    def pure(self, e):
        return 'Seq' not in e.sexpr() if False else None

    def go1(self, e):
        if z3.is_quantifier(e) or z3.is_var(e):
            raise Skip()
        s = e.sort()
        if s.kind() == z3.Z3_ARRAY_SORT and 'Seq' in s.sexpr():
            return self.opaque(e)
        kids = e.children()
        if not kids:
            if s == SEQ:
                return z3.Const('abs:' + e.sexpr(), U)
            return e
        if z3.is_app_of(e, z3.Z3_OP_SELECT) and 'Seq' in kids[0].sort().sexpr():
            base, idx = kids[0], [kids[1]]
            while z3.is_app_of(base, z3.Z3_OP_SELECT):
                idx.insert(0, base.arg(1))
                base = base.arg(0)
            if s != SEQ:
                raise Skip()
            return self.fn('sel%d' % base.get_id() if not self.keep.append(base) else '', [self.go(i) for i in idx], U)
        a = [self.go(c) for c in kids]
        if z3.is_eq(e):
            return a[0] == a[1]
        if e.decl().kind() == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*a)
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            return z3.If(*a)
        seq = s == SEQ or any(c.sort() == SEQ for c in kids)
        if seq:
            return self.fn(e.decl().name(), a, self.srt(s))
        return e.decl()(*a)

    def opaque(self, e):
        raise Skip()


class Skip(Exception):
    pass


def unsat(fs, timeout):
    """is the conjunction of fs unsatisfiable, by what is left of it? (formulas with quantifiers over sequences are left out)"""
    A = Abs()
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in fs:
        try:
            s.add(A.go(f))
        except Skip:
            pass
    return s.check() == z3.unsat
