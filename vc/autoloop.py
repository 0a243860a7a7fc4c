"""Loops of a scanner: the invariant is a finite disjunction, found by exploring the product of the code's control variables and the
specification's reference automaton, and then discharged.

A case of the invariant fixes the value of every location that only ever takes few constant values (the code's state variables and the
ghost state of the reference automaton) and keeps those relations of a given list (equalities between a string of the code and a ghost
string, say) that hold whenever the loop head is reached in that case. All other locations the loop changes are arbitrary. The search for
the cases proves nothing; the last pass does: it shows that the state before the loop and the state after one iteration from every
case fall into some case, for every input, and collects the exits of the loop from every case."""
import os
import z3
from sem import *

DBG = os.environ.get('VERIF_AUTOLOOP')
LIMIT = 64        # values a location may take before it is taken for a counter
CASES = 900


def leaves(v):
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        return leaves(v.arg(1)) and leaves(v.arg(2))
    return z3.is_int_value(v)


class AutoLoop:
    """relations(ex, st, locs) -> {name: (index of a location, the value it may have)}; active(s0, s1): the body is one of a scanner; seen(st): an
    execution of the body ends in st"""

    # Whether the last byte taken is still to be looked at by the code at the loop head: then the class it belongs to (ghost cls) is part
    # of the case; refine(ex, st) states what the class means
    fine = False

    def __init__(self, relations, active, counters=(), refine=None, seen=None):
        self.relations, self.active, self.counters, self.refine, self.seen = relations, active, counters, refine, seen
        self.cases = 0

    def const(self, v):
        """a hashable value if v is a constant, or None"""
        if isinstance(v, Poison):
            return ('poison',)
        if isinstance(v, (bool, int, str)):
            return (v,)
        if isinstance(v, Fn):
            return ('fn', v.name)
        if v is None:
            return ('none',)
        if isinstance(v, Ptr):
            if v.s == 0 and isinstance(v.base, Obj):
                return ('ptr', id(v.base), v.c)
            return None
        if isz(v):
            v = z3.simplify(v)
            if z3.is_int_value(v):
                return (v.as_long(),)
            if z3.is_true(v) or z3.is_false(v):
                return (z3.is_true(v),)
        return None

    def __call__(self, ex, st, regs, f, h, prev, blocks):
        if any(i.op == 'phi' for i in f.blocks[h]):
            return None
        loop = (h, blocks)
        ex.dry += 1
        try:
            out = ex.run(st.copy(), dict(regs), f, h, prev, loop)
        finally:
            ex.dry -= 1
        if not any(o[0] == 'back' and self.active(st, o[1]) for o in out):
            return None
        fine = self.fine
        for self.fine in (False, True):
            M, wide, shapes, vals = [], set(), {}, {}
            try:
                for _ in range(60):
                    r = self.explore(ex, st, regs, f, h, prev, loop, M, wide, shapes, vals)
                    if r is not None:
                        break
                else:
                    raise Unsupported('the cases of the loop could not be found')
                break
            except Unsupported as e:
                if self.fine or not self.refine or 'undefined' not in str(e):
                    self.fine = fine
                    raise
        try:
            return self.proof(ex, st, regs, f, h, prev, loop, M, wide, shapes, vals, r)
        finally:
            self.fine = fine

    def proof(self, ex, st, regs, f, h, prev, loop, M, wide, shapes, vals, r):
        self.cases = len(r)
        res = []
        items = [('init', st, None)] + [(k, None, c) for k, c in r.items()]
        for k, s, c in items:
            s = s.copy() if s is not None else self.header(ex, st, k, c, M, wide, shapes, vals)
            for o in ex.run(s, dict(regs), f, h, prev, loop):
                if o[0] != 'back':
                    res.append(o)
                    continue
                if not ex.feasible(o[1]):
                    continue
                for l in ex.locs(st, o[1]):
                    if l not in M:
                        raise Unsupported('the loop changes more than was found')
                for t in self.split(ex, o[1], M, wide):
                    k2 = self.key(ex, t, M, wide)
                    if k2 not in r:
                        raise Unsupported('the cases of the loop are not closed')
                    rel = self.relations(ex, t, M)
                    for n in r[k2]:
                        if n not in rel or not self.holds(ex, t, M, rel[n]):
                            raise Unsupported('a relation of the loop is not preserved')
        return res

    def split(self, ex, s, M, wide):
        """the states in which every location whose value is a choice between constants has one of them"""
        for i, l in enumerate(M):
            if i in wide:
                continue
            v = ex.getloc(s, l)
            if not (isz(v) and z3.is_int(v)) or self.const(v) is not None:
                continue
            v = z3.simplify(v)
            if not (z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE) or not leaves(v):
                continue
            r = []
            for g, x in ((v.arg(0), v.arg(1)), (z3.Not(v.arg(0)), v.arg(2))):
                if ex.feasible(s, g):
                    t = s.copy()
                    t.pc.append(g)
                    ex.setloc(t, l, x.as_long() if z3.is_int_value(x) else x)
                    r += self.split(ex, t, M, wide)
            return r
        return [s]

    def key(self, ex, s, M, wide):
        k = []
        for i, l in enumerate(M):
            if i in wide:
                continue
            c = self.const(ex.getloc(s, l))
            if c is None:
                return None
            k.append((i, c))
        return tuple(k)

    def header(self, ex, s0, key, rels, M, wide, shapes, vals):
        s = s0.copy()
        s.exact = False
        fresh = set()
        for i, l in enumerate(M):
            if i in wide and not self.fine and l[0] == 'cell':
                ex.setloc(s, l, POISON)
            elif i in wide:
                sv, c = ex.sym_for(ex.getloc(s0, l), shapes.get(i, []), l, 'h')
                ex.setloc(s, l, sv)
                if c is not None:
                    fresh.add(c.decl().name())
                if c is not None and z3.is_int(c):
                    r = ex.rg.sym.get(c.decl().name())
                    if r:
                        ex.assume_range(s, c, r)
        for i, c in key:
            ex.setloc(s, M[i], vals[(i, c)])
        if self.fine:
            self.refine(ex, s)
        # the relations are solved for the arbitrary values, so that what is equal is the same term
        rel = self.relations(ex, s, M)
        sub = []
        for n in rels:
            i, v = rel[n]
            a = ex.getloc(s, M[i])
            if isinstance(a, Poison):
                if self.fine:
                    ex.setloc(s, M[i], v)
                continue
            a, v = (z3.substitute(iv(x) if isinstance(x, int) else x, *sub) for x in (a, v))
            if a.eq(v):
                continue
            if not (z3.is_const(a) and a.decl().name() in fresh):
                a, v = v, a
            if z3.is_const(a) and a.decl().name() in fresh:
                sub = [(x, z3.substitute(y, (a, v))) for x, y in sub] + [(a, v)]
            else:
                s.pc.append(a == v)
        if sub:
            for i in wide:
                x = ex.getloc(s, M[i])
                if isz(x):
                    ex.setloc(s, M[i], z3.substitute(x, *sub))
            s.pc = [z3.substitute(p, *sub) if isz(p) else p for p in s.pc]
        return s

    def holds(self, ex, s, M, r):
        v, x = ex.getloc(s, M[r[0]]), r[1]
        if isinstance(v, (Poison, Ptr, Fn)) or not (isz(v) or isinstance(v, int)):
            return False
        g = iv(v) == iv(x) if not isz(v) or z3.is_int(v) else v == x
        return z3.is_true(z3.simplify(g))

    def explore(self, ex, st, regs, f, h, prev, loop, M, wide, shapes, vals):
        """one round of the search; None: start again (M or wide has grown)"""
        cases, work, first = {}, [None], True
        seen = {}
        ex.dry += 1
        try:
            while work:
                k = work.pop(0)
                s = st.copy() if k is None else self.header(ex, st, k, cases[k], M, wide, shapes, vals)
                grown = False
                outs = []
                for o in ex.run(s, dict(regs), f, h, prev, loop):
                    if self.seen:
                        self.seen(o[1])
                    if o[0] == 'back' and ex.feasible(o[1]):
                        for l in ex.locs(st, o[1]):
                            if l not in M:
                                if l[0] == 'ghost' and (l[1] in self.counters or l[1] == 'cls' and not self.fine) or l[0] == 'ghostcell' and l[2][1] == 'len':
                                    wide.add(len(M))
                                M.append(l)
                                grown = True
                        outs += [(o[0], t) for t in self.split(ex, o[1], M, wide)]
                for o in outs:
                    for i, l in enumerate(M):
                        v = ex.getloc(o[1], l)
                        c = self.const(v)
                        if i in wide:
                            if len(shapes.setdefault(i, [])) < 6:
                                shapes[i].append(v)
                            continue
                        if c is not None:
                            seen.setdefault(i, set()).add(c)
                            vals.setdefault((i, c), v)
                        if c is None or len(seen[i]) > LIMIT and not isinstance(v, str):
                            wide.add(i)
                            if DBG:
                                print('wide', l, str(v)[:200])
                            shapes.setdefault(i, []).append(v)
                            grown = True
                    if grown:
                        continue
                    k2 = self.key(ex, o[1], M, wide)
                    rel = self.relations(ex, o[1], M)
                    if DBG and k2 not in cases:
                        print('new', k, '->', k2, str(o[1].pc[-4:])[:300].replace('\n', ' '))
                    if k2 not in cases:
                        if len(cases) >= CASES:
                            raise Unsupported('too many cases in the loop')
                        cases[k2] = [n for n, g in rel.items() if self.holds(ex, o[1], M, g)]
                        work.append(k2)
                    else:
                        keep = [n for n in cases[k2] if n in rel and self.holds(ex, o[1], M, rel[n])]
                        if len(keep) < len(cases[k2]):
                            cases[k2] = keep
                            if k2 not in work:
                                work.append(k2)
                if DBG:
                    print('case', len(cases), len(work), len(M), len(wide), k, cases.get(k), flush=True)
                if grown:
                    return None
        finally:
            ex.dry -= 1
        return cases
