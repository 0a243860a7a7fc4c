"""Verification-condition generator: forward symbolic execution of LLVM IR, function by function, with z3.

Integers are mathematical integers kept in [0, 2^n) (wrap-around modelled exactly), i1 is Bool, pointers are
(base, const offset, stride, index), where base is a concrete object or a symbolic reference. Loops are either unrolled
(when every branch is decided) or summarised by induction (see summarize())."""
import itertools
import re
import time
import z3
import ir
import names

INT = z3.IntSort()
SEQ = z3.SeqSort(INT)


class Unsupported(Exception):
    pass


class Refuted(Exception):
    """raised to stop early"""


def isz(x):
    return isinstance(x, z3.ExprRef)


# ------------------------------------------------------------------------------------------------ integer helpers
class Ranges:
    def __init__(self):
        self.sym = {}
        self.fun = {}
        self.arr = {}
        self.memo = {}
        self.keep = []

    def of(self, e):
        if isinstance(e, bool):
            return (int(e), int(e))
        if isinstance(e, int):
            return (e, e)
        i = e.get_id()
        if i in self.memo:
            return self.memo[i]
        self.keep.append(e)
        r = self._of(e)
        self.memo[i] = r
        return r

    def _of(self, e):
        N = (None, None)
        if z3.is_int_value(e):
            v = e.as_long()
            return (v, v)
        if not z3.is_int(e):
            return N
        d = e.decl()
        k = d.kind()
        if k == z3.Z3_OP_ADD:
            lo = hi = 0
            for c in e.children():
                a, b = self.of(c)
                lo = None if lo is None or a is None else lo + a
                hi = None if hi is None or b is None else hi + b
            return (lo, hi)
        if k == z3.Z3_OP_SUB:
            cs = e.children()
            lo, hi = self.of(cs[0])
            for c in cs[1:]:
                a, b = self.of(c)
                lo = None if lo is None or b is None else lo - b
                hi = None if hi is None or a is None else hi - a
            return (lo, hi)
        if k == z3.Z3_OP_UMINUS:
            a, b = self.of(e.arg(0))
            return (None if b is None else -b, None if a is None else -a)
        if k == z3.Z3_OP_MUL and e.num_args() == 2:
            a, b = e.children()
            if z3.is_int_value(b):
                a, b = b, a
            if z3.is_int_value(a):
                c = a.as_long()
                lo, hi = self.of(b)
                if lo is None or hi is None:
                    if c >= 0:
                        return (None if lo is None else lo * c, None if hi is None else hi * c)
                    return (None if hi is None else hi * c, None if lo is None else lo * c)
                return (min(lo * c, hi * c), max(lo * c, hi * c))
            la, ha = self.of(a)
            lb, hb = self.of(b)
            if None not in (la, ha, lb, hb) and la >= 0 and lb >= 0:
                return (la * lb, ha * hb)
            if la is not None and lb is not None and la >= 0 and lb >= 0:
                return (la * lb, None)
            return N
        if k == z3.Z3_OP_ITE:
            a, b = self.of(e.arg(1))
            c, d2 = self.of(e.arg(2))
            return (None if a is None or c is None else min(a, c), None if b is None or d2 is None else max(b, d2))
        if k == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)):
            m = abs(e.arg(1).as_long())
            a, b = self.of(e.arg(0))
            if a is not None and b is not None and 0 <= a and b < m:
                return (a, b)
            return (0, m - 1)
        if k == z3.Z3_OP_IDIV and z3.is_int_value(e.arg(1)):
            m = e.arg(1).as_long()
            a, b = self.of(e.arg(0))
            if m > 0:
                return (None if a is None else a // m, None if b is None else b // m)
            return N
        if k == z3.Z3_OP_SEQ_LENGTH:
            return (0, 1 << 48)
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = d.name()
            if e.num_args() == 0:
                return self.sym.get(nm, N)
            return self.fun.get(nm, N)
        if k == z3.Z3_OP_SELECT:
            a = e.arg(0)
            while True:
                kk = a.decl().kind()
                if kk in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE):
                    if kk == z3.Z3_OP_STORE:
                        return N
                    a = a.arg(0)
                elif kk == z3.Z3_OP_UNINTERPRETED:
                    return self.arr.get(a.decl().name(), N)
                else:
                    return N
        return N


def iv(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def bv(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def s_simp(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return e


def add(a, b):
    if not isz(a) and not isz(b):
        return a + b
    if not isz(a) and a == 0:
        return b
    if not isz(b) and b == 0:
        return a
    return s_simp(a + b)


def sub(a, b):
    if not isz(a) and not isz(b):
        return a - b
    if not isz(b) and b == 0:
        return a
    return s_simp(iv(a) - iv(b))


def mul(a, b):
    if not isz(a) and not isz(b):
        return a * b
    if (not isz(a) and a == 0) or (not isz(b) and b == 0):
        return 0
    return s_simp(iv(a) * iv(b))


def b_simp(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def eq(a, b):
    if not isz(a) and not isz(b):
        return a == b
    return b_simp(iv(a) == iv(b))


def lt(a, b):
    if not isz(a) and not isz(b):
        return a < b
    return b_simp(iv(a) < iv(b))


def le(a, b):
    if not isz(a) and not isz(b):
        return a <= b
    return b_simp(iv(a) <= iv(b))


def neg(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def conj(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            r.append(x)
    return True if not r else (r[0] if len(r) == 1 else z3.And(*r))


def disj(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            r.append(x)
    return False if not r else (r[0] if len(r) == 1 else z3.Or(*r))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if not isz(a) and not isz(b) and type(a) == type(b) and a == b:
        return a
    ba, bb = [isinstance(x, bool) or isz(x) and z3.is_bool(x) for x in (a, b)]
    if ba != bb:        # a truth value and a number
        a, b = [(z3.If(bv(x), z3.IntVal(1), z3.IntVal(0)) if q else x) for x, q in ((a, ba), (b, bb))]
        ba = False
    if ba:
        return b_simp(z3.If(c, bv(a), bv(b)))
    if isz(a) and isz(b) and a.eq(b):
        return a
    return z3.If(c, iv(a), iv(b))


class Poison:
    def __repr__(self):
        return 'poison'


POISON = Poison()


class Obj:
    """a concrete object (allocation)"""
    cnt = itertools.count(1)

    def __init__(self, name, size=None, fresh=True, zero=False, const=None):
        self.id = next(Obj.cnt)
        self.name = name
        self.size = size
        self.fresh = fresh          # contents undefined (True) or symbolic input (False)
        self.zero = zero
        self.const = const          # constant initialiser
        self.alloc = None           # size in bytes, when symbolic

    def __repr__(self):
        return '<%s#%d>' % (self.name, self.id)


class CStr:
    """base of a pointer to the characters of a string value (NUL-terminated view)"""

    def __init__(self, seq):
        self.seq = seq

    def __repr__(self):
        return 'cstr'


class Ptr:
    __slots__ = ('base', 'c', 's', 'i')

    def __init__(self, base, c=0, s=0, i=0):
        self.base, self.c, self.s, self.i = base, c, s, i

    def __repr__(self):
        return 'Ptr(%r,%r,%r,%r)' % (self.base, self.c, self.s, self.i)

    def isnull(self):
        return isinstance(self.base, int) and self.base == 0

    def add(self, d):
        return Ptr(self.base, self.c + d, self.s, self.i)


NULL = Ptr(0)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = list(v)

    def __repr__(self):
        return 'Agg%r' % (self.v,)


class OState:
    __slots__ = ('cells', 'ghosts', 'regs', 'lazy', 'freed')

    def __init__(self):
        self.cells = {}     # off -> (value, nbytes)
        self.ghosts = {}    # (off, kind) -> value
        self.regs = {}      # start -> Region
        self.lazy = []      # (off, n, srcptr, State snapshot)
        self.freed = False

    def copy(self):
        r = OState()
        r.cells = dict(self.cells)
        r.ghosts = dict(self.ghosts)
        r.regs = dict(self.regs)
        r.lazy = list(self.lazy)
        r.freed = self.freed
        return r


class Region:
    """an array inside an object: z3 array Int -> Int"""
    __slots__ = ('stride', 'arr', 'n')

    def __init__(self, stride, arr, n=None):
        self.stride, self.arr, self.n = stride, arr, n


class State:
    def __init__(self):
        self.objs = {}
        self.owned = set()
        self.heap = {}
        self.ghost = {}
        self.pc = []
        self.facts = []
        self.exact = True       # no over-approximation so far
        self.notes = []

    def copy(self):
        r = State()
        r.objs = dict(self.objs)
        self.owned = set()
        r.heap = dict(self.heap)
        r.ghost = dict(self.ghost)
        r.pc = list(self.pc)
        r.facts = list(self.facts)
        r.exact = self.exact
        r.notes = list(self.notes)
        return r

    def o(self, obj):
        """object state for writing"""
        s = self.objs.get(obj)
        if s is None:
            s = OState()
            self.objs[obj] = s
            self.owned.add(obj)
        elif obj not in self.owned:
            s = s.copy()
            self.objs[obj] = s
            self.owned.add(obj)
        return s

    def ro(self, obj):
        s = self.objs.get(obj)
        return s if s is not None else self.o(obj)


KIND_RANGE = {'i1': (0, 1), 'i8': (0, 255), 'i16': (0, 65535), 'i32': (0, 2 ** 32 - 1), 'i64': (0, 2 ** 64 - 1),
              'len': (0, 1 << 48), 'data': (1, (1 << 40) - 1), 'ptr': (0, (1 << 40) - 1), 'i128': (0, 2 ** 128 - 1)}


def kind_sort(kind):
    if kind in ('str', 'path'):
        return SEQ
    if kind.startswith('bool:'):
        return z3.BoolSort()
    return INT


class Obligation:
    def __init__(self, name, status, secs, detail='', fn='', exact=True, model=None, backend='z3'):
        self.name, self.status, self.secs, self.detail = name, status, secs, detail
        self.fn, self.exact, self.model, self.backend = fn, exact, model, backend


class Exec:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.rg = Ranges()
        self.syms = []                   # every fresh constant, in creation order
        self.counter = itertools.count()
        self.axioms = []
        self.models = []                 # (regex, fn)
        self.contracts = {}              # base name -> fn
        self.cache = {}
        self.globals = {}
        self.obls = []
        self.opts = opts or {}
        self.loop_hook = None
        self.inlined = {}                # functions executed (repo code), name -> times
        self.assumed = {}                # external contract used, name -> times
        self.contracted = {}
        self.feas_n = 0
        self.solver_time = 0.0
        self.z3_timeout = 20000
        self.max_unroll = 400
        self.unroll_sym = 0
        self.feas_cache = {}
        self.depth = 0
        self.exc_objs = {}
        self.inst_count = 0
        self.deadline = None
        self.cur_fn = ''
        self.base = {}
        self.dry = 0

    # ------------------------------------------------------------------ symbols
    def fresh(self, name, sort=INT, rng=None):
        nm = '%s!%d' % (name, next(self.counter))
        c = z3.Const(nm, sort)
        self.syms.append(c)
        if rng is not None:
            self.rg.sym[nm] = rng
        return c

    def const(self, name, sort=INT, rng=None):
        c = z3.Const(name, sort)
        if rng is not None:
            self.rg.sym[name] = rng
        return c

    def fun(self, name, *sorts, rng=None):
        if rng is not None:
            self.rg.fun[name] = rng
        return z3.Function(name, *sorts)

    def fresh_kind(self, name, kind, st=None):
        r = KIND_RANGE.get(kind)
        c = self.fresh(name, kind_sort(kind), r)
        if st is not None and r is not None:
            self.assume_range(st, c, r)
        return c

    def assume_range(self, st, c, r):
        if r[0] is not None:
            st.pc.append(c >= r[0])
        if r[1] is not None:
            st.pc.append(c <= r[1])

    # ------------------------------------------------------------------ solving
    def feasible(self, st, cond=None):
        """may the path condition (plus cond) hold? False only if proved impossible"""
        if isinstance(cond, bool):
            if not cond:
                return False
            cond = None
        key = (tuple(p.get_id() for p in st.pc), cond.get_id() if cond is not None else None)
        if key in self.feas_cache:
            return self.feas_cache[key][0]
        s = z3.Solver()
        s.set('timeout', 2000)
        for p in st.pc:
            s.add(p)
        for a in getattr(self, 'qf_axioms', []):
            s.add(a)
        if cond is not None:
            s.add(cond)
        t = time.time()
        r = s.check() != z3.unsat
        self.solver_time += time.time() - t
        self.feas_n += 1
        self.feas_cache[key] = (r, list(st.pc), cond)
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time limit')
        return r

    def entails(self, st, goal):
        if isinstance(goal, bool):
            return goal
        return not self.feasible(st, neg(goal))

    def prove(self, st, goal, name, fn=None, extra=()):
        """one obligation"""
        if self.dry:
            return True
        if isinstance(goal, bool):
            if goal:
                self.obls.append(Obligation(name, 'unsat', 0.0, fn=fn or self.cur_fn, backend='simplifier'))
                return True
            goal = z3.BoolVal(False)
        s = z3.Solver()
        s.set('timeout', self.z3_timeout)
        for p in st.pc:
            s.add(p)
        for p in st.facts:
            s.add(p)
        for p in self.axioms:
            s.add(p)
        for p in extra:
            s.add(p)
        s.add(neg(goal))
        t = time.time()
        if self.opts.get('abstract_seq'):
            import absseq
            ab = absseq.unsat(s.assertions(), 4000)
        else:
            ab = False
        r = z3.unsat if ab else s.check()
        dt = time.time() - t
        self.solver_time += dt
        status = str(r)
        backend = 'z3'
        model = None
        if r == z3.unknown:
            r2 = self.cvc5(s)
            if r2 == 'unsat':
                status = 'unsat'
                backend = 'cvc5'
            dt = time.time() - t
        if status == 'sat':
            m = s.model()
            model = self.model_text(m)
        if status != 'unsat' and self.opts.get('dump'):
            with open('/tmp/w/obl_%d.smt2' % len(self.obls), 'w') as f:
                f.write(s.to_smt2())
        self.obls.append(Obligation(name, status, dt, fn=fn or self.cur_fn, exact=st.exact, model=model, backend=backend,
                                    detail='' if status == 'unsat' else goal.sexpr()[:2000]))
        return status == 'unsat'

    def model_text(self, m):
        out = []
        for d in m.decls()[:80]:
            try:
                out.append('%s = %s' % (d.name(), str(m[d])[:200]))
            except Exception:
                pass
        return out

    def cvc5(self, s):
        import subprocess
        import tempfile
        import os
        try:
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                txt = s.to_smt2()
                f.write('(set-logic ALL)\n' + txt)
            r = subprocess.run(['cvc5', '--tlimit=15000', f.name], capture_output=True, text=True, timeout=30)
            os.unlink(f.name)
            return r.stdout.strip().split('\n')[0]
        except Exception:
            return 'error'

    # ------------------------------------------------------------------ memory
    def obj_of(self, base):
        return base if isinstance(base, Obj) else None

    def _init_cell(self, st, obj, off, kind):
        """value of a never-written cell"""
        if obj.const is not None:
            return self._const_load(obj, off, kind)
        if obj.zero:
            return self._zero(kind)
        if obj.fresh:
            return POISON
        nm = '%s@%d:%s' % (obj.name, off, kind)
        if kind == 'ptr':
            b = self.const(nm, INT, (0, None))
            st.pc.append(b >= 0)
            return Ptr(b)
        r = KIND_RANGE.get(kind)
        c = self.const(nm, kind_sort(kind), r)
        if r is not None:
            self.assume_range(st, c, r)
        return c

    def _zero(self, kind):
        if kind == 'ptr':
            return NULL
        if kind in ('str', 'path'):
            return z3.Empty(SEQ)
        return 0

    def load_raw(self, st, p, nbytes, kind):
        """scalar (integer or pointer) load"""
        if isinstance(p, Poison):
            raise Unsupported('load through undefined pointer')
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        if isinstance(p.base, CStr):
            return self._load_cstr(st, p, nbytes)
        if isinstance(p.base, Obj):
            obj = p.base
            if p.s == 0 or not isz(p.i):
                off = p.c + p.s * p.i
                return self._load_conc(st, obj, off, nbytes, kind)
            return self._load_region(st, obj, p, nbytes, kind)
        if p.isnull():
            raise Unsupported('load from null')
        return self._load_heap(st, p, kind)

    def _load_conc(self, st, obj, off, nbytes, kind):
        os = st.ro(obj)
        for start, rg in os.regs.items():
            if self._in_region(rg, start, off):
                q, r = divmod(off - start, rg.stride)
                if r == 0 and rg.stride == nbytes:
                    return self._from_arr(s_simp(z3.Select(rg.arr, q)), kind)
                raise Unsupported('partial region access')
        c = os.cells.get(off)
        if c is not None:
            v, n = c
            if n == nbytes:
                return self._conv(st, v, kind)
            if n > nbytes and not isinstance(v, (Ptr, Fn, Poison)):
                if isinstance(v, bool):
                    v = int(v)
                return v % (1 << (8 * nbytes)) if not isz(v) else self.wrap(v, 8 * nbytes)
            if n < nbytes:
                # compose
                r = self._compose(st, obj, off, nbytes)
                if r is not None:
                    return r
            raise Unsupported('mixed-size load at %r+%d: %d vs %d' % (obj, off, n, nbytes))
        # inside a wider cell?
        for o2, (v, n) in os.cells.items():
            if o2 < off < o2 + n:
                if isinstance(v, (Ptr, Fn, Poison)):
                    return POISON
                if isinstance(v, bool):
                    v = int(v)
                sh = 8 * (off - o2)
                if not isz(v):
                    return (v >> sh) % (1 << (8 * nbytes))
                return self.wrap(s_simp(v / iv(1 << sh)), 8 * nbytes)
        for (o2, n, src, snap) in reversed(os.lazy):
            if o2 <= off and off + nbytes <= o2 + n:
                v = self.load_raw(snap, src.add(off - o2), nbytes, kind)
                self._adopt(st, snap)
                st.o(obj).cells[off] = (v, nbytes)
                return v
        if any(off < o2 < off + nbytes for o2 in os.cells):
            r = self._compose(st, obj, off, nbytes)
            if r is not None:
                return r
        v = self._init_cell(st, obj, off, kind)
        st.o(obj).cells[off] = (v, nbytes)
        return v

    def _adopt(self, st, snap):
        have = {p.get_id() for p in st.pc}
        for p in snap.pc:
            if p.get_id() not in have and p.get_id() in getattr(snap, '_newpc', ()):
                st.pc.append(p)

    def _compose(self, st, obj, off, nbytes):
        os = st.ro(obj)
        v = 0
        k = off
        while k < off + nbytes:
            c = os.cells.get(k)
            if c is None:
                if obj.zero:
                    k += 1
                    continue
                # padding / undefined: find next
                nxt = [o for o in os.cells if k < o < off + nbytes]
                if obj.fresh:
                    k = min(nxt) if nxt else off + nbytes
                    continue
                return None
            val, n = c
            if isinstance(val, (Ptr, Fn)):
                return None
            if isinstance(val, Poison):
                k += n
                continue
            if isinstance(val, bool):
                val = int(val)
            if isz(val) and z3.is_bool(val):
                val = z3.If(val, 1, 0)
            v = add(v, mul(val, 1 << (8 * (k - off))))
            k += n
        return v

    def _conv(self, st, v, kind):
        return v

    def _const_load(self, obj, off, kind):
        data = obj.const
        if isinstance(data, bytes):
            n = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8}.get(kind)
            if n is None:
                raise Unsupported('constant load %s' % kind)
            return int.from_bytes(data[off:off + n].ljust(n, b'\0'), 'little')
        if isinstance(data, dict):
            if off in data:
                return data[off]
            return self._zero(kind)
        raise Unsupported('constant')

    def _load_cstr(self, st, p, nbytes):
        if nbytes != 1 or p.s not in (0, 1):
            raise Unsupported('cstr access')
        i = add(p.c, p.i) if p.s else p.c
        seq = p.base.seq
        n = z3.Length(seq)
        if self.entails(st, iv(i) < n):
            v = seq[iv(i)]
            if isz(i):
                c = self.fresh('chr', INT, (0, 255))
                self.assume_range(st, c, (0, 255))
                st.pc.append(c == v)
                return c
            return s_simp(v)
        if self.entails(st, iv(i) == n):
            return 0
        return z3.If(iv(i) < n, seq[iv(i)], 0)

    def _in_region(self, rg, start, off):
        if off < start:
            return False
        if rg.n is None:
            return True
        return off < start + rg.stride * rg.n

    def region_of(self, st, obj, p):
        """the region that p (symbolic index) points into; created on demand"""
        os = st.ro(obj)
        for start, rg in os.regs.items():
            if self._in_region(rg, start, p.c) and rg.stride == p.s:
                return start, rg
        for start, rg in os.regs.items():
            if rg.stride == p.s and (rg.n is None or start + rg.stride * rg.n >= p.c >= start):
                return start, rg
        # one region per (start of array). The start has to be announced by array GEP (mkregion) or is the object start
        start = p.c % p.s if obj.size is None else 0
        hint = self.arr_hint.get((obj, p.s)) if hasattr(self, 'arr_hint') else None
        return self.mkregion(st, obj, p.c if hint is None else hint, p.s, None)

    def mkregion(self, st, obj, start, stride, n):
        os = st.o(obj)
        if start in os.regs:
            return start, os.regs[start]
        if obj.zero:
            arr = z3.K(INT, iv(0))
        elif obj.const is not None:
            arr = z3.K(INT, iv(0))
            data = obj.const
            cnt = n if n is not None else (len(data) // stride if isinstance(data, bytes) else 0)
            for k in range(cnt):
                v = self._const_load(obj, start + k * stride, {1: 'i8', 2: 'i16', 4: 'i32', 8: 'i64'}[stride])
                arr = z3.Store(arr, k, iv(v))
        else:
            nm = '%s@%d[]%d' % (obj.name, start, obj.id)
            arr = z3.Const(nm, z3.ArraySort(INT, INT))
            self.rg.arr[nm] = (0, 2 ** (8 * stride) - 1)
        for off in sorted(os.cells):
            v, sz = os.cells[off]
            if off >= start and (n is None or off < start + stride * n):
                if (off - start) % stride == 0 and sz == stride and not isinstance(v, (Poison,)):
                    arr = z3.Store(arr, (off - start) // stride, iv(self._toint(v)))
                    del os.cells[off]
                elif isinstance(v, Poison):
                    del os.cells[off]
                elif n is not None:
                    raise Unsupported('region over cells')
        rg = Region(stride, arr, n)
        os.regs[start] = rg
        return start, rg

    def _toint(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, Ptr):
            return self.ptr_to_ref(v)
        if isz(v) and z3.is_bool(v):
            return z3.If(v, 1, 0)
        return v

    def _from_arr(self, v, kind):
        if kind == 'ptr':
            return self.ref_to_ptr(v)
        return v

    def _load_region(self, st, obj, p, nbytes, kind):
        if p.s != nbytes:
            raise Unsupported('region element access %d/%d in %r' % (p.s, nbytes, obj))
        start, rg = self.region_of(st, obj, p)
        d, r = divmod(p.c - start, rg.stride)
        if r:
            raise Unsupported('unaligned region access')
        v = s_simp(z3.Select(rg.arr, iv(add(p.i, d))))
        if isz(v) and kind in KIND_RANGE:
            self.assume_range(st, v, KIND_RANGE[kind])
        return self._from_arr(v, kind)

    def _store_region(self, st, obj, p, nbytes, v):
        if p.s != nbytes:
            raise Unsupported('region element store %d/%d' % (p.s, nbytes))
        start, rg = self.region_of(st, obj, p)
        d, r = divmod(p.c - start, rg.stride)
        if r:
            raise Unsupported('unaligned region access')
        st.o(obj).regs[start] = Region(rg.stride, z3.Store(rg.arr, iv(add(p.i, d)), iv(self._toint(v))), rg.n)

    # symbolic heap: key (stride, offset in element, kind)
    def heap_key(self, p, kind):
        if p.s == 0:
            return (0, p.c, kind), None
        q, r = divmod(p.c, p.s)
        return (p.s, r, kind), add(p.i, q)

    def heap_arr(self, st, key):
        a = st.heap.get(key)
        if a is None:
            nm = 'H_%d_%d_%s' % key
            srt = kind_sort(key[2])
            so = z3.ArraySort(INT, srt) if key[0] == 0 else z3.ArraySort(INT, z3.ArraySort(INT, srt))
            a = z3.Const(nm, so)
            if key[2] in KIND_RANGE:
                self.rg.arr[nm] = KIND_RANGE[key[2]]
            st.heap[key] = a
        return a

    def _load_heap(self, st, p, kind):
        key, idx = self.heap_key(p, kind)
        a = self.heap_arr(st, key)
        v = z3.Select(a, iv(p.base))
        if idx is not None:
            v = z3.Select(v, iv(idx))
        v = z3.simplify(v)
        if kind in KIND_RANGE and not z3.is_int_value(v) and (kind not in ('ptr', 'data') or self._initial(v)):
            self.assume_range(st, v, KIND_RANGE[kind])
        if z3.is_int_value(v):
            v = v.as_long()
        if kind == 'ptr':
            return self.ref_to_ptr(v)
        return v

    def _initial(self, v):
        while z3.is_app_of(v, z3.Z3_OP_SELECT):
            v = v.arg(0)
        return z3.is_const(v) and v.decl().name().startswith('H_')

    def newref(self):
        self.nref = getattr(self, 'nref', 1 << 40) + 1
        return self.nref

    def _store_heap(self, st, p, kind, v):
        key, idx = self.heap_key(p, kind)
        a = self.heap_arr(st, key)
        if isinstance(v, Ptr):
            v = self.ptr_to_ref(v)
        if isinstance(v, Poison):
            v = self.fresh_kind('undef', kind)
        v = self._toint(v)
        if idx is None:
            st.heap[key] = z3.Store(a, iv(p.base), iv(v))
        else:
            st.heap[key] = z3.Store(a, iv(p.base), z3.Store(z3.Select(a, iv(p.base)), iv(idx), iv(v)))

    def ptr_to_ref(self, p):
        if isinstance(p, Fn):
            return self.fn_ref(p)
        if isinstance(p.base, Obj):
            if p.c == 0 and p.s == 0:
                self.exc_objs[-p.base.id] = p.base
                return -p.base.id
            key = (p.base.id, p.c)
            if p.s == 0:
                r = -(10 ** 9) - p.base.id * 10 ** 6 - p.c
                self.exc_objs[r] = (p.base, p.c)
                return r
            raise Unsupported('interior pointer stored')
        if p.s == 0 and p.c == 0:
            return p.base
        if p.s != 0:
            f = self.fun('elemaddr%d' % p.s if p.c == 0 else 'elemaddr%d+%d' % (p.s, p.c), INT, INT, INT, rng=(1, None))
            return f(iv(p.base), iv(p.i))
        raise Unsupported('interior pointer stored')

    def fn_ref(self, f):
        ids = self.__dict__.setdefault('fnids', {})
        if f.name not in ids:
            ids[f.name] = -(10 ** 12) - len(ids)
            self.exc_objs[ids[f.name]] = f
        return ids[f.name]

    def ref_to_ptr(self, v):
        if isz(v) and z3.is_int_value(v):
            v = v.as_long()
        if isinstance(v, int):
            if v == 0:
                return NULL
            if v < 0:
                o = self.exc_objs.get(v)
                if isinstance(o, Fn):
                    return o
                if isinstance(o, tuple):
                    return Ptr(o[0], o[1])
                if o is None:
                    raise Unsupported('unknown object reference')
                return Ptr(o)
            return Ptr(v)
        if z3.is_app(v) and v.decl().name().startswith('elemaddr'):
            s, _, c = v.decl().name()[8:].partition('+')
            return Ptr(v.arg(0), int(c or 0), int(s), v.arg(1))
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            raise Unsupported('pointer choice in memory')
        return Ptr(v)

    def store_raw(self, st, p, nbytes, v, kind):
        if isinstance(p, Poison) or not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        if p.isnull():
            raise Unsupported('store to null')
        if isinstance(p.base, Obj):
            obj = p.base
            if p.s == 0 or not isz(p.i):
                off = p.c + p.s * p.i
                os = st.o(obj)
                for start, rg in os.regs.items():
                    if self._in_region(rg, start, off):
                        q, r = divmod(off - start, rg.stride)
                        if r == 0 and rg.stride == nbytes:
                            os.regs[start] = Region(rg.stride, z3.Store(rg.arr, q, iv(self._toint(v))), rg.n)
                            return
                        raise Unsupported('partial region store')
                for o2 in [o2 for o2, (_, n) in os.cells.items() if o2 < off + nbytes and off < o2 + n and o2 != off]:
                    v2, n2 = os.cells[o2]
                    if off <= o2 and o2 + n2 <= off + nbytes:
                        del os.cells[o2]
                    elif isinstance(v2, Poison):
                        del os.cells[o2]
                    elif not isinstance(v2, (Ptr, Fn)):
                        self._split(st, obj, o2)
                        for k in range(off, off + nbytes):
                            os.cells.pop(k, None)
                    else:
                        raise Unsupported('overlapping store')
                if off in os.cells and os.cells[off][1] > nbytes:
                    v2, n2 = os.cells[off]
                    if isinstance(v2, Poison):
                        pass
                    elif isinstance(v2, (Ptr, Fn)):
                        raise Unsupported('overlapping store')
                    else:
                        self._split(st, obj, off)
                        for k in range(off, off + nbytes):
                            os.cells.pop(k, None)
                os.cells[off] = (v, nbytes)
                return
            return self._store_region(st, obj, p, nbytes, v)
        if isinstance(p.base, CStr):
            raise Unsupported('store to string characters')
        self._store_heap(st, p, kind, v)

    def _split(self, st, obj, off):
        os = st.o(obj)
        v, n = os.cells.pop(off)
        v = self._toint(v)
        for k in range(n):
            if isz(v):
                os.cells[off + k] = (self.wrap(s_simp(v / iv(1 << (8 * k))), 8), 1)
            else:
                os.cells[off + k] = ((v >> (8 * k)) & 255, 1)

    # ghosts
    def gload(self, st, p, kind):
        if isinstance(p, Poison):
            raise Unsupported('ghost of undefined pointer')
        if isinstance(p.base, Obj):
            if p.s and isz(p.i):
                return self._load_heap(st, Ptr(iv(-p.base.id), p.c, p.s, p.i), kind)
            off = p.c + p.s * p.i
            os = st.ro(p.base)
            v = os.ghosts.get((off, kind))
            if v is None:
                for (o2, n, src, snap) in reversed(os.lazy):
                    if o2 <= off < o2 + n:
                        v = self.gload(snap, src.add(off - o2), kind)
                        break
                else:
                    if p.base.fresh and not p.base.zero:
                        raise Unsupported('ghost %s of uninitialised %r+%d' % (kind, p.base, off))
                    v = self._init_cell(st, p.base, off, kind)
                st.o(p.base).ghosts[(off, kind)] = v
            return v
        if p.isnull():
            raise Unsupported('ghost of null')
        return self._load_heap(st, p, kind)

    def ghas(self, st, p, kind):
        if isinstance(p.base, Obj) and not isz(p.i):
            return (p.c + p.s * p.i, kind) in st.ro(p.base).ghosts
        return True

    def gstore(self, st, p, kind, v):
        if kind == 'str' and self.opts.get('on_string'):
            t = self.opts['on_string'](self, st, v)
            v = v if t is None else t
        if isinstance(p.base, Obj):
            if p.s and isz(p.i):
                return self._store_heap(st, Ptr(iv(-p.base.id), p.c, p.s, p.i), kind, v)
            st.o(p.base).ghosts[(p.c + p.s * p.i, kind)] = v
            return
        self._store_heap(st, p, kind, v)

    def memcpy(self, st, dst, src, n):
        if isz(n):
            return self.memcpy_sym(st, dst, src, n)
        if n == 0:
            return
        if isinstance(dst.base, Obj) and not isz(dst.i):
            doff = dst.c + dst.s * dst.i
            if dst.s in (0, 1) and src.s in (0, 1) and any(rg.stride == 1 and self._in_region(rg, s0, doff) and (rg.n is None or doff + n <= s0 + rg.n)
                                                           for s0, rg in st.ro(dst.base).regs.items()):
                return self.memcpy_sym(st, dst, src, z3.IntVal(n))  # into an array of bytes
            if isinstance(src.base, Obj) and not isz(src.i):
                soff = src.c + src.s * src.i
                sos = st.ro(src.base)
                if any(self._in_region(rg, s0, soff) or soff <= s0 < soff + n for s0, rg in sos.regs.items()) and \
                        not (src.base.const is not None):
                    return self._memcpy_regions(st, dst, doff, src, soff, n)
                cells = [(o, c) for o, c in sos.cells.items() if soff <= o < soff + n]
                gh = [(k, v) for k, v in sos.ghosts.items() if soff <= k[0] < soff + n]
                lz = [z for z in sos.lazy if z[0] < soff + n and soff < z[0] + z[1]]
                if src.base.const is not None:
                    for k in self._const_cells(src.base, soff, n):
                        cells.append(k)
                elif (not src.base.fresh or src.base.zero) and not lz:
                    snap = st.copy()
                    lz = [(soff, n, Ptr(src.base, soff), snap)]
                os = st.o(dst.base)
                self._kill(os, doff, n)
                for o, c in cells:
                    os.cells[o - soff + doff] = c
                for k, v in gh:
                    os.ghosts[(k[0] - soff + doff, k[1])] = v
                for (o2, n2, sp, snap) in lz:
                    # clip to the copied range
                    a = max(o2, soff)
                    b = min(o2 + n2, soff + n)
                    os.lazy.append((a - soff + doff, b - a, sp.add(a - o2), snap))
                return
            os = st.o(dst.base)
            self._kill(os, doff, n)
            os.lazy.append((doff, n, src, st.copy()))
            return
        # to the symbolic heap / region: copy the known cells
        if isinstance(src.base, Obj) and not isz(src.i):
            soff = src.c + src.s * src.i
            sos = st.ro(src.base)
            if sos.lazy or not src.base.fresh:
                raise Unsupported('struct copy to symbolic memory from symbolic object')
            for o, (v, sz) in list(sos.cells.items()):
                if soff <= o < soff + n:
                    kind = 'ptr' if isinstance(v, (Ptr, Fn)) else 'i%d' % (8 * sz)
                    if isinstance(v, Poison):
                        continue
                    self.store_raw(st, dst.add(o - soff), sz, v, kind)
            for (o, k), v in list(sos.ghosts.items()):
                if soff <= o < soff + n:
                    self.gstore(st, dst.add(o - soff), k, v)
            return
        # heap to heap: every known key
        for key in list(st.heap):
            s, r, kind = key
            if src.s == s and dst.s == s and s:
                if r >= src.c % s and r < src.c % s + n:
                    v = self._load_heap(st, Ptr(src.base, src.c - src.c % s + r, s, src.i), kind)
                    self._store_heap(st, Ptr(dst.base, dst.c - dst.c % s + r, s, dst.i), kind, v)
            else:
                raise Unsupported('heap copy')

    def _const_cells(self, obj, off, n):
        d = obj.const
        if isinstance(d, bytes):
            return [(o, (d[o] if o < len(d) else 0, 1)) for o in range(off, off + n)]
        out = []
        for o, v in d.items():
            if off <= o < off + n:
                sz = d.get(('sz', o), 8)
                out.append((o, (v, sz)))
        have = set()
        for o, (v, sz) in out:
            have.update(range(o, o + sz))
        for o in range(off, off + n):
            if o not in have:
                out.append((o, (0, 1)))
        return out

    def _memcpy_regions(self, st, dst, doff, src, soff, n):
        sos = st.ro(src.base)
        os = st.o(dst.base)
        self._kill(os, doff, n)
        for s0, rg in list(sos.regs.items()):
            if rg.n is not None and soff <= s0 and s0 + rg.stride * rg.n <= soff + n:
                os.regs[s0 - soff + doff] = Region(rg.stride, rg.arr, rg.n)
            elif self._in_region(rg, s0, soff) or soff <= s0 < soff + n:
                # bytes of a longer array
                if soff >= s0 and (soff - s0) % rg.stride == 0 and n % rg.stride == 0:
                    b = (soff - s0) // rg.stride
                    for k in range(n // rg.stride):
                        os.cells[doff + k * rg.stride] = (s_simp(z3.Select(rg.arr, b + k)), rg.stride)
                else:
                    raise Unsupported('region copy')
        for o, c in list(sos.cells.items()):
            if soff <= o < soff + n:
                os.cells[o - soff + doff] = c
        for k, v in list(sos.ghosts.items()):
            if soff <= k[0] < soff + n:
                os.ghosts[(k[0] - soff + doff, k[1])] = v

    def _kill(self, os, off, n):
        for o in [o for o in os.cells if off <= o < off + n]:
            del os.cells[o]
        for k in [k for k in os.ghosts if off <= k[0] < off + n]:
            del os.ghosts[k]
        for o in [o for o, rg in os.regs.items() if off <= o and rg.n is not None and o + rg.stride * rg.n <= off + n]:
            del os.regs[o]
        os.lazy[:] = [z for z in os.lazy if not (off <= z[0] and z[0] + z[1] <= off + n)]

    def byte_reader(self, st, p):
        """function index -> byte for a pointer to bytes"""
        if isinstance(p.base, CStr):
            seq = p.base.seq
            b = add(p.c, p.i) if p.s else p.c
            return lambda j: seq[iv(b) + j]
        if isinstance(p.base, Obj):
            q = Ptr(p.base, p.c, 1, p.i if p.s == 1 else 0)
            if p.s not in (0, 1):
                raise Unsupported('byte view')
            start, rg = self.region_of(st, p.base, q)
            if rg.stride != 1:
                raise Unsupported('byte view')
            b = add(q.i, p.c - start)
            return lambda j: z3.Select(rg.arr, iv(b) + j)
        q = Ptr(p.base, p.c, 1, p.i if p.s == 1 else 0)
        if p.s not in (0, 1):
            raise Unsupported('byte view')
        key, idx = self.heap_key(q, 'i8')
        a = z3.Select(self.heap_arr(st, key), iv(p.base))
        return lambda j: z3.Select(a, iv(idx) + j)

    def in_alloc(self, st, p, n):
        """access stays inside memory of symbolic size"""
        if isinstance(p.base, Obj) and p.base.alloc is not None:
            off = iv(add(p.c, mul(p.s, p.i) if p.s else 0))
            self.prove(st, z3.And(off >= 0, off + iv(n) <= iv(p.base.alloc)), 'a copy stays inside the memory it is given')

    def memcpy_sym(self, st, dst, src, n):
        """copy of n bytes (n symbolic)"""
        self.in_alloc(st, dst, n)
        self.in_alloc(st, src, n)
        rd = self.byte_reader(st, src)
        j = z3.Int('j')
        if dst.s not in (0, 1) or src.s not in (0, 1):
            raise Unsupported('symbolic copy of structures')
        if isinstance(dst.base, Obj):
            q = Ptr(dst.base, dst.c, 1, dst.i if dst.s == 1 else 0)
            start, rg = self.region_of(st, dst.base, q)
            if rg.stride != 1:
                raise Unsupported('byte view')
            b = add(q.i, dst.c - start)
            old = rg.arr
            new = z3.Lambda([j], z3.If(z3.And(j >= iv(b), j < iv(b) + n), rd(j - iv(b)), z3.Select(old, j)))
            arr = self.fresh('mem', z3.ArraySort(INT, INT))
            self.rg.arr[arr.decl().name()] = (0, 255)
            st.facts.append(z3.ForAll([j], z3.Select(arr, j) == z3.If(z3.And(j >= iv(b), j < iv(b) + n), rd(j - iv(b)),
                                                                    z3.Select(old, j)), patterns=[z3.Select(arr, j)]))
            st.o(dst.base).regs[start] = Region(1, arr, rg.n)
            return
        q = Ptr(dst.base, dst.c, 1, dst.i if dst.s == 1 else 0)
        key, idx = self.heap_key(q, 'i8')
        a = self.heap_arr(st, key)
        old = z3.Select(a, iv(dst.base))
        arr = self.fresh('mem', z3.ArraySort(INT, INT))
        st.facts.append(z3.ForAll([j], z3.Select(arr, j) == z3.If(z3.And(j >= iv(idx), j < iv(idx) + n), rd(j - iv(idx)),
                                                                z3.Select(old, j)), patterns=[z3.Select(arr, j)]))
        st.heap[key] = z3.Store(a, iv(dst.base), arr)

    def memset(self, st, dst, v, n):
        if isz(n):
            if not isinstance(dst.base, Obj) or dst.s not in (0, 1):
                raise Unsupported('memset size')
            j = z3.Int('j')
            self.in_alloc(st, dst, n)
            q = Ptr(dst.base, dst.c, 1, dst.i if dst.s == 1 else 0)
            start, rg = self.region_of(st, dst.base, q)
            if rg.stride != 1:
                raise Unsupported('byte view')
            b = iv(add(q.i, dst.c - start))
            arr = self.fresh('mem', z3.ArraySort(INT, INT))
            self.rg.arr[arr.decl().name()] = (0, 255)
            st.facts.append(z3.ForAll([j], z3.Select(arr, j) == z3.If(z3.And(j >= b, j < b + n), iv(v), z3.Select(rg.arr, j)),
                                      patterns=[z3.Select(arr, j)]))
            st.o(dst.base).regs[start] = Region(1, arr, rg.n)
            return
        if not isinstance(dst.base, Obj) or isz(dst.i):
            if isinstance(dst.base, Obj):
                raise Unsupported('memset')
            raise Unsupported('memset of symbolic memory')
        off = dst.c + dst.s * dst.i
        os = st.o(dst.base)
        self._kill(os, off, n)
        if n > 64:
            if n == dst.base.size or True:
                os.regs[off] = Region(1, z3.K(INT, iv(v)), n)
                if v == 0:
                    del os.regs[off]
                    z = Obj(dst.base.name + '.zero', n, fresh=False, zero=True)
                    os.lazy.append((off, n, Ptr(z), st.copy()))
                return
        # zero bytes, loaded at any size
        if v == 0:
            z = Obj(dst.base.name + '.zero', n, fresh=False, zero=True)
            os.lazy.append((off, n, Ptr(z), st.copy()))
        else:
            for k in range(n):
                os.cells[off + k] = (v, 1)

    # ------------------------------------------------------------------ typed load/store
    def tkind(self, t):
        if t.k == 'ptr':
            return 'ptr', 8
        if t.k == 'int':
            return 'i%d' % (8 if t.a == 1 else t.a), max(1, (t.a + 7) // 8)
        if t.k == 'fp':
            return 'fp', self.mod.size(t)
        raise Unsupported('load of %r' % t)

    def load(self, st, p, ty):
        ty = self.mod.resolve(ty)
        if ty.k in ('struct', 'arr'):
            if ty.k == 'struct':
                return Agg([self.load(st, p.add(self.mod.offset(ty, i)[0]), self.mod.offset(ty, i)[1])
                            for i in range(len(ty.a))])
            return Agg([self.load(st, p.add(i * self.mod.size(ty.b)), ty.b) for i in range(ty.a)])
        kind, n = self.tkind(ty)
        v = self.load_raw(st, p, n, kind)
        if ty.k == 'int' and ty.a == 1:
            return self.to_bool(v)
        if ty.k == 'int' and isz(v) and z3.is_bool(v):
            return z3.If(v, iv(1), iv(0))
        if ty.k == 'int' and isinstance(v, bool):
            return int(v)
        if ty.k == 'ptr' and not isinstance(v, (Ptr, Fn, Poison)):
            return self.ref_to_ptr(v)
        return v

    def to_bool(self, v):
        if isinstance(v, (bool, Poison)):
            return v
        if isinstance(v, int):
            return bool(v & 1)
        if z3.is_bool(v):
            return v
        if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
            a, b = v.arg(1).as_long(), v.arg(2).as_long()
            if (a, b) == (1, 0):
                return v.arg(0)
            if (a, b) == (0, 1):
                return neg(v.arg(0))
        lo, hi = self.rg.of(v)
        if lo is not None and hi is not None and 0 <= lo and hi <= 1:
            return eq(v, 1)
        return b_simp(v % 2 == 1)

    def store(self, st, p, v, ty):
        ty = self.mod.resolve(ty)
        if ty.k in ('struct', 'arr'):
            if isinstance(v, Poison):
                return
            if ty.k == 'struct':
                for i in range(len(ty.a)):
                    o, t = self.mod.offset(ty, i)
                    self.store(st, p.add(o), v.v[i], t)
            else:
                for i in range(ty.a):
                    self.store(st, p.add(i * self.mod.size(ty.b)), v.v[i], ty.b)
            return
        kind, n = self.tkind(ty)
        if ty.k == 'int' and ty.a == 1 and isinstance(v, bool):
            v = int(v)
        self.store_raw(st, p, n, v, kind)

    # ------------------------------------------------------------------ arithmetic
    def wrap(self, e, bits):
        if isinstance(e, bool):
            return int(e)
        if not isz(e):
            return e % (1 << bits)
        lo, hi = self.rg.of(e)
        m = 1 << bits
        if lo is not None and hi is not None:
            if lo >= 0 and hi < m:
                return e
            if lo >= -m and hi < 2 * m:
                if lo >= 0:
                    return z3.If(e >= m, e - m, e)
                if hi < m:
                    return z3.If(e < 0, e + m, e)
                return z3.If(e < 0, e + m, z3.If(e >= m, e - m, e))
        return s_simp(e % iv(m))

    def wrap_st(self, st, e, bits):
        """wrap, using the path condition to avoid case splits"""
        w = self.wrap(e, bits)
        if isz(w) and isz(e) and w is not e and not w.eq(e):
            m = 1 << bits
            if self.entails(st, z3.And(e >= 0, e < m)):
                return e
            if self.entails(st, z3.And(e >= -m, e < 0)):
                return s_simp(e + m)
            if self.entails(st, z3.And(e >= m, e < 2 * m)):
                return s_simp(e - m)
        return w

    def sgn(self, e, bits):
        if isinstance(e, bool):
            e = int(e)
        h = 1 << (bits - 1)
        if not isz(e):
            return e - 2 * h if e >= h else e
        lo, hi = self.rg.of(e)
        if hi is not None and hi < h:
            return e
        if lo is not None and lo >= h:
            return s_simp(e - 2 * h)
        # If(x<0, x+2^n, x) pattern gives x back
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            c, a, b = e.children()
            la, ha = self.rg.of(a)
            lb, hb = self.rg.of(b)
            s = s_simp(a - b) if z3.is_int(a) else None
            if s == 2 * h and lb is not None and hb is not None and lb >= -h and hb < h:
                return b
        return z3.If(e >= h, e - 2 * h, e)

    def binop(self, st, op, ty, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            return POISON
        bits = ty.a
        if ty.k != 'int':
            raise Unsupported('floating point')
        if bits == 1:
            a, b = self.to_bool(a), self.to_bool(b)
            if op == 'xor':
                if isinstance(a, bool) and isinstance(b, bool):
                    return a != b
                if isinstance(b, bool):
                    return neg(a) if b else a
                if isinstance(a, bool):
                    return neg(b) if a else b
                return z3.Xor(a, b)
            if op == 'and':
                return conj(a, b)
            if op == 'or':
                return disj(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            raise Unsupported('pointer arithmetic as integer')
        a, b = self._toint(a), self._toint(b)
        m = 1 << bits
        if op == 'add':
            if not isz(b) and b >= m // 2:
                return self.wrap_st(st, sub(a, m - b), bits)
            if not isz(a) and a >= m // 2:
                return self.wrap_st(st, sub(b, m - a), bits)
            return self.wrap_st(st, add(a, b), bits)
        if op == 'sub':
            return self.wrap_st(st, sub(a, b), bits)
        if op == 'mul':
            return self.wrap_st(st, mul(a, b), bits)
        if op in ('udiv', 'urem'):
            if not isz(a) and not isz(b) and b:
                return a // b if op == 'udiv' else a % b
            if not isz(b) and b:
                return s_simp(iv(a) / iv(b)) if op == 'udiv' else s_simp(iv(a) % iv(b))
            return s_simp(iv(a) / iv(b)) if op == 'udiv' else s_simp(iv(a) % iv(b))
        if op in ('sdiv', 'srem'):
            x, y = self.sgn(a, bits), self.sgn(b, bits)
            if not isz(x) and not isz(y) and y:
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return self.wrap(q if op == 'sdiv' else x - q * y, bits)
            if not isz(y) and y > 0:
                lo, hi = self.rg.of(x)
                # exact multiples: (k*y) sdiv y
                if (lo is not None and lo >= 0) or self.entails(st, iv(x) >= 0):
                    return s_simp(iv(x) / iv(y)) if op == 'sdiv' else s_simp(iv(x) % iv(y))
                q = z3.If(iv(x) >= 0, iv(x) / iv(y), -((-iv(x)) / iv(y)))
                return self.wrap(q if op == 'sdiv' else iv(x) - q * y, bits)
            raise Unsupported('signed division')
        if op == 'shl':
            if isz(b):
                raise Unsupported('shift by symbolic amount')
            return self.wrap(mul(a, 1 << b), bits)
        if op == 'lshr':
            if isz(b):
                raise Unsupported('shift by symbolic amount')
            return a >> b if not isz(a) else s_simp(a / iv(1 << b))
        if op == 'ashr':
            if isz(b):
                raise Unsupported('shift by symbolic amount')
            x = self.sgn(a, bits)
            return self.wrap(x >> b if not isz(x) else s_simp(x / iv(1 << b)), bits)
        if not isz(a) and not isz(b):
            return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
        if not isz(a):
            a, b = b, a
        if not isz(b):
            return self.bitconst(op, a, b, bits)
        if op in ('or', 'xor', 'and'):
            za, zb = self.tz(a), self.tz(b)
            la, ha = self.rg.of(a)
            lb, hb = self.rg.of(b)
            if ha is not None and ha < (1 << zb) or hb is not None and hb < (1 << za):
                return 0 if op == 'and' else add(a, b)
            for x, z in ((a, zb), (b, za)):
                if 0 < z < 64 and self.entails(st, iv(x) < (1 << z)):
                    return 0 if op == 'and' else add(a, b)
            w = bits
            for k in (4, 8, 16):
                if k < bits and self.entails(st, z3.And(iv(a) < (1 << k), iv(b) < (1 << k))):
                    w = k
                    break
            if w <= 16:
                r = 0
                for k in range(w):
                    x, y = iv(a) / (1 << k) % 2, iv(b) / (1 << k) % 2
                    t = z3.If(z3.And(x == 1, y == 1), 1, 0) if op == 'and' else \
                        z3.If(z3.Or(x == 1, y == 1), 1, 0) if op == 'or' else z3.If(x != y, 1, 0)
                    r = add(r, mul(t, 1 << k))
                return r
            if self.opts.get('uf_bits'):
                x, y = sorted((iv(a), iv(b)), key=lambda e: e.get_id())
                r = self.fun('bits.%s%d' % (op, bits), INT, INT, INT)(x, y)
                st.facts.append(r == self.fun('bits.%s%d' % (op, bits), INT, INT, INT)(y, x))
                self.assume_range(st, r, (0, 2 ** bits - 1))
                return r
        raise Unsupported('bit operation on symbolic values')

    def tz(self, e):
        """number of known trailing zero bits"""
        if not isz(e):
            return 64 if e == 0 else (e & -e).bit_length() - 1
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            return sum(self.tz(c.as_long() if z3.is_int_value(c) else c) for c in e.children())
        if k == z3.Z3_OP_ADD:
            return min(self.tz(c.as_long() if z3.is_int_value(c) else c) for c in e.children())
        if k == z3.Z3_OP_ITE:
            return min(self.tz(c.as_long() if z3.is_int_value(c) else c) for c in e.children()[1:])
        if k == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)):
            m = e.arg(1).as_long()
            if m & (m - 1) == 0:
                return min(self.tz(e.arg(0)), m.bit_length() - 1)
        if z3.is_int_value(e):
            return self.tz(e.as_long())
        return 0

    def bitconst(self, op, a, b, bits):
        lo, hi = self.rg.of(a)
        full = (1 << bits) - 1
        if op == 'and':
            if b == 0:
                return 0
            if b == full:
                return a
            # contiguous runs of ones
            r = 0
            k = 0
            while k < bits:
                if (b >> k) & 1:
                    e = k
                    while e < bits and (b >> e) & 1:
                        e += 1
                    part = a if k == 0 else s_simp(a / iv(1 << k))
                    if e < bits and not (hi is not None and hi < (1 << e)):
                        part = s_simp(part % iv(1 << (e - k)))
                    r = add(r, mul(part, 1 << k))
                    k = e
                else:
                    k += 1
            return r
        if op == 'or':
            if b == 0:
                return a
            x = self.bitconst('and', a, b, bits)
            return add(sub(a, x), b)
        if op == 'xor':
            if b == 0:
                return a
            if b == full:
                return sub(full, a)
            x = self.bitconst('and', a, b, bits)
            return add(sub(a, mul(x, 2)), b)
        raise Unsupported(op)

    def ptr_eq(self, st, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('comparison of undefined pointer')
        if isinstance(a, Fn) or isinstance(b, Fn):
            if isinstance(a, Fn) and isinstance(b, Fn):
                return a.name == b.name
            o = b if isinstance(a, Fn) else a
            if o.isnull():
                return False
            f = a if isinstance(a, Fn) else b
            if isz(o.base):
                return eq(o.base, self.fn_ref(f))
            return False
        ab, bb = a.base, b.base
        if isinstance(ab, Obj) or isinstance(bb, Obj):
            if ab is bb:
                return self._off_eq(a, b)
            if isinstance(ab, Obj) and isinstance(bb, Obj):
                return False
            o, s = (a, b) if isinstance(ab, Obj) else (b, a)
            if s.isnull():
                return False
            if isinstance(s.base, CStr):
                return False
            if o.base.fresh:
                lo, _ = self.rg.of(s.base)
                if lo is not None and lo >= 0:
                    return False
            if s.s or s.c or o.s:
                if not o.base.fresh:
                    raise Unsupported('aliasing question')
                return False
            return eq(s.base, self.ptr_to_ref(o))
        if isinstance(ab, CStr) or isinstance(bb, CStr):
            if isinstance(ab, CStr) and isinstance(bb, CStr) and ab.seq.eq(bb.seq):
                return self._off_eq(a, b)
            if a.isnull() or b.isnull():
                return False
            raise Unsupported('comparison of string pointers')
        if a.isnull() and b.isnull():
            return True
        if a.isnull() or b.isnull():
            p = b if a.isnull() else a
            if p.c or p.s:
                return False
            return eq(p.base, 0)
        same = eq(ab, bb)
        if same is True:
            return self._off_eq(a, b)
        if a.s == b.s and a.c == b.c and a.s == 0:
            return same
        return conj(same, self._off_eq(a, b))

    def _off_eq(self, a, b):
        if a.s == b.s:
            if a.s == 0:
                return a.c == b.c
            d, r = divmod(b.c - a.c, a.s)
            if r:
                return False
            return eq(sub(a.i, b.i), d)
        return eq(add(a.c, mul(a.i, a.s)), add(b.c, mul(b.i, b.s)))

    def ptr_diff(self, a, b):
        if a.isnull() and b.isnull():
            return 0
        same = (a.base is b.base) or (isz(a.base) and isz(b.base) and a.base.eq(b.base)) or \
               (isinstance(a.base, int) and isinstance(b.base, int) and a.base == b.base)
        if isinstance(a.base, CStr) and isinstance(b.base, CStr) and a.base.seq.eq(b.base.seq):
            same = True
        if not same:
            raise Unsupported('difference of unrelated pointers')
        if a.s == b.s:
            return add(a.c - b.c, mul(sub(a.i, b.i), a.s))
        return sub(add(a.c, mul(a.i, a.s)), add(b.c, mul(b.i, b.s)))

    def icmp(self, st, pred, ty, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('comparison of undefined value')
        if ty.k == 'ptr':
            if pred in ('eq', 'ne'):
                r = self.ptr_eq(st, a, b)
                return r if pred == 'eq' else neg(r)
            d = self.ptr_diff(a, b)
            return {'ult': lt(d, 0), 'ule': le(d, 0), 'ugt': lt(0, d), 'uge': le(0, d)}[pred]
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            raise Unsupported('pointer compared as integer')
        if ty.a == 1:
            a, b = self.to_bool(a), self.to_bool(b)
            if pred in ('eq', 'ne'):
                r = b_simp(bv(a) == bv(b))
                return r if pred == 'eq' else neg(r)
        a, b = self._toint(a), self._toint(b)
        if pred == 'eq':
            return eq(a, b)
        if pred == 'ne':
            return neg(eq(a, b))
        if pred[0] == 's':
            a, b = self.sgn(a, ty.a), self.sgn(b, ty.a)
        p = pred[1:]
        if p == 'lt':
            return lt(a, b)
        if p == 'le':
            return le(a, b)
        if p == 'gt':
            return lt(b, a)
        return le(b, a)

    # ------------------------------------------------------------------ values
    def glob(self, name):
        name = self.mod.aliases.get(name, name)
        if name in self.globals:
            return self.globals[name]
        if name in self.mod.funcs:
            r = Fn(name)
        else:
            gi = self.mod.global_init(name)
            if gi is None:
                r = Ptr(Obj('global ' + name, None, fresh=False))
            else:
                t, init, const = gi
                size = None
                try:
                    size = self.mod.size(t)
                except Exception:
                    pass
                o = Obj('global ' + name, size, fresh=False)
                if const and init is not None:
                    try:
                        o.const = self.const_bytes(t, init)
                    except Unsupported:
                        o.const = None
                elif init is not None and init[0] == 'zero' and name.startswith('@.'):
                    o.zero = True
                r = Ptr(o)
        self.globals[name] = r
        return r

    def const_bytes(self, t, init):
        t = self.mod.resolve(t)
        if init[0] == 'cstr':
            return init[1]
        if init[0] == 'zero':
            return bytes(self.mod.size(t))
        d = {}
        self._const_fill(t, init, 0, d)
        if all(isinstance(v, int) for k, v in d.items() if not isinstance(k, tuple)):
            b = bytearray(self.mod.size(t))
            for k, v in d.items():
                if isinstance(k, tuple):
                    continue
                n = d[('sz', k)]
                b[k:k + n] = v.to_bytes(n, 'little')
            return bytes(b)
        return d

    def _const_fill(self, t, init, off, d):
        t = self.mod.resolve(t)
        k = init[0]
        if k == 'int':
            d[off] = init[1]
            d[('sz', off)] = self.mod.size(t)
        elif k == 'null' or k == 'undef':
            d[off] = NULL if t.k == 'ptr' else 0
            d[('sz', off)] = self.mod.size(t)
        elif k == 'zero':
            if t.k == 'struct':
                for i in range(len(t.a)):
                    o, tt = self.mod.offset(t, i)
                    self._const_fill(tt, init, off + o, d)
            elif t.k == 'arr':
                for i in range(t.a):
                    self._const_fill(t.b, init, off + i * self.mod.size(t.b), d)
            elif t.k == 'ptr':
                d[off] = NULL
                d[('sz', off)] = 8
            else:
                d[off] = 0
                d[('sz', off)] = self.mod.size(t)
        elif k == 'cstr':
            for i, b in enumerate(init[1]):
                d[off + i] = b
                d[('sz', off + i)] = 1
        elif k == 'agg':
            if t.k == 'arr':
                es = self.mod.size(t.b)
                for i, (tt, v) in enumerate(init[1]):
                    self._const_fill(tt, v, off + i * es, d)
            else:
                for i, (tt, v) in enumerate(init[1]):
                    o, _ = self.mod.offset(t, i)
                    self._const_fill(tt, v, off + o, d)
        elif k == 'glob':
            d[off] = self.glob(init[1])
            d[('sz', off)] = 8
        elif k == 'cgep':
            d[off] = self.cgep(init, None, None)
            d[('sz', off)] = 8
        else:
            raise Unsupported('constant %r' % (init,))

    def cgep(self, v, st, regs):
        _, bt, base, idx = v
        p = self.val(base, ir.PTR, st, regs)
        return self.gep(st, bt, p, [(t, self.val(x, t, st, regs)) for t, x in idx])

    def val(self, v, ty, st, regs):
        k = v[0]
        if k == 'reg':
            return regs[v[1]]
        if k == 'int':
            return bool(v[1]) if v[2] == 1 else v[1]
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.glob(v[1])
        if k == 'undef':
            t = self.mod.resolve(ty)
            if t.k == 'struct':
                return Agg([POISON] * len(t.a))
            return POISON
        if k == 'zero':
            t = self.mod.resolve(ty)
            if t.k == 'struct':
                return Agg([self.val(v, x, st, regs) for x in t.a])
            if t.k == 'arr':
                return Agg([self.val(v, t.b, st, regs)] * t.a)
            if t.k == 'ptr':
                return NULL
            return 0
        if k == 'agg':
            return Agg([self.val(x, t, st, regs) for t, x in v[1]])
        if k == 'cgep':
            return self.cgep(v, st, regs)
        if k == 'cconv':
            x = self.val(v[3], v[2], st, regs)
            return self.conv(st, v[1], v[2], x, v[4])
        if k == 'cbin':
            return self.binop(st, v[1], v[2], self.val(v[3], v[2], st, regs), self.val(v[4], v[2], st, regs))
        if k == 'fp':
            return POISON
        if k == 'none':
            return None
        raise Unsupported('value %r' % (v,))

    def conv(self, st, op, ty, a, to):
        if isinstance(a, Poison):
            return POISON
        if op in ('bitcast', 'addrspacecast'):
            return a
        if op == 'trunc':
            if to.a == 1:
                return self.to_bool(a)
            return self.wrap(self._toint(a), to.a)
        if op == 'zext':
            if ty.a == 1:
                a = self.to_bool(a)
                return int(a) if isinstance(a, bool) else z3.If(a, iv(1), iv(0))
            return a
        if op == 'sext':
            if ty.a == 1:
                a = self.to_bool(a)
                m = (1 << to.a) - 1
                return (m if a else 0) if isinstance(a, bool) else z3.If(a, iv(m), iv(0))
            s = self.sgn(a, ty.a)
            if isz(s) and self.entails(st, iv(s) >= 0):
                return s
            return self.wrap(s, to.a)
        if op == 'ptrtoint':
            return ('p2i', a)
        if op == 'inttoptr':
            if isinstance(a, tuple):
                return a[1]
            if not isz(a) and a == 0:
                return NULL
            if not isz(a) and 0 < a < 4096:
                return Ptr(a)       # SIG_IGN and the like: never followed
            raise Unsupported('inttoptr')
        raise Unsupported('conversion ' + op)

    def gep(self, st, ty, p, idx):
        if isinstance(p, Poison):
            return POISON
        if isinstance(p, Fn):
            raise Unsupported('gep of function')
        t = ty
        first = True
        for it, i in idx:
            if isinstance(i, Poison):
                return POISON
            if first:
                first = False
                sz = self.mod.size(t)
                p = self.gep_step(p, i, it, sz, st)
                continue
            t = self.mod.resolve(t)
            if t.k == 'struct':
                off, t = self.mod.offset(t, i)
                p = Ptr(p.base, p.c + off, p.s, p.i)
            elif t.k == 'arr':
                sz = self.mod.size(t.b)
                if isinstance(p.base, Obj) and st is not None and isz(i) and not isz(p.i):
                    o = p.c + p.s * p.i
                    self.mkregion(st, p.base, o, sz, t.a)
                    p = Ptr(p.base, o, 0, 0)
                n = t.a
                t = t.b
                p = self.gep_step(p, i, it, sz, st)
            else:
                raise Unsupported('gep into %r' % t)
        return p

    def gep_step(self, p, i, it, sz, st):
        if isinstance(i, tuple):
            raise Unsupported('pointer index')
        i = self.sgn(i, it.a)
        if not isz(i):
            if i == 0:
                return p
            if p.s and p.s == sz:
                return Ptr(p.base, p.c, p.s, add(p.i, i))
            return Ptr(p.base, p.c + i * sz, p.s, p.i)
        if z3.is_app_of(i, z3.Z3_OP_ITE) and st is not None:
            # a sign or wrap case split that the path decides
            for c, x in ((i.arg(0), i.arg(1)), (neg(i.arg(0)), i.arg(2))):
                if self.entails(st, c):
                    i = s_simp(x)
                    break
        if not isz(i):
            return self.gep_step(p, self.wrap(i, it.a), it, sz, st)
        if p.s == 0 or (not isz(p.i) and p.s != sz):
            return Ptr(p.base, p.c + (p.s * p.i if p.s else 0), sz, i)
        if p.s == sz:
            return Ptr(p.base, p.c, sz, add(p.i, i))
        if sz % p.s == 0:
            return Ptr(p.base, p.c, p.s, add(p.i, mul(i, sz // p.s)))
        raise Unsupported('nested symbolic index (%d in %d)' % (sz, p.s))

    # ------------------------------------------------------------------ calls
    def basename(self, name):
        b = self.base.get(name)
        if b is None:
            b = names.base_name(self.mod.demangled(name))
            self.base[name] = b
        return b

    def resolve(self, name):
        h = self.cache.get(name)
        if h is None:
            b = self.basename(name)
            dem = self.mod.demangled(name)
            h = None
            if b in self.contracts:
                h = ('contract', self.contracts[b])
            else:
                for rx, fn in self.models:
                    if rx.fullmatch(b):
                        h = ('model', fn)
                        break
            if h is None:
                f = self.mod.funcs.get(name)
                if f is not None and f.lines is not None:
                    h = ('inline', f)
                else:
                    h = ('none', None)
            self.cache[name] = h
        return h

    def call(self, st, name, args, inst=None):
        """-> list of (state, ('ret', v) | ('exc', typeinfo, ptr))"""
        name = self.mod.aliases.get(name, name)
        kind, h = self.resolve(name)
        if kind == 'contract':
            b = self.basename(name)
            self.contracted[b] = self.contracted.get(b, 0) + 1
            r = h(self, st, args, name)
            if r is not NotImplemented:
                return self._norm(st, r)
            kind = 'retry'
        if kind == 'model':
            r = h(self, st, args, name)
            if r is not NotImplemented:
                b = self.basename(name)
                self.assumed[b] = self.assumed.get(b, 0) + 1
                return self._norm(st, r)
            kind = 'retry'
        if kind in ('inline', 'retry'):
            f = self.mod.funcs.get(name)
            if f is None or f.lines is None:
                raise Unsupported('external function %s' % self.mod.demangled(name))
            return self.run_func(st, f, args)
        raise Unsupported('external function %s' % self.mod.demangled(name))

    def _norm(self, st, r):
        """models return: value (state changed in place) or a list of (state, outcome)"""
        if isinstance(r, list):
            return r
        return [(st, ('ret', r))]

    def run_func(self, st, f, args):
        f.parse()
        b = self.basename(f.name)
        self.inlined[b] = self.inlined.get(b, 0) + 1
        self.depth += 1
        if self.depth > 120:
            raise Unsupported('call depth')
        try:
            regs = {}
            for (t, n, a), v in zip(f.params, args):
                if 'byval' in a:
                    o = Obj('byval ' + n, self.mod.size(a['byval']))
                    self.memcpy(st, Ptr(o), v, self.mod.size(a['byval']))
                    v = Ptr(o)
                regs[n] = v
            res = self.run(st, regs, f, f.entry, None, None)
        finally:
            self.depth -= 1
        out = []
        for r in res:
            if r[0] == 'ret':
                out.append((r[1], ('ret', r[2])))
            elif r[0] == 'exc':
                out.append((r[1], ('exc', r[2], r[3])))
            else:
                raise Unsupported('stray result')
        return out

    # ------------------------------------------------------------------ control flow
    def run(self, st, regs, f, block, prev, loop):
        """execute from block; loop = (header, blocks) stops at its back edges and exits"""
        res = []
        work = [(st, regs, block, prev, True)]
        loops = f.loops()
        while work:
            st, regs, block, prev, start = work.pop()
            if not start:
                if loop is not None and block == loop[0]:
                    res.append(('back', st, regs, prev))
                    continue
                if loop is not None and block not in loop[1]:
                    res.append(('exit', st, regs, block, prev))
                    continue
            lb = loops.get(block)
            if lb is not None and not (start and loop is not None and block == loop[0]) and prev not in lb:
                for r in self.do_loop(st, regs, f, block, prev, lb):
                    if r[0] == 'exit':
                        work.append((r[1], r[2], r[3], r[4], False))
                    else:
                        res.append(r)
                continue
            for r in self.block(st, regs, f, block, prev):
                if r[0] == 'goto':
                    work.append((r[1], r[2], r[3], block, False))
                else:
                    res.append(r)
        return res

    def block(self, st, regs, f, block, prev):
        """one basic block; returns ('goto', st, regs, succ), ('ret', st, v), ('exc', st, ti, ptr)"""
        # phis first, simultaneously
        insts = f.blocks[block]
        upd = {}
        k = 0
        while k < len(insts) and insts[k].op == 'phi':
            d = insts[k].d
            for v, lb in d['inc']:
                if lb == prev:
                    upd[insts[k].res] = self.val(v, d['ty'], st, regs)
                    break
            else:
                raise Unsupported('phi')
            k += 1
        regs.update(upd)
        return self.insts(st, regs, f, insts, k)

    def branch(self, st, regs, cond, a, b):
        if isinstance(cond, Poison):
            raise Unsupported('branch on undefined value')
        if isinstance(cond, bool):
            return [('goto', st, regs, a if cond else b)]
        fa = self.feasible(st, cond)
        fb = self.feasible(st, neg(cond))
        if fa and fb:
            st2 = st.copy()
            r2 = dict(regs)
            st.pc.append(cond)
            st2.pc.append(neg(cond))
            return [('goto', st, regs, a), ('goto', st2, r2, b)]
        if fa:
            return [('goto', st, regs, a)]
        if fb:
            return [('goto', st, regs, b)]
        return []

    def insts(self, st, regs, f, insts, k):
        while True:
            ins = insts[k]
            op = ins.op
            d = ins.d
            self.inst_count += 1
            if op == 'load':
                p = self.val(d['ptr'], ir.PTR, st, regs)
                if self.opts.get('on_load'):
                    self.opts['on_load'](self, st, p, d['ty'], f)
                regs[ins.res] = self.load(st, p, d['ty'])
                if self.opts.get('loaded') and isinstance(regs[ins.res], Ptr):
                    regs[ins.res] = self.opts['loaded'](self, st, p, regs[ins.res])
            elif op == 'store':
                p = self.val(d['ptr'], ir.PTR, st, regs)
                v = self.val(d['val'], d['ty'], st, regs)
                if self.opts.get('on_store'):
                    self.opts['on_store'](self, st, p, v, d['ty'], f)
                self.store(st, p, v, d['ty'])
            elif op == 'getelementptr':
                p = self.val(d['ptr'], ir.PTR, st, regs)
                regs[ins.res] = self.gep(st, d['ty'], p, [(t, self.val(x, t, st, regs)) for t, x in d['idx']])
            elif op == 'alloca':
                size = self.mod.size(d['ty'])
                regs[ins.res] = Ptr(Obj(ins.res, size))
            elif op in ir.BIN:
                a, b = self.val(d['a'], d['ty'], st, regs), self.val(d['b'], d['ty'], st, regs)
                if isinstance(a, tuple) or isinstance(b, tuple):
                    regs[ins.res] = self.p2i_op(st, op, a, b)
                else:
                    regs[ins.res] = self.binop(st, op, d['ty'], a, b)
            elif op == 'icmp':
                a, b = self.val(d['a'], d['ty'], st, regs), self.val(d['b'], d['ty'], st, regs)
                if isinstance(a, tuple) or isinstance(b, tuple):
                    if isinstance(a, tuple) and isinstance(b, tuple):
                        regs[ins.res] = self.icmp(st, d['pred'], ir.PTR, a[1], b[1])
                    elif isinstance(a, tuple) and not isz(b) and b == 0:
                        regs[ins.res] = self.icmp(st, d['pred'], ir.PTR, a[1], NULL)
                    else:
                        raise Unsupported('pointer as integer')
                else:
                    regs[ins.res] = self.icmp(st, d['pred'], d['ty'], a, b)
            elif op in ir.CONV:
                a = self.val(d['a'], d['ty'], st, regs)
                if isinstance(a, tuple) and op != 'inttoptr':
                    if op == 'bitcast' or (op in ('trunc', 'zext') and d['to'].a == 64):
                        regs[ins.res] = a
                    else:
                        raise Unsupported('pointer as integer')
                else:
                    regs[ins.res] = self.conv(st, op, d['ty'], a, d['to'])
            elif op == 'br':
                if d['cond'] is None:
                    return [('goto', st, regs, d['dst'][0])]
                c = self.val(d['cond'], ir.I1, st, regs)
                if not isinstance(c, (bool, Poison)) and not z3.is_bool(c):
                    c = self.to_bool(c)
                return self.branch(st, regs, c, d['dst'][0], d['dst'][1])
            elif op == 'switch':
                return self.switch(st, regs, d)
            elif op == 'ret':
                v = None if d['a'] is None else self.val(d['a'], d['ty'], st, regs)
                return [('ret', st, v)]
            elif op == 'unreachable':
                return []
            elif op == 'resume':
                v = self.val(d['a'], d['ty'], st, regs)
                e = v.v[0]
                e = e.base.exc
                return [('exc', st, e[1], e[2])]
            elif op in ('call', 'invoke'):
                return self.do_call(st, regs, f, insts, k)
            elif op == 'select':
                c = self.val(d['c'], ir.I1, st, regs)
                c = self.to_bool(c) if not isinstance(c, Poison) else c
                a, b = self.val(d['a'], d['ty'], st, regs), self.val(d['b'], d['ty'], st, regs)
                if isinstance(c, Poison):
                    raise Unsupported('select on undefined')
                if isinstance(c, bool):
                    regs[ins.res] = a if c else b
                elif isinstance(a, (Ptr, Fn, Agg, Poison)) or isinstance(b, (Ptr, Fn, Agg, Poison)):
                    if isinstance(a, Ptr) and isinstance(b, Ptr) and self.ptr_eq(st, a, b) is True:
                        regs[ins.res] = a
                    else:
                        out = []
                        for cc, v in ((c, a), (neg(c), b)):
                            if self.feasible(st, cc):
                                st2, r2 = st.copy(), dict(regs)
                                st2.pc.append(cc)
                                r2[ins.res] = v
                                out.extend(self.insts(st2, r2, f, insts, k + 1))
                        return out
                else:
                    regs[ins.res] = ite(c, a, b)
            elif op == 'extractvalue':
                v = self.val(d['a'], d['ty'], st, regs)
                for i in d['idx']:
                    v = v.v[i]
                regs[ins.res] = v
            elif op == 'insertvalue':
                v = self.val(d['a'], d['ty'], st, regs)
                x = self.val(d['v'], d['vty'], st, regs)
                regs[ins.res] = self.insertv(v, d['idx'], x)
            elif op == 'landingpad':
                return self.landing(st, regs, f, insts, k)
            elif op == 'freeze':
                regs[ins.res] = self.val(d['a'], d['ty'], st, regs)
            elif op == 'atomicrmw':
                p = self.val(d['ptr'], ir.PTR, st, regs)
                v = self.val(d['val'], d['ty'], st, regs)
                old = self.load(st, p, d['ty'])
                if d['op'] == 'xchg':
                    new = v
                elif d['op'] in ('add', 'sub', 'and', 'or', 'xor'):
                    new = self.binop(st, d['op'], d['ty'], old, v)
                else:
                    raise Unsupported('atomicrmw ' + d['op'])
                self.store(st, p, new, d['ty'])
                regs[ins.res] = old
            elif op == 'fence':
                pass
            else:
                raise Unsupported('instruction ' + op)
            k += 1

    def p2i_op(self, st, op, a, b):
        if op == 'sub' and isinstance(a, tuple) and isinstance(b, tuple):
            return self.wrap_st(st, self.ptr_diff(a[1], b[1]), 64)
        raise Unsupported('pointer arithmetic as integer')

    def insertv(self, v, idx, x):
        v = Agg(v.v) if isinstance(v, Agg) else Agg([POISON] * (idx[0] + 1))
        if len(idx) == 1:
            while len(v.v) <= idx[0]:
                v.v.append(POISON)
            v.v[idx[0]] = x
        else:
            v.v[idx[0]] = self.insertv(v.v[idx[0]], idx[1:], x)
        return v

    def switch(self, st, regs, d):
        a = self.val(d['a'], d['ty'], st, regs)
        if isinstance(a, Poison):
            raise Unsupported('switch on undefined')
        if not isz(a):
            for v, lb in d['cases']:
                if v == a:
                    return [('goto', st, regs, lb)]
            return [('goto', st, regs, d['default'])]
        out = []
        nots = []
        groups = {}
        for v, lb in d['cases']:
            groups.setdefault(lb, []).append(v)
            nots.append(neg(eq(a, v)))
        for lb, vs in groups.items():
            c = disj(*[eq(a, v) for v in vs])
            if c is False:
                continue
            if self.feasible(st, c):
                st2 = st.copy()
                if c is not True:
                    st2.pc.append(c)
                out.append(('goto', st2, dict(regs), lb))
        c = conj(*nots)
        if self.feasible(st, c):
            st2 = st.copy()
            if c is not True:
                st2.pc.append(c)
            out.append(('goto', st2, dict(regs), d['default']))
        return out

    # ------------------------------------------------------------------ calls and exceptions
    def do_call(self, st, regs, f, insts, k):
        ins = insts[k]
        d = ins.d
        cal = d['callee']
        if cal[0] == 'asm':
            raise Unsupported('inline assembly')
        if cal[0] == 'glob':
            target = self.mod.aliases.get(cal[1], cal[1])
        else:
            t = self.val(cal, ir.PTR, st, regs)
            if isinstance(t, Fn):
                target = t.name
            elif isinstance(t, Ptr) and hasattr(t.base, 'call'):
                target = t.base
            else:
                h = self.opts.get('indirect')
                if h is None:
                    raise Unsupported('indirect call')
                target = h(self, st, t, d, regs)
        if isinstance(target, str) and target.startswith('@llvm.'):
            r = self.intrinsic(st, regs, target, d, ins)
            outs = [(st, ('ret', r))] if not isinstance(r, list) else r
        else:
            args = [self.val(v, t, st, regs) for t, v, _ in d['args']]
            if not isinstance(target, str):
                outs = target.call(self, st, args, target)
            else:
                outs = self.call(st, target, args, ins)
        if len(outs) == 1 and outs[0][1][0] == 'ret' and ins.op == 'call':
            st2, o = outs[0]
            if ins.res is not None:
                regs[ins.res] = o[1]
            return self.insts(st2, regs, f, insts, k + 1)
        res = []
        n = len(outs)
        for st2, o in outs:
            r2 = regs if n == 1 else dict(regs)
            if o[0] == 'ret':
                if ins.res is not None:
                    r2[ins.res] = o[1]
                if ins.op == 'invoke':
                    res.append(('goto', st2, r2, d['normal']))
                else:
                    res.extend(self.insts(st2, r2, f, insts, k + 1))
            elif o[0] == 'exc':
                if ins.op == 'invoke':
                    r2['!exc'] = ('exc', o[1], o[2])
                    res.append(('goto', st2, r2, d['unwind']))
                else:
                    if self._nounwind(f):
                        res.append(('exc', st2, '!terminate', None))
                    else:
                        res.append(('exc', st2, o[1], o[2]))
            elif o[0] == 'stop':
                pass
            else:
                raise Unsupported('outcome %r' % (o,))
        return res

    def _nounwind(self, f):
        return False

    EXC_BASES = {
        '@_ZTISt13runtime_error': ['@_ZTISt9exception'],
        '@_ZTISt11logic_error': ['@_ZTISt9exception'],
        '@_ZTISt12length_error': ['@_ZTISt11logic_error', '@_ZTISt9exception'],
        '@_ZTISt12out_of_range': ['@_ZTISt11logic_error', '@_ZTISt9exception'],
        '@_ZTISt9bad_alloc': ['@_ZTISt9exception'],
        '@_ZTINSt10filesystem7__cxx1116filesystem_errorE': ['@_ZTISt12system_error', '@_ZTISt13runtime_error',
                                                              '@_ZTISt9exception'],
    }

    def exc_match(self, ti, clause):
        if clause == ti:
            return True
        if clause in self.EXC_BASES.get(ti, ()):
            return True
        if ti == '?':
            return None
        return False

    def landing(self, st, regs, f, insts, k):
        """the landing pad instruction: select the clause that handles the exception in flight"""
        lp = insts[k]
        _, ti, eptr = regs['!exc']
        choices = []
        for n, (kind, cv) in enumerate(lp.d['clauses']):
            if kind != 'catch':
                choices.append(0)
                break
            if cv[0] == 'null':
                choices.append(1)
                break
            m = self.exc_match(ti, cv[1])
            if m is True:
                choices.append(self.typeid(cv[1]))
                break
            if m is None:
                choices.append(self.typeid(cv[1]))
        else:
            choices.append(0 if lp.d['cleanup'] else None)
        out = []
        for sel in choices:
            if sel is None:
                out.append(('exc', st, ti, eptr))
                continue
            st2, r2 = (st, regs) if len(choices) == 1 else (st.copy(), dict(regs))
            eo = Obj('exn')
            eo.exc = ('exc', ti, eptr)
            r2[lp.res] = Agg([Ptr(eo), sel])
            out.extend(self.insts(st2, r2, f, insts, k + 1))
        return out

    def typeid(self, name):
        ids = self.__dict__.setdefault('tids', {})
        return ids.setdefault(name, len(ids) + 100)

    def intrinsic(self, st, regs, target, d, ins):
        a = [self.val(v, t, st, regs) for t, v, _ in d['args']]
        n = target[6:]
        if n.startswith('memcpy') or n.startswith('memmove'):
            self.memcpy(st, a[0], a[1], a[2])
            return None
        if n.startswith('memset'):
            self.memset(st, a[0], a[1], a[2])
            return None
        if n.startswith('eh.typeid.for'):
            v = d['args'][0][1]
            return self.typeid(v[1])
        if n.startswith('experimental.noalias') or n.startswith('lifetime') or n.startswith('dbg') or n.startswith('assume'):
            return None
        if n.startswith('trap'):
            return [(st, ('stop',))]
        if n.startswith('umul.with.overflow'):
            m = mul(a[0], a[1])
            b = 64
            w = self.wrap_st(st, m, b)
            ov = neg(lt(m, 1 << b))
            if isz(ov) and self.entails(st, iv(m) < (1 << b)):
                ov = False
            return Agg([w, ov])
        if n.startswith('uadd.with.overflow'):
            m = add(a[0], a[1])
            return Agg([self.wrap_st(st, m, 64), neg(lt(m, 1 << 64))])
        if n.startswith('umin') or n.startswith('umax'):
            c = lt(a[0], a[1])
            return ite(c, a[0], a[1]) if n.startswith('umin') else ite(c, a[1], a[0])
        if n.startswith('objectsize') or n.startswith('expect'):
            return a[0]
        raise Unsupported('intrinsic ' + target)

    # ------------------------------------------------------------------ loops
    def do_loop(self, st, regs, f, h, prev, blocks):
        if self.loop_hook is not None:
            r = self.loop_hook(self, st, regs, f, h, prev, blocks)
            if r is not None:
                return r

        def body(st, regs):
            return self.run(st, regs, f, h, prev_h[0], (h, blocks))
        prev_h = [prev]
        res = []
        cur = (st, regs)
        n = 0
        while True:
            s0, r0 = cur
            st1, r1 = s0.copy(), dict(r0)
            npc = len(s0.pc)
            out = self.run(st1, r1, f, h, prev, (h, blocks))
            backs = [o for o in out if o[0] == 'back']
            if not backs:
                res.extend(out)
                return res
            if len(out) == 1 and len(backs) == 1:
                n += 1
                if n > self.max_unroll:
                    raise Unsupported('loop bound')
                cur = (backs[0][1], backs[0][2])
                prev = backs[0][3]
                continue
            if n < self.unroll_sym or (self.opts.get('unroll') and self.opts['unroll'](self, f)):
                # symbolic unrolling with merging at the header
                n += 1
                if n > self.max_unroll:
                    raise Unsupported('loop bound')
                res.extend(o for o in out if o[0] != 'back')
                ms = self.merge([(o[1], o[2]) for o in backs], s0)
                if ms is None:
                    raise Unsupported('merge')
                cur = ms
                prev = backs[0][3]
                continue
            break
        s0, r0 = cur

        def body(st, regs):
            return self.run(st, regs, f, h, prev, (h, blocks))
        res.extend(self.summarize(s0, r0, body, f, h))
        return res

    def locs(self, a, b):
        """locations of state a that differ in b"""
        out = []
        for obj, os in a.objs.items():
            ob = b.objs.get(obj)
            if ob is os or ob is None:
                continue
            for off, c in ob.cells.items():
                if off not in os.cells:
                    if obj.fresh and not obj.zero or any(l[0] <= off < l[0] + l[1] for l in os.lazy):
                        # first written (or lazily read) in the loop
                        out.append(('cell', obj, off, c[1]))
                    elif not (isinstance(c[0], (Ptr,)) and False):
                        v0 = self._peek_init(a, obj, off, c)
                        if v0 is None or not same_val(v0, c[0]):
                            out.append(('cell', obj, off, c[1]))
                elif os.cells[off][1] != c[1] or not same_val(os.cells[off][0], c[0]):
                    out.append(('cell', obj, off, c[1]))
            for off in os.cells:
                if off not in ob.cells:
                    out.append(('cell', obj, off, os.cells[off][1]))
            for k, v in ob.ghosts.items():
                if k not in os.ghosts:
                    if obj.fresh:
                        out.append(('ghostcell', obj, k))
                    else:
                        t = a.copy()
                        v0 = self.gload(t, Ptr(obj, k[0]), k[1])
                        if not same_val(v0, v):
                            out.append(('ghostcell', obj, k))
                elif not same_val(os.ghosts[k], v):
                    out.append(('ghostcell', obj, k))
            for k, rg in ob.regs.items():
                if k not in os.regs:
                    out.append(('region', obj, k))
                elif not os.regs[k].arr.eq(rg.arr):
                    out.append(('region', obj, k))
            if len(ob.lazy) != len(os.lazy) or any(x is not y for x, y in zip(ob.lazy, os.lazy)):
                if obj.fresh:
                    out.append(('lazy', obj))
                else:
                    raise Unsupported('structure copied over input object in loop')
        for k, arr in b.heap.items():
            if k in a.heap:
                if not a.heap[k].eq(arr):
                    out.append(('heap', k))
            else:
                t = State()
                if not self.heap_arr(t, k).eq(arr):
                    out.append(('heap', k))
        for g, v in b.ghost.items():
            if g not in a.ghost or not same_val(a.ghost[g], v):
                out.append(('ghost', g))
        return out

    def _peek_init(self, a, obj, off, c):
        try:
            t = a.copy()
            kind = 'ptr' if isinstance(c[0], (Ptr, Fn)) else 'i%d' % (8 * c[1])
            return self._load_conc(t, obj, off, c[1], kind)
        except Unsupported:
            return None

    def getloc(self, st, loc):
        if loc[0] == 'cell':
            c = st.ro(loc[1]).cells.get(loc[2])
            if c is None:
                if loc[1].fresh:
                    return POISON
                return self._peek_init(st, loc[1], loc[2], (0, loc[3]))
            if c[1] != loc[3]:
                return POISON
            return c[0]
        if loc[0] == 'ghostcell':
            g = st.ro(loc[1]).ghosts.get(loc[2])
            if g is None and not loc[1].fresh:
                t = st.copy()
                return self.gload(t, Ptr(loc[1], loc[2][0]), loc[2][1])
            return POISON if g is None else g
        if loc[0] == 'region':
            r = st.ro(loc[1]).regs.get(loc[2])
            return POISON if r is None else r.arr
        if loc[0] == 'heap':
            return self.heap_arr(st, loc[1])
        if loc[0] == 'ghost':
            return st.ghost.get(loc[1], POISON)
        if loc[0] == 'lazy':
            return POISON

    def setloc(self, st, loc, v, like=None):
        if loc[0] == 'cell':
            os = st.o(loc[1])
            os.cells[loc[2]] = (v, loc[3])
        elif loc[0] == 'ghostcell':
            if isinstance(v, Poison):
                st.o(loc[1]).ghosts.pop(loc[2], None)
            else:
                st.o(loc[1]).ghosts[loc[2]] = v
        elif loc[0] == 'region':
            os = st.o(loc[1])
            rg = os.regs.get(loc[2]) or like
            if isinstance(v, Poison):
                os.regs.pop(loc[2], None)
            else:
                os.regs[loc[2]] = Region(rg.stride, v, rg.n)
        elif loc[0] == 'heap':
            st.heap[loc[1]] = v
        elif loc[0] == 'ghost':
            if isinstance(v, Poison):
                st.ghost.pop(loc[1], None)
            else:
                st.ghost[loc[1]] = v
        elif loc[0] == 'lazy':
            os = st.o(loc[1])
            os.lazy = []
            os.cells = {}
            os.ghosts = {}

    def sym_for(self, v0, vs, loc, tag):
        """a havoc value shaped like v0 (its value before the loop) and vs (after an iteration)"""
        if loc[0] == 'lazy' or isinstance(v0, (Poison, Fn, tuple)) or v0 is None:
            return POISON, None
        if isinstance(v0, Ptr):
            for v in vs:
                if not isinstance(v, Ptr):
                    return POISON, None
                same = v.base is v0.base or (isinstance(v.base, int) and isinstance(v0.base, int) and v.base == v0.base)
                if isz(v.base) and isz(v0.base) and v.base.eq(v0.base):
                    same = True
                if isinstance(v.base, CStr) and isinstance(v0.base, CStr) and v.base.seq.eq(v0.base.seq):
                    same = True
                if not same:
                    if isz(v.base) and (isz(v0.base) or isinstance(v0.base, int)) and v.s == 0 and v.c == 0 \
                            and v0.s == 0 and v0.c == 0:
                        c = self.fresh(tag, INT, (0, None))
                        return Ptr(c), c
                    return POISON, None
            s = max([v0.s] + [v.s for v in vs])
            if s == 0:
                # byte distance decides the stride
                ds = [abs(v.c - v0.c) for v in vs if v.c != v0.c]
                if not ds:
                    return POISON, None
                s = min(ds)
            for v in [v0] + vs:
                if v.s not in (0, s):
                    return POISON, None
            c = self.fresh(tag, INT)
            return Ptr(v0.base, v0.c, s, c if v0.s == 0 else c), c
        if isinstance(v0, bool) or (isz(v0) and z3.is_bool(v0)):
            c = self.fresh(tag, z3.BoolSort())
            return c, c
        if isinstance(v0, int) or (isz(v0) and z3.is_int(v0)):
            if any(isinstance(v, (Ptr, Poison, Fn)) for v in vs):
                return POISON, None
            r = None
            if loc[0] == 'cell':
                r = (0, 2 ** (8 * loc[3]) - 1)
            elif loc[0] == 'ghostcell':
                r = KIND_RANGE.get(loc[2][1])
            c = self.fresh(tag, INT, r)
            return c, c
        if isz(v0):
            c = self.fresh(tag, v0.sort())
            if z3.is_array(v0):
                if loc[0] == 'heap' and loc[1][2] in KIND_RANGE:
                    self.rg.arr[c.decl().name()] = KIND_RANGE[loc[1][2]]
                if loc[0] == 'region':
                    self.rg.arr[c.decl().name()] = (0, None)
            return c, c
        return POISON, None

    def scalar(self, v):
        """the integer that represents v in inductions"""
        if isinstance(v, Ptr):
            return add(v.i, 0) if v.s else None
        if isinstance(v, bool):
            return None
        if isinstance(v, int) or (isz(v) and z3.is_int(v)):
            return v
        return None

    def summarize(self, s0, r0, body, f, h):
        """exits of a loop, for any number of iterations. Uses the invariants of opts['invariant'] if given."""
        inv = None
        if self.opts.get('invariant'):
            inv = self.opts['invariant'](self, s0, r0, f, h)
        M = []           # modified locations
        self.dry += 1
        shapes = {}
        for rounds in range(12):
            st, regs = s0.copy(), dict(r0)
            syms = {}
            for loc in M:
                v0 = self.getloc(s0, loc)
                sv, c = self.sym_for(v0, shapes.get(loc, []), loc, 'h')
                syms[loc] = (sv, c, v0)
                self.setloc(st, loc, sv)
                if c is not None and z3.is_int(c):
                    r = self.rg.sym.get(c.decl().name())
                    if r:
                        self.assume_range(st, c, r)
            if inv is not None:
                inv.assume(self, st)
            mark = len(self.syms)
            hdr = st.copy()
            out = body(st, regs)
            backs = [o for o in out if o[0] == 'back']
            new = []
            for o in backs:
                for loc in self.locs(hdr, o[1]):
                    if loc not in M and loc not in new:
                        new.append(loc)
                    vs = shapes.setdefault(loc, [])
                    v = self.getloc(o[1], loc)
                    vs.append(v)
            if not new and rounds > 0 or (not new and not M):
                # stable; check that the symbols still have the right shape
                bad = [loc for loc in M if isinstance(syms[loc][0], Ptr) and
                       isinstance(self.sym_for(syms[loc][2], [self.getloc(o[1], loc) for o in backs], loc, 't')[0], Poison)]
                if not bad:
                    break
            M.extend(new)
        else:
            raise Unsupported('loop effects')
        self.dry -= 1
        # inductions: v' = v + c
        k = self.fresh('k', INT, (0, None))
        ind = {}
        for loc in M:
            sv, c, v0 = syms[loc]
            x = self.scalar(sv) if not isinstance(sv, Poison) else None
            if x is None or isinstance(sv, Poison) or not z3.is_int(c):
                continue
            if isinstance(sv, Ptr) and sv.s == 0:
                continue
            step = None
            ok = True
            for o in backs:
                v = self.getloc(o[1], loc)
                if isinstance(v, (Poison, Fn)) or v is None:
                    ok = False
                    break
                y = self.rel_index(sv, v)
                if y is None:
                    ok = False
                    break
                dlt = self.small_delta(sub(y, x))
                if isz(dlt) or (step is not None and step != dlt):
                    ok = False
                    break
                step = dlt
            if ok and step is not None:
                ind[loc] = step
        # final pass
        while True:
            st, regs = s0.copy(), dict(r0)
            st.pc.append(k >= 0)
            hav = {}
            indv = {}
            for loc in M:
                v0 = self.getloc(s0, loc)
                if loc in ind:
                    if isinstance(v0, Ptr):
                        s = syms[loc][0].s
                        i0 = v0.i if v0.s else 0
                        nv = Ptr(v0.base, v0.c, s, add(i0, mul(k, ind[loc])))
                    else:
                        nv = add(v0, mul(k, ind[loc]))
                        if isz(nv) and loc[0] == 'cell':
                            # no wrap-around; the step is checked against this below
                            self.assume_range(st, nv, (0, 2 ** (8 * loc[3]) - 1))
                            self.rg.memo[nv.get_id()] = (0, 2 ** (8 * loc[3]) - 1)
                            self.rg.keep.append(nv)
                    self.setloc(st, loc, nv)
                    indv[loc] = nv
                else:
                    sv, c = self.sym_for(v0, shapes.get(loc, []), loc, 'x')
                    self.setloc(st, loc, sv)
                    if c is not None:
                        hav[loc] = c
                        if z3.is_int(c):
                            r = self.rg.sym.get(c.decl().name())
                            if r:
                                self.assume_range(st, c, r)
            if inv is not None:
                inv.assume(self, st)
            sg = [z3.simplify(nv <= 2 ** (8 * loc[3] - 1) - 1) for loc, nv in indv.items() if loc[0] == 'cell' and isz(nv) and z3.is_int(nv)]
            cands = self.bound_candidates(s0, st, regs, body, k, sg)
            st.pc.extend(cands)
            # check the inductions
            self.dry += 1
            out = body(st.copy(), dict(regs))
            self.dry -= 1
            drop = []
            for o in out:
                if o[0] != 'back':
                    continue
                for loc, nv in indv.items():
                    y = self.rel_index(nv, self.getloc(o[1], loc)) if not isz(nv) else self.getloc(o[1], loc)
                    x = nv.i if isinstance(nv, Ptr) else nv
                    if y is None or isinstance(y, (Poison, Ptr, Fn)) or not self.entails(o[1], eq(sub(y, x), ind[loc])):
                        if loc not in drop:
                            drop.append(loc)
            if not drop:
                break
            for loc in drop:
                del ind[loc]
        if inv is not None:
            inv.check(self, s0.copy(), 'init')
        mark = len(self.syms)
        if hav:
            st.exact = False
        hdr = st.copy()
        out = body(st, regs)
        backs = [o for o in out if o[0] == 'back']
        exits = [o for o in out if o[0] != 'back']
        if inv is not None:
            for o in backs:
                inv.check(self, o[1], 'preserved', hdr)
        # history: every earlier iteration took one of the back paths
        iters = self.syms[mark:]
        hist = self.history(hdr, backs, k, hav, iters, M, s0)
        res = []
        for o in exits:
            o[1].facts.extend(hist)
            if hav:
                o[1].exact = False
            res.append(o)
        return res

    def small_delta(self, d):
        """constant of least magnitude among the cases of a wrap-around case split"""
        if not isz(d):
            return d
        vals = set()

        def go(e):
            e = z3.simplify(e)
            if z3.is_int_value(e):
                vals.add(e.as_long())
                return True
            return False
        ites = []
        stack = [d]
        while stack:
            x = stack.pop()
            if z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_int(x):
                ites.append(x)
                if len(ites) > 3:
                    return d
            else:
                stack.extend(x.children())
        for combo in itertools.product(*[(1, 2)] * len(ites)):
            e = d
            for it, b in zip(ites, combo):
                e = z3.substitute(e, (it, it.arg(b)))
            if not go(e):
                return d
        return min(vals, key=abs) if vals else d

    def rel_index(self, sv, v):
        """scalar of v in the frame of sv (pointers: common base and stride)"""
        if isinstance(sv, Ptr):
            if not isinstance(v, Ptr):
                return None
            if not (v.base is sv.base or (isz(v.base) and isz(sv.base) and v.base.eq(sv.base))):
                return None
            if v.s == sv.s:
                q, r = divmod(v.c - sv.c, sv.s)
                if r:
                    return None
                return add(v.i, q)
            return None
        return v if not isinstance(v, Ptr) else None

    def unwrap_delta(self, st, d):
        """constant value of an expression under the path condition, if it is a wrap-around case split"""
        if z3.is_app_of(d, z3.Z3_OP_ITE) or z3.is_app(d):
            s = z3.Solver()
            s.set('timeout', 2000)
            for p in st.pc:
                s.add(p)
            if s.check() == z3.sat:
                try:
                    v = s.model().eval(d, model_completion=True)
                    if z3.is_int_value(v) and self.entails(st, d == v):
                        return v.as_long()
                except z3.Z3Exception:
                    pass
        return d

    def bound_candidates(self, s0, st, regs, body, k, more=()):
        """k <= bound, for loop conditions 'index != bound' (checked for initiation and preservation)"""
        self.dry += 1
        base = st.copy()
        out = body(st.copy(), dict(regs))
        cands = list(more)
        seen = set()

        def atoms(e):
            if z3.is_not(e):
                return atoms(e.arg(0))
            if z3.is_and(e) or z3.is_or(e):
                r = []
                for c in e.children():
                    r += atoms(c)
                return r
            if z3.is_eq(e) and z3.is_int(e.arg(0)):
                return [e]
            if z3.is_le(e) or z3.is_ge(e) or z3.is_lt(e) or z3.is_gt(e):
                return [e]
            return []
        n = len(base.pc)
        for o in out:
            for p in o[1].pc[n:]:
                for a in atoms(p):
                    if a.get_id() in seen:
                        continue
                    seen.add(a.get_id())
                    l, r = a.arg(0), a.arg(1)
                    if contains(l, k) or contains(r, k):
                        for cd in (l <= r, l >= r):
                            cands.append(z3.simplify(cd))
        good = []
        for cd in cands:
            # initiation: k = 0
            i = z3.substitute(cd, (k, iv(0)))
            s1 = s0.copy()
            if not self.entails(s1, b_simp(i)):
                continue
            good.append(cd)
        # preservation (Houdini)
        while good:
            st1 = base.copy()
            st1.pc.extend(good)
            out = body(st1, dict(regs))
            drop = []
            for o in out:
                if o[0] != 'back':
                    continue
                for cd in good:
                    nx = z3.substitute(cd, (k, k + 1))
                    if not self.entails(o[1], b_simp(nx)):
                        if cd not in drop:
                            drop.append(cd)
            if not drop:
                break
            good = [g for g in good if not any(g.eq(x) for x in drop)]
        self.dry -= 1
        return good

    def hist_value(self, hdr, loc, v):
        """what the symbol for the location stands for, when its value is v"""
        hv = self.getloc(hdr, loc)
        if isinstance(v, Ptr):
            if not isinstance(hv, Ptr):
                return None
            if hv.s:
                q, r = divmod(v.c - hv.c, hv.s)
                if r or v.s not in (0, hv.s):
                    return None
                return iv(add(v.i if v.s else 0, q))
            v = v.base
        if v is None or isinstance(v, (Poison, Fn, Obj, CStr)):
            return None
        return z3.BoolVal(v) if isinstance(v, bool) else iv(v)

    def history(self, hdr, backs, k, hav, iters, M, s0):
        j = z3.Int('j!%d' % next(self.counter))
        n = len(hdr.pc)
        nf = len(hdr.facts)
        fs = []
        subst = [(k, j)]
        nxt = {}
        for loc, c in hav.items():
            fn = z3.Function(c.decl().name() + '.at', INT, c.sort())
            r = self.rg.sym.get(c.decl().name())
            if r:
                self.rg.fun[fn.name()] = r
            subst.append((c, fn(j)))
            nxt[loc] = fn
        for c in iters:
            fn = z3.Function(c.decl().name() + '.it', INT, c.sort())
            r = self.rg.sym.get(c.decl().name())
            if r:
                self.rg.fun[fn.name()] = r
            subst.append((c, fn(j)))
        alts = []
        for o in backs:
            ps = list(o[1].pc[n:]) + list(o[1].facts[nf:])
            upd = []
            for loc, fn in nxt.items():
                v = self.hist_value(hdr, loc, self.getloc(o[1], loc))
                if v is None:
                    continue
                upd.append(fn(j + 1) == z3.substitute(iv(v), *subst))
            alts.append(z3.And(*([z3.substitute(p, *subst) for p in ps] + upd + [z3.BoolVal(True)])))
        out = []
        for loc, fn in nxt.items():
            c = hav[loc]
            out.append(fn(k) == c)
            v0 = self.hist_value(hdr, loc, self.getloc(s0, loc))
            if v0 is not None:
                out.append(fn(iv(0)) == iv(v0))
        if alts:
            out.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Or(*alts))))
        else:
            out.append(k == 0)
        return out

    # ------------------------------------------------------------------ merging
    def merge(self, states, base):
        """join of states that continue at the same place"""
        if len(states) == 1:
            return states[0]
        (sa, ra) = states[0]
        for (sb, rb) in states[1:]:
            r = self.merge2(sa, ra, sb, rb)
            if r is None:
                return None
            sa, ra = r
        return sa, ra

    def merge2(self, sa, ra, sb, rb):
        n = 0
        while n < len(sa.pc) and n < len(sb.pc) and sa.pc[n].eq(sb.pc[n]):
            n += 1
        ca = conj(*sa.pc[n:])
        cb = conj(*sb.pc[n:])
        if ca is True:
            ca = z3.BoolVal(True)
        st = sa.copy()
        st.pc = sa.pc[:n]
        o = disj(ca, cb)
        if o is not True:
            st.pc.append(o if isz(o) else z3.BoolVal(o))
        nf = 0
        while nf < len(sa.facts) and nf < len(sb.facts) and sa.facts[nf].eq(sb.facts[nf]):
            nf += 1
        st.facts = sa.facts[:nf] + [z3.Implies(ca, x) for x in sa.facts[nf:]] + \
            [z3.Implies(neg(ca), x) for x in sb.facts[nf:]]
        st.exact = sa.exact and sb.exact
        # selector: which state; ca and cb need not be disjoint syntactically, so use a fresh boolean
        sel = self.fresh('sel', z3.BoolSort())
        st.pc[n:] = [z3.If(sel, ca if isz(ca) else z3.BoolVal(ca), cb if isz(cb) else z3.BoolVal(cb))]
        st.facts = sa.facts[:nf] + [z3.Implies(sel, x) for x in sa.facts[nf:]] + \
            [z3.Implies(z3.Not(sel), x) for x in sb.facts[nf:]]

        def mv(a, b):
            if same_val(a, b):
                return a
            if isinstance(a, (Poison, Fn)) or isinstance(b, (Poison, Fn)) or a is None or b is None:
                return POISON
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base is b.base and a.s == b.s and a.c == b.c:
                    return Ptr(a.base, a.c, a.s, ite(sel, a.i, b.i))
                return POISON
            if isinstance(a, (Agg, tuple)):
                return POISON
            return ite(sel, a, b)
        for obj in list(set(sa.objs) | set(sb.objs)):
            a, b = sa.objs.get(obj), sb.objs.get(obj)
            if a is b:
                continue
            if a is None:
                st.objs[obj] = b
                continue
            if b is None:
                continue
            if len(a.lazy) != len(b.lazy) or any(x is not y and x[2] is not y[2] for x, y in zip(a.lazy, b.lazy)):
                if obj.fresh:
                    w = st.o(obj)
                    w.cells, w.ghosts, w.lazy, w.regs = {}, {}, [], {}
                    continue
                return None
            w = st.o(obj)
            for off in set(a.cells) | set(b.cells):
                x, y = a.cells.get(off), b.cells.get(off)
                if x is None or y is None:
                    q = x or y
                    try:
                        if x is None:
                            x = (self._load_conc(sa, obj, off, q[1], 'ptr' if isinstance(q[0], Ptr) else 'i%d' % (8 * q[1])), q[1])
                        else:
                            y = (self._load_conc(sb, obj, off, q[1], 'ptr' if isinstance(q[0], Ptr) else 'i%d' % (8 * q[1])), q[1])
                    except Unsupported:
                        w.cells.pop(off, None)
                        continue
                if x[1] != y[1]:
                    return None
                w.cells[off] = (mv(x[0], y[0]), x[1])
            for kk in set(a.ghosts) | set(b.ghosts):
                x, y = a.ghosts.get(kk), b.ghosts.get(kk)
                if x is None or y is None:
                    w.ghosts.pop(kk, None)
                    continue
                v = mv(x, y)
                if isinstance(v, Poison):
                    w.ghosts.pop(kk, None)
                else:
                    w.ghosts[kk] = v
            for kk in set(a.regs) | set(b.regs):
                x, y = a.regs.get(kk), b.regs.get(kk)
                if x is None or y is None:
                    return None
                if not x.arr.eq(y.arr):
                    w.regs[kk] = Region(x.stride, z3.If(sel, x.arr, y.arr), x.n)
        for kk in set(sa.heap) | set(sb.heap):
            x, y = self.heap_arr(sa, kk), self.heap_arr(sb, kk)
            st.heap[kk] = x if x.eq(y) else z3.If(sel, x, y)
        for g in set(sa.ghost) | set(sb.ghost):
            if g not in sa.ghost or g not in sb.ghost:
                st.ghost.pop(g, None)
                continue
            v = mv(sa.ghost[g], sb.ghost[g])
            st.ghost[g] = v
        regs = {}
        for r in ra:
            if r in rb:
                regs[r] = mv(ra[r], rb[r]) if not isinstance(ra[r], (tuple, Agg)) else (ra[r] if ra[r] is rb[r] else POISON)
        return st, regs


def contains(e, v):
    vid = v.get_id()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() == vid:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st.extend(x.children())
    return False


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, Poison) or isinstance(b, Poison):
        return isinstance(a, Poison) and isinstance(b, Poison)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            return False
        return same_base(a.base, b.base) and a.c == b.c and a.s == b.s and same_val(a.i, b.i)
    if isinstance(a, Fn) or isinstance(b, Fn):
        return a == b
    if isinstance(a, (Agg, tuple)) or isinstance(b, (Agg, tuple)):
        return False
    if isz(a) and isz(b):
        return a.eq(b)
    if isz(a) or isz(b):
        x = iv(a) if not isinstance(a, bool) else z3.BoolVal(a)
        y = iv(b) if not isinstance(b, bool) else z3.BoolVal(b)
        return x.eq(y)
    return a == b


def same_base(a, b):
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.eq(b)
    if isinstance(a, CStr) and isinstance(b, CStr):
        return a.seq.eq(b.seq)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return False
