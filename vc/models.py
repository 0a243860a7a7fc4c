"""Assumed contracts of the C++ standard library, libc and the C++ runtime, on ghost values.

A std::string or fs::path is its character sequence (ghost 'str' / 'path' at the object's address), a vector is a length and a
reference to its element array (ghosts 'len', 'data')."""
import re
import z3
from sem import *
import ir

MODELS = []


def model(rx):
    def deco(fn):
        MODELS.append((re.compile(rx), fn))
        return fn
    return deco


def default(ex, st, a, n):
    """what these models say about a function"""
    b = ex.basename(n)
    for rx, fn in MODELS:
        if rx.fullmatch(b):
            return fn(ex, st, a, n)
    return NotImplemented


def install(ex, extra=()):
    ex.models = list(extra) + MODELS


def ret(st, v=None):
    return [(st, ('ret', v))]


def throw(st, ti='@_ZTISt13runtime_error', p=None):
    return [(st, ('exc', ti, p))]


def fork(ex, st, cond):
    """[(state, True/False)] for the feasible sides of cond"""
    if isinstance(cond, bool):
        return [(st, cond)]
    out = []
    a, b = ex.feasible(st, cond), ex.feasible(st, neg(cond))
    if a and b:
        s2 = st.copy()
        st.pc.append(cond)
        s2.pc.append(neg(cond))
        return [(st, True), (s2, False)]
    if a:
        return [(st, True)]
    if b:
        return [(st, False)]
    return []


# --------------------------------------------------------------------------------------------- C++ runtime
@model(r'__cxa_allocate_exception')
def m(ex, st, a, n):
    return Ptr(Obj('exception', a[0] if not isz(a[0]) else None))


@model(r'__cxa_free_exception')
def m(ex, st, a, n):
    return None


@model(r'__cxa_throw')
def m(ex, st, a, n):
    ti = a[1]
    nm = ti.base.name[7:] if isinstance(ti, Ptr) and isinstance(ti.base, Obj) else '?'
    return throw(st, nm, a[0])


@model(r'__cxa_begin_catch')
def m(ex, st, a, n):
    e = a[0].base.exc
    st.ghost['!caught'] = st.ghost.get('!caught', ()) + (e,)
    return e[2] if e[2] is not None else Ptr(Obj('exception'))


@model(r'__cxa_end_catch')
def m(ex, st, a, n):
    st.ghost['!caught'] = st.ghost.get('!caught', ())[:-1]
    return None


@model(r'__cxa_rethrow')
def m(ex, st, a, n):
    e = st.ghost['!caught'][-1]
    return throw(st, e[1], e[2])


@model(r'__clang_call_terminate|std::terminate')
def m(ex, st, a, n):
    st.ghost['!terminated'] = True
    return throw(st, '!terminate', None)


@model(r'abort|__assert_fail|exit|_exit')
def m(ex, st, a, n):
    nm = ex.basename(n)
    h = ex.opts.get('noreturn')
    if h is not None:
        return h(ex, st, a, nm)
    return throw(st, '!' + nm, None)


@model(r'__gxx_personality_v0')
def m(ex, st, a, n):
    return 0


@model(r'operator new(\[\])?')
def m(ex, st, a, n):
    h = ex.opts.get('on_new')
    if h:
        h(ex, st, a)
    o = Obj('heap', a[0] if not isz(a[0]) else None)
    if isz(a[0]):
        o.alloc = a[0]
    return Ptr(o)


@model(r'operator delete(\[\])?')
def m(ex, st, a, n):
    h = ex.opts.get('on_delete')
    if h:
        h(ex, st, a)
    return None


@model(r'std::(runtime_error|logic_error|exception|system_error)::(runtime_error|logic_error|exception|~.*)')
def m(ex, st, a, n):
    return None


@model(r'std::__throw_.*')
def m(ex, st, a, n):
    return throw(st, '@_ZTISt11logic_error', None)


# --------------------------------------------------------------------------------------------- file system
def F_exists(ex):
    return ex.fun('fs.exists', SEQ, z3.BoolSort())


def F_mtime(ex):
    return ex.fun('fs.mtime', SEQ, INT, rng=(-2 ** 63, 2 ** 63 - 1))


def F_type(ex):
    return ex.fun('fs.type', SEQ, INT, rng=(0, 255))


@model(r'std::system_category')
def m(ex, st, a, n):
    return ex.glob('@system_category_object')


@model(r'fs::last_write_time')
def m(ex, st, a, n):
    p = ex.gload(st, a[0], 'path')
    e = F_exists(ex)(p)
    t = F_mtime(ex)(p)
    st.pc.append(z3.And(t >= -2 ** 63, t < 2 ** 63))
    if len(a) < 2:
        out = []
        for s, b in fork(ex, st, e):
            out += ret(s, ex.wrap(t, 64)) if b else throw(s, '@_ZTINSt10filesystem7__cxx1116filesystem_errorE')
        return out
    out = []
    for s, b in fork(ex, st, e):
        if b:
            ex.store(s, a[1], 0, ir.I32)
            out += ret(s, z3.If(t < 0, t + 2 ** 64, t))
        else:
            err = ex.fresh('errno', INT, (1, 133))
            ex.assume_range(s, err, (1, 133))
            ex.store(s, a[1], err, ir.I32)
            out += ret(s, 1 << 63)
    return out


@model(r'fs::status')
def m(ex, st, a, n):
    p = ex.gload(st, a[0], 'path')
    t = F_type(ex)(p)
    st.pc.append(z3.And(t >= 0, t <= 255))
    rest = ex.fresh('perms', INT, (0, 2 ** 32 - 1))
    ex.assume_range(st, rest, (0, 2 ** 32 - 1))
    if len(a) > 1:
        err = ex.fresh('errno', INT, (0, 133))
        ex.assume_range(st, err, (0, 133))
        ex.store(st, a[1], err, ir.I32)
    return t + 2 ** 32 * rest


# --------------------------------------------------------------------------------------------- strings and paths
def lit(b):
    if not b:
        return z3.Empty(SEQ)
    us = [z3.Unit(z3.IntVal(x)) for x in b]
    return us[0] if len(us) == 1 else z3.Concat(*us)


def cstr_seq(ex, st, p):
    """characters of a NUL-terminated string"""
    if isinstance(p, Ptr):
        if isinstance(p.base, CStr):
            off = add(p.c, p.i) if p.s else p.c
            if not isz(off) and off == 0:
                return p.base.seq
            n = z3.Length(p.base.seq)
            return z3.SubSeq(p.base.seq, iv(off), n - iv(off))
        if isinstance(p.base, Obj) and isinstance(p.base.const, bytes) and not isz(p.i):
            off = p.c + p.s * p.i
            d = p.base.const[off:]
            return lit(d.split(b'\0')[0])
        if not isinstance(p.base, Obj) and p.s == 0:
            return ex.fun('cstr.at%d' % p.c, INT, SEQ)(iv(p.base))
    raise Unsupported('C string %r' % (p,))


def seq_kind(n):
    return 'path' if 'fs::path' in n else 'str'


@model(r'std::string::basic_string')
def m(ex, st, a, n):
    dem = ex.mod.demangled(n)
    par = dem[dem.index('basic_string', dem.index('::basic_string')):] if '::basic_string' in dem else dem
    args = par[par.find('(') + 1:par.rfind(')')]
    if args == '' or args.startswith('std::allocator<char> const&'):
        ex.gstore(st, a[0], 'str', z3.Empty(SEQ))
    elif args.startswith('char const*') and 'unsigned long' in args:
        v = bytes_seq(ex, st, a[1], a[2])
        ex.gstore(st, a[0], 'str', v)
    elif args.startswith('char const*') and args.count('char const*') == 2 or args.startswith('char*, char*'):
        v = bytes_seq(ex, st, a[1], ex.ptr_diff(a[2], a[1]))
        ex.gstore(st, a[0], 'str', v)
    elif args.startswith('char const*') or args.startswith('char*'):
        ex.gstore(st, a[0], 'str', cstr_seq(ex, st, a[1]))
    elif args.startswith('std::__cxx11::basic_string'):
        if len(a) > 2 and not isinstance(a[2], Ptr):
            v = ex.gload(st, a[1], 'str')
            ex.gstore(st, a[0], 'str', z3.SubSeq(v, iv(a[2]), (iv(a[3]) if len(a) > 3 else z3.Length(v))))
            return None
        v = ex.gload(st, a[1], 'str')
        ex.gstore(st, a[0], 'str', v)
        if '&&' in args:
            ex.gstore(st, a[1], 'str', z3.Empty(SEQ))
    elif args.startswith('unsigned long, char'):
        if not isz(a[1]) and a[1] <= 8:
            ex.gstore(st, a[0], 'str', lit_mul(a[2], a[1]))
        else:
            ex.gstore(st, a[0], 'str', ex.fresh('str', SEQ))
    elif 'string_view' in args:
        # template<class Tp> basic_string(Tp const&) with a string_view {len, ptr}
        p = a[1]
        ln = ex.load(st, p, ir.I64)
        q = ex.load(st, p.add(8), ir.PTR)
        ex.gstore(st, a[0], 'str', bytes_seq(ex, st, q, ln))
    elif 'initializer_list' in args or '__sv_wrapper' in args:
        # passed as {ptr,len} or {len, ptr}
        if isinstance(a[1], Ptr):
            ex.gstore(st, a[0], 'str', bytes_seq(ex, st, a[1], a[2]))
        else:
            ex.gstore(st, a[0], 'str', bytes_seq(ex, st, a[2], a[1]))
    else:
        raise Unsupported('string constructor ' + args)
    return None


def lit_mul(c, n):
    if n == 0:
        return z3.Empty(SEQ)
    u = z3.Unit(iv(c))
    return u if n == 1 else z3.Concat(*([u] * n))


def bytes_seq(ex, st, p, n):
    """sequence of the n bytes at p"""
    if isinstance(p, Ptr) and isinstance(p.base, CStr):
        off = add(p.c, p.i) if p.s else p.c
        if not isz(off) and off == 0 and isz(n) and z3.simplify(n == z3.Length(p.base.seq)).eq(z3.BoolVal(True)):
            return p.base.seq
        return z3.simplify(z3.SubSeq(p.base.seq, iv(off), iv(n)))
    if not isz(n) and n <= 64:
        return z3.Concat(*[z3.Unit(iv(ex.load(st, p.add(k) if p.s != 1 else Ptr(p.base, p.c, 1, add(p.i, k)), ir.I8)))
                           for k in range(n)]) if n > 1 else \
            (z3.Unit(iv(ex.load(st, p, ir.I8))) if n == 1 else z3.Empty(SEQ))
    rd = ex.byte_reader(st, p)
    v = ex.fresh('bytes', SEQ)
    j = z3.Int('j')
    st.facts.append(z3.Length(v) == iv(n))
    st.facts.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < iv(n)), v[j] == rd(j))))
    return v


@model(r'std::string::~basic_string|fs::path::~path')
def m(ex, st, a, n):
    return None


@model(r'std::string::(operator=|assign)')
def m(ex, st, a, n):
    dem = ex.mod.demangled(n)
    p = dem[dem.rindex('('):]
    if p.startswith('(std::__cxx11::basic_string'):
        v = ex.gload(st, a[1], 'str')
        ex.gstore(st, a[0], 'str', v)
        if '&&' in p:
            same = ex.ptr_eq(st, a[0], a[1])
            if same is not True:
                ex.gstore(st, a[1], 'str', z3.Empty(SEQ))
    elif p.startswith('(char const*)'):
        ex.gstore(st, a[0], 'str', cstr_seq(ex, st, a[1]))
    elif p.startswith('(char)'):
        ex.gstore(st, a[0], 'str', z3.Unit(iv(a[1])))
    elif p.startswith('(char const*, unsigned long)'):
        ex.gstore(st, a[0], 'str', bytes_seq(ex, st, a[1], a[2]))
    else:
        raise Unsupported('string assignment ' + p)
    return a[0]


def seq_app(x, y):
    return z3.simplify(z3.Concat(x, y))


@model(r'std::string::(operator\+=|append|push_back)')
def m(ex, st, a, n):
    dem = ex.mod.demangled(n)
    p = dem[dem.rindex('('):]
    v = ex.gload(st, a[0], 'str')
    if p.startswith('(std::__cxx11::basic_string'):
        if len(a) > 2:
            raise Unsupported('append substring')
        w = ex.gload(st, a[1], 'str')
    elif p.startswith('(char const*, unsigned long)'):
        w = bytes_seq(ex, st, a[1], a[2])
    elif p.startswith('(char const*)'):
        w = cstr_seq(ex, st, a[1])
    elif p.startswith('(char)'):
        w = z3.Unit(iv(a[1]))
    elif p.startswith('(unsigned long, char)') and not isz(a[1]):
        w = lit_mul(a[2], a[1])
    else:
        raise Unsupported('string append ' + p)
    ex.gstore(st, a[0], 'str', seq_app(v, w))
    return a[0]


@model(r'std::operator\+')
def m(ex, st, a, n):
    dem = ex.mod.demangled(n)
    if 'basic_string' not in dem.split('operator+')[0]:
        return NotImplemented
    p = dem[dem.rindex('(') + 1:dem.rindex(')')]

    def get(x, t):
        if t.startswith('std::__cxx11::basic_string'):
            return ex.gload(st, x, 'str')
        if t.startswith('char const*'):
            return cstr_seq(ex, st, x)
        return z3.Unit(iv(x))
    # split the two parameter types at depth 0
    d = 0
    for i, c in enumerate(p):
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif c == ',' and d == 0:
            t1, t2 = p[:i].strip(), p[i + 1:].strip()
            break
    r = seq_app(get(a[1], t1), get(a[2], t2))
    ex.gstore(st, a[0], 'str', r)
    return None


@model(r'std::string::insert')
def m(ex, st, a, n):
    d = ex.mod.demangled(n)
    ps = param_types(d)
    if len(ps) != 2 or ps[0] != 'unsigned long':
        return NotImplemented
    v = ex.gload(st, a[0], 'str')
    w = ex.gload(st, a[2], 'str') if ps[1].startswith('std::__cxx11::basic_string') else cstr_seq(ex, st, a[2])
    ex.prove(st, iv(a[1]) <= z3.Length(v), 'insertion inside the string')
    r = seq_app(w, v) if not isz(a[1]) and a[1] == 0 else z3.Concat(z3.SubSeq(v, 0, iv(a[1])), w, z3.SubSeq(v, iv(a[1]), z3.Length(v) - iv(a[1])))
    ex.gstore(st, a[0], 'str', r)
    return a[0]


@model(r'std::string::operator std::string_view')
def m(ex, st, a, n):
    v = ex.gload(st, a[0], 'str')
    ex.assume_range(st, z3.Length(v), (0, 1 << 48))
    return Agg([z3.Length(v), Ptr(CStr(v))])


@model(r'std::string::(size|length)')
def m(ex, st, a, n):
    v = z3.Length(ex.gload(st, a[0], 'str'))
    v = z3.simplify(v)
    if z3.is_int_value(v):
        return v.as_long()
    ex.assume_range(st, v, (0, 1 << 48))
    return v


@model(r'std::string::(empty)|fs::path::empty')
def m(ex, st, a, n):
    v = ex.gload(st, a[0], 'path' if 'path::empty' in ex.basename(n) else 'str')
    return b_simp(z3.Length(v) == 0)


@model(r'std::string::clear')
def m(ex, st, a, n):
    ex.gstore(st, a[0], 'str', z3.Empty(SEQ))


@model(r'std::string::(c_str|data)|fs::path::c_str')
def m(ex, st, a, n):
    v = ex.gload(st, a[0], 'path' if 'path::' in ex.basename(n) else 'str')
    return Ptr(CStr(v), 0, 1, 0)


@model(r'std::string::(begin|cbegin|front)')
def m(ex, st, a, n):
    return Ptr(CStr(ex.gload(st, a[0], 'str')), 0, 1, 0)


@model(r'std::string::(end|cend)')
def m(ex, st, a, n):
    v = ex.gload(st, a[0], 'str')
    ln = z3.simplify(z3.Length(v))
    ex.assume_range(st, ln, (0, 1 << 48))
    return Ptr(CStr(v), 0, 1, ln.as_long() if z3.is_int_value(ln) else ln)


@model(r'std::string::back')
def m(ex, st, a, n):
    v = ex.gload(st, a[0], 'str')
    return Ptr(CStr(v), 0, 1, z3.simplify(z3.Length(v) - 1))


@model(r'std::string::(operator\[\]|at)')
def m(ex, st, a, n):
    v = ex.gload(st, a[0], 'str')
    if ex.basename(n).endswith('::at'):
        return NotImplemented
    return Ptr(CStr(v), 0, 1, a[1])


@model(r'std::string::reserve')
def m(ex, st, a, n):
    return None


@model(r'strlen|std::char_traits::length')
def m(ex, st, a, n):
    v = z3.simplify(z3.Length(cstr_seq(ex, st, a[0])))
    if z3.is_int_value(v):
        return v.as_long()
    ex.assume_range(st, v, (0, 1 << 48))
    return v


def lexcmp(ex):
    """uninterpreted three-way comparison sign of character sequences"""
    return ex.fun('seq.less', SEQ, SEQ, z3.BoolSort())


@model(r'memcmp|bcmp')
def m(ex, st, a, n):
    k = a[2]
    if isz(k) or k > 64:
        raise Unsupported('memcmp of symbolic length')
    bs = []
    for p in a[:2]:
        if isinstance(p.base, CStr):
            off = iv(add(p.c, p.i) if p.s else p.c)
            ex.prove(st, z3.And(off >= 0, off + k <= z3.Length(p.base.seq) + 1), 'memcmp stays inside the string')
            bs.append([z3.If(off + j < z3.Length(p.base.seq), p.base.seq[off + j], 0) for j in range(k)])
        else:
            bs.append([iv(ex.load(st, Ptr(p.base, add(p.c, j), p.s, p.i), ir.Ty('int', 8))) for j in range(k)])
    r = ex.fresh('memcmp', INT, (0, 2 ** 32 - 1))
    ex.assume_range(st, r, (0, 2 ** 32 - 1))
    x, y = bs
    v = z3.IntVal(0)
    for j in reversed(range(k)):
        v = z3.If(x[j] == y[j], v, z3.If(x[j] < y[j], z3.IntVal(-1), z3.IntVal(1)))
    st.facts.append(z3.And((r == 0) == (v == 0), (r >= 2 ** 31) == (v < 0)))
    for t in x + y:
        if not z3.is_int_value(t):
            st.facts.append(z3.And(t >= 0, t <= 255))
    return r


@model(r'strncmp')
def m(ex, st, a, n):
    x, y = cstr_seq(ex, st, a[0]), cstr_seq(ex, st, a[1])
    px, py = z3.SubSeq(x, 0, a[2]), z3.SubSeq(y, 0, a[2])
    if not isz(a[2]):
        px, py = z3.simplify(px), z3.simplify(py)
    e = px == py
    r = ex.fresh('strncmp', INT, (0, 2 ** 32 - 1))
    ex.assume_range(st, r, (0, 2 ** 32 - 1))
    st.pc.append((r == 0) == e)
    st.pc.append((r >= 2 ** 31) == lexcmp(ex)(px, py))
    st.facts.append(z3.Not(z3.And(e, lexcmp(ex)(px, py))))
    return r


@model(r'strcmp|std::string::compare')
def m(ex, st, a, n):
    if ex.basename(n) == 'strcmp':
        x, y = cstr_seq(ex, st, a[0]), cstr_seq(ex, st, a[1])
    else:
        dem = ex.mod.demangled(n)
        p = dem[dem.rindex('('):]
        x = ex.gload(st, a[0], 'str')
        if p.startswith('(std::__cxx11::basic_string'):
            y = ex.gload(st, a[1], 'str')
        elif p.startswith('(char const*)'):
            y = cstr_seq(ex, st, a[1])
        else:
            raise Unsupported('string compare')
    e = b_simp(x == y)
    if e is True:
        return 0
    L = lexcmp(ex)
    pos = ex.fresh('cmp', INT, (1, 2 ** 31 - 1))
    ng = ex.fresh('cmp', INT, (2 ** 31, 2 ** 32 - 1))
    ex.assume_range(st, pos, (1, 2 ** 31 - 1))
    ex.assume_range(st, ng, (2 ** 31, 2 ** 32 - 1))
    v = z3.If(bv(e), 0, z3.If(L(x, y), ng, pos))
    return v


@model(r'std::operator==|std::operator!=|fs::__cxx11::operator==|fs::__cxx11::operator!=|fs::operator==|fs::operator!=')
def m(ex, st, a, n):
    dem = ex.mod.demangled(n)
    b = ex.basename(n)
    ne = b.endswith('!=')
    par = dem[dem.rindex('operator'):]
    # find the parameter list: last '(' at depth 0 of <>
    ps = param_types(dem)
    if len(ps) != 2:
        return NotImplemented

    def get(x, t):
        if t.startswith('std::__cxx11::basic_string<char'):
            return ex.gload(st, x, 'str')
        if t.startswith('std::filesystem::__cxx11::path'):
            return ex.gload(st, x, 'path')
        if t.startswith('char const*'):
            return cstr_seq(ex, st, x)
        return None
    x, y = get(a[0], ps[0]), get(a[1], ps[1])
    if x is None or y is None or (ps[0].startswith('char') and ps[1].startswith('char')):
        return NotImplemented
    if 'path' in ps[0] and 'path' in ps[1]:
        r = path_eq(ex, x, y)
    else:
        r = b_simp(x == y)
    return neg(r) if ne else r


def path_eq(ex, x, y):
    """paths are equal iff their decompositions are: key equality (assumed contract of fs::path)"""
    if x.eq(y):
        return True
    for u, v in ((x, y), (y, x)):
        if u.eq(z3.Empty(SEQ)):
            return b_simp(z3.Length(v) == 0)  # only the empty path has no parts
    K = ex.fun('path.key', SEQ, INT)
    return b_simp(K(x) == K(y))


def path_lt(ex, x, y):
    K = ex.fun('path.key', SEQ, INT)
    return b_simp(K(x) < K(y))


def param_types(dem):
    """parameter types of a demangled function name"""
    s = dem.rstrip()
    for q in (' const', ' &&', ' &'):
        if s.endswith(q):
            s = s[:-len(q)]
    if not s.endswith(')'):
        return []
    d = 0
    i = len(s) - 1
    while i >= 0:
        if s[i] == ')':
            d += 1
        elif s[i] == '(':
            d -= 1
            if d == 0:
                break
        i -= 1
    body = s[i + 1:-1]
    out = []
    d = 0
    cur = ''
    for k, c in enumerate(body):
        if c in '<([{':
            d += 1
        elif c in '>)]}' and not (c == '>' and body[k - 1] == '-'):
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


@model(r'fs::path::path')
def m(ex, st, a, n):
    ps = param_types(ex.mod.demangled(n))
    if not ps:
        ex.gstore(st, a[0], 'path', z3.Empty(SEQ))
        return None
    t = ps[0]
    if t.startswith('std::filesystem::__cxx11::path'):
        v = ex.gload(st, a[1], 'path')
        ex.gstore(st, a[0], 'path', v)
        if '&&' in t:
            ex.gstore(st, a[1], 'path', z3.Empty(SEQ))
    elif t.startswith('std::__cxx11::basic_string'):
        v = ex.gload(st, a[1], 'str')
        ex.gstore(st, a[0], 'path', v)
        if '&&' in t:
            ex.gstore(st, a[1], 'str', z3.Empty(SEQ))
    elif t.startswith('char const') or t.startswith('char*'):
        # char const*, char const (&)[N], char const* const&
        if '* const&' in t or t == 'char const*&' or t == 'char*&':
            ex.gstore(st, a[0], 'path', cstr_seq(ex, st, ex.load(st, a[1], ir.PTR)))
        else:
            ex.gstore(st, a[0], 'path', cstr_seq(ex, st, a[1]))
    elif 'string_view' in t:
        raise Unsupported('path from string_view')
    else:
        raise Unsupported('path constructor ' + t)
    return None


@model(r'fs::path::operator=')
def m(ex, st, a, n):
    ps = param_types(ex.mod.demangled(n))
    t = ps[0]
    if t.startswith('std::filesystem::__cxx11::path'):
        v = ex.gload(st, a[1], 'path')
        ex.gstore(st, a[0], 'path', v)
        if '&&' in t and ex.ptr_eq(st, a[0], a[1]) is not True:
            ex.gstore(st, a[1], 'path', z3.Empty(SEQ))
    elif t.startswith('std::__cxx11::basic_string'):
        ex.gstore(st, a[0], 'path', ex.gload(st, a[1], 'str'))
    else:
        raise Unsupported('path assignment')
    return a[0]


@model(r'fs::path::(string|generic_string|u8string)|fs::path::operator std::string')
def m(ex, st, a, n):
    ex.gstore(st, a[0], 'str', ex.gload(st, a[1], 'path'))


@model(r'fs::path::native')
def m(ex, st, a, n):
    return NotImplemented


def F_ltype(ex):
    """type of the file itself: as of what it refers to, unless it is a symbolic link"""
    return ex.fun('fs.ltype', SEQ, INT, rng=(0, 255))


def ltype(ex, st, p):
    t, u = F_ltype(ex)(p), F_type(ex)(p)
    st.facts.append(z3.And(t >= 0, t <= 255, u >= 0, u <= 255, u != 3, z3.Implies(t != 3, t == u)))
    return t


@model(r'fs::symlink_status')
def m(ex, st, a, n):
    t = ltype(ex, st, ex.gload(st, a[0], 'path'))
    rest = ex.fresh('perms', INT, (0, 2 ** 32 - 1))
    ex.assume_range(st, rest, (0, 2 ** 32 - 1))
    if len(a) > 1:
        err = ex.fresh('errno', INT, (0, 133))
        ex.assume_range(st, err, (0, 133))
        ex.store(st, a[1], err, ir.I32)
    return t + 2 ** 32 * rest


@model(r'fs::path::(lexically_normal|parent_path|filename|stem|extension|root_path|root_directory|root_name|relative_path)')
def m(ex, st, a, n):
    f = ex.fun('path.' + ex.basename(n).split('::')[-1], SEQ, SEQ)
    ex.gstore(st, a[0], 'path', f(ex.gload(st, a[1], 'path')))


@model(r'fs::path::(lexically_relative|lexically_proximate)')
def m(ex, st, a, n):
    f = ex.fun('path.' + ex.basename(n).split('::')[-1], SEQ, SEQ, SEQ)
    ex.gstore(st, a[0], 'path', f(ex.gload(st, a[1], 'path'), ex.gload(st, a[2], 'path')))


@model(r'fs::relative')
def m(ex, st, a, n):
    f = ex.fun('fs.relative', SEQ, SEQ, SEQ)
    ex.gstore(st, a[0], 'path', f(ex.gload(st, a[1], 'path'), ex.gload(st, a[2], 'path')))


@model(r'(fs::__cxx11::|fs::)operator/')
def m(ex, st, a, n):
    f = ex.fun('path.div', SEQ, SEQ, SEQ)
    ex.gstore(st, a[0], 'path', f(ex.gload(st, a[1], 'path'), ex.gload(st, a[2], 'path')))


@model(r'fs::path::operator/=')
def m(ex, st, a, n):
    ps = param_types(ex.mod.demangled(n))
    if not ps[0].startswith('std::filesystem::__cxx11::path'):
        raise Unsupported('path append')
    f = ex.fun('path.div', SEQ, SEQ, SEQ)
    ex.gstore(st, a[0], 'path', f(ex.gload(st, a[0], 'path'), ex.gload(st, a[1], 'path')))
    return a[0]


@model(r'fs::path::compare')
def m(ex, st, a, n):
    ps = param_types(ex.mod.demangled(n))
    if not ps[0].startswith('std::filesystem::__cxx11::path'):
        raise Unsupported('path compare')
    x, y = ex.gload(st, a[0], 'path'), ex.gload(st, a[1], 'path')
    pos = ex.fresh('cmp', INT, (1, 2 ** 31 - 1))
    ng = ex.fresh('cmp', INT, (2 ** 31, 2 ** 32 - 1))
    ex.assume_range(st, pos, (1, 2 ** 31 - 1))
    ex.assume_range(st, ng, (2 ** 31, 2 ** 32 - 1))
    return ite(path_eq(ex, x, y), 0, z3.If(bv(path_lt(ex, x, y)), ng, pos))


@model(r'(fs::__cxx11::|fs::)operator<')
def m(ex, st, a, n):
    return path_lt(ex, ex.gload(st, a[0], 'path'), ex.gload(st, a[1], 'path'))


@model(r'fs::is_directory')
def m(ex, st, a, n):
    ps = param_types(ex.mod.demangled(n))
    if not ps[0].startswith('std::filesystem::__cxx11::path'):
        return NotImplemented
    p = ex.gload(st, a[0], 'path')
    t = F_type(ex)(p)
    if len(a) > 1:
        err = ex.fresh('errno', INT, (0, 133))
        ex.assume_range(st, err, (0, 133))
        ex.store(st, a[1], err, ir.I32)
    return b_simp(t == 2)


@model(r'fs::is_regular_file')
def m(ex, st, a, n):
    ps = param_types(ex.mod.demangled(n))
    if not ps[0].startswith('std::filesystem::__cxx11::path'):
        return NotImplemented
    p = ex.gload(st, a[0], 'path')
    t = F_type(ex)(p)
    if len(a) > 1:
        err = ex.fresh('errno', INT, (0, 133))
        ex.assume_range(st, err, (0, 133))
        ex.store(st, a[1], err, ir.I32)
    return b_simp(t == 1)


# --------------------------------------------------------------------------------------------- vectors
PRIM = {'char': 1, 'unsigned char': 1, 'std::byte': 1, 'bool': 1, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8,
        'char const*': 8, 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>': 32,
        'std::filesystem::__cxx11::path': 40}


def first_targ(dem, cls):
    i = dem.index(cls + '<') + len(cls) + 1
    d = 0
    j = i
    while True:
        c = dem[j]
        if c in '<(':
            d += 1
        elif c in '>)':
            if d == 0:
                break
            d -= 1
        elif c == ',' and d == 0:
            break
        j += 1
    return dem[i:j].strip()


def type_size(ex, t):
    t = t.strip()
    if t.endswith(' const') and not t.endswith('* const'):
        t = t[:-6]
    if t in PRIM:
        return PRIM[t]
    if t in ex.opts.get('sizes', {}):
        return ex.opts['sizes'][t]
    if t.endswith('*'):
        return 8
    if t == 'std::__cxx11::basic_regex<char, std::__cxx11::regex_traits<char>>':
        t = 'std::__cxx11::basic_regex'
    for pre in ('class.', 'struct.', 'union.', 'enum.'):
        for nm in ('%"' + pre + t + '"', '%' + pre + t):
            if nm in ex.mod.types:
                return ex.mod.size(ex.mod.types[nm])
    if t.startswith('std::pair<'):
        a = first_targ(t, 'std::pair')
        b = t[len('std::pair<') + len(a) + 1:-1].strip()
        x, y = type_size(ex, a), type_size(ex, b)
        if x % 8 == 0 and y % 8 == 0:
            return x + y
    raise Unsupported('size of ' + t)


def vec_elem(ex, n):
    return type_size(ex, first_targ(ex.mod.demangled(n), 'std::vector'))


def vec_len(ex, st, p):
    n = ex.gload(st, p, 'len')
    if isz(n):
        ex.assume_range(st, n, KIND_RANGE['len'])
    return n


def vec_data(ex, st, p):
    return ex.gload(st, p, 'data')


@model(r'std::vector::(begin|cbegin|data)')
def m(ex, st, a, n):
    return Ptr(vec_data(ex, st, a[0]), 0, vec_elem(ex, n), 0)


@model(r'std::vector::(end|cend)')
def m(ex, st, a, n):
    return Ptr(vec_data(ex, st, a[0]), 0, vec_elem(ex, n), vec_len(ex, st, a[0]))


@model(r'std::vector::size')
def m(ex, st, a, n):
    return vec_len(ex, st, a[0])


@model(r'std::vector::empty')
def m(ex, st, a, n):
    return eq(vec_len(ex, st, a[0]), 0)


@model(r'std::vector::operator\[\]')
def m(ex, st, a, n):
    h = ex.opts.get('bounds')
    if h:
        ex.prove(st, conj(le(0, a[1]), lt(a[1], vec_len(ex, st, a[0]))), 'index within vector bounds')
    return Ptr(vec_data(ex, st, a[0]), 0, vec_elem(ex, n), a[1])


@model(r'std::vector::(back)')
def m(ex, st, a, n):
    return Ptr(vec_data(ex, st, a[0]), 0, vec_elem(ex, n), sub(vec_len(ex, st, a[0]), 1))


@model(r'std::vector::(front)')
def m(ex, st, a, n):
    return Ptr(vec_data(ex, st, a[0]), 0, vec_elem(ex, n), 0)


@model(r'std::vector::~vector|std::vector::reserve|std::vector::shrink_to_fit')
def m(ex, st, a, n):
    return None


# --------------------------------------------------------------------------------------------- misc
@model(r'std::(forward|move|__addressof|addressof|as_const)')
def m(ex, st, a, n):
    ps = param_types(ex.mod.demangled(n))
    if len(ps) != 1 or 'iterator' in ex.mod.demangled(n).split('(')[0] and False:
        return NotImplemented
    return a[0]


@model(r'std::chrono::(_V2::)?steady_clock::now|std::chrono::(_V2::)?system_clock::now')
def m(ex, st, a, n):
    return ex.fresh_kind('now', 'i64', st)


# --------------------------------------------------------------------------------------------- stacks, growing vectors
def elem_cls(dem):
    for c in ('std::stack', 'std::vector', 'std::deque'):
        if dem.startswith(c + '<') or (' ' + c + '<') in dem.split('(')[0]:
            return c
    return None


@model(r'std::stack::stack')
def m(ex, st, a, n):
    ex.gstore(st, a[0], 'len', 0)
    ex.gstore(st, a[0], 'data', ex.newref())
    st.ghost['!stack'] = a[0]
    return None


@model(r'std::stack::~stack')
def m(ex, st, a, n):
    return None


@model(r'std::stack::(push|emplace)|std::vector::(push_back)|std::deque::(push_back)')
def m(ex, st, a, n):
    dem = ex.mod.demangled(n)
    c = [c for c in ('std::stack', 'std::vector', 'std::deque') if c + '<' in dem][0]
    sz = type_size(ex, first_targ(dem, c))
    if len(a) != 2 or ex.opts.get('no_push'):
        return NotImplemented
    ln = vec_len(ex, st, a[0])
    ex.memcpy(st, Ptr(vec_data(ex, st, a[0]), 0, sz, ln), a[1], sz)
    ex.gstore(st, a[0], 'len', add(ln, 1))
    return None


@model(r'std::stack::(empty)|std::deque::empty')
def m(ex, st, a, n):
    return eq(vec_len(ex, st, a[0]), 0)


@model(r'std::stack::(size)|std::deque::size')
def m(ex, st, a, n):
    return vec_len(ex, st, a[0])


@model(r'std::stack::(top)')
def m(ex, st, a, n):
    sz = type_size(ex, first_targ(ex.mod.demangled(n), 'std::stack'))
    ex.prove(st, lt(0, vec_len(ex, st, a[0])), 'top of a stack that is not empty')
    return Ptr(vec_data(ex, st, a[0]), 0, sz, sub(vec_len(ex, st, a[0]), 1))


@model(r'std::stack::(pop)|std::vector::pop_back')
def m(ex, st, a, n):
    ex.prove(st, lt(0, vec_len(ex, st, a[0])), 'pop from a stack that is not empty')
    ex.gstore(st, a[0], 'len', sub(vec_len(ex, st, a[0]), 1))
    return None


@model(r'std::vector::vector')
def m_vector(ex, st, a, n):
    """vector(): empty. vector(n[, value]) of integers. Others: not modelled here"""
    dem = ex.mod.demangled(n)
    t = first_targ(dem, 'std::vector')
    ps = param_types(dem)
    ps = [p for p in ps if 'allocator' not in p or 'vector' in p]
    if not ps:
        ex.gstore(st, a[0], 'len', 0)
        ex.gstore(st, a[0], 'data', ex.newref())
        return None
    if len(ps) == 1 and ps[0].startswith('std::vector<') and ps[0].endswith('&&'):
        ex.gstore(st, a[0], 'len', vec_len(ex, st, a[1]))
        ex.gstore(st, a[0], 'data', vec_data(ex, st, a[1]))
        ex.gstore(st, a[1], 'len', 0)
        ex.gstore(st, a[1], 'data', ex.newref())
        return None
    if ps[0] in ('unsigned long',) and len(ps) <= 2:
        sz = type_size(ex, t)
        if sz not in (1, 2, 4, 8) or '::' in t and not ex.opts.get('int_types', lambda t: False)(t) and t != 'std::byte':
            return NotImplemented
        ref = ex.newref()
        ex.gstore(st, a[0], 'len', a[1])
        ex.gstore(st, a[0], 'data', ref)
        v = 0
        if len(ps) == 2:
            v = ex.load(st, a[2], ir.Ty('int', 8 * sz))
        key = (sz, 0, 'i%d' % (8 * sz))
        arr = ex.heap_arr(st, key)
        st.heap[key] = z3.Store(arr, ref, z3.K(INT, iv(v)))
        return None
    return NotImplemented
