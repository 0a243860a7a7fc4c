"""Assumed contracts of jansson's readers: a json value is a handle; what is read from one does not change (nothing here writes to
one).  A handle is an integer, 0 for none; jt its type, jget the member of an object, jat the element of an array, jlen its length,
jstr the text of a string."""
from spec import *
from models import ret, cstr_seq

MODELS = []
NULL_PTR = Ptr(0)
OBJECT, ARRAY, STRING, INTEGER, REAL, TRUE, FALSE, NULL = range(8)


def model(rx):
    def deco(fn):
        MODELS.append((re.compile(rx), fn))
        return fn
    return deco


def jt(ex, h):
    return ex.fun('json.type', INT, INT)(h)


def jget(ex, h, k):
    return ex.fun('json.get', INT, SEQ, INT)(h, k)


def jat(ex, h, i):
    return ex.fun('json.at', INT, INT, INT)(h, i)


def jlen(ex, h):
    return ex.fun('json.len', INT, INT)(h)


def jstr(ex, h):
    return ex.fun('json.str', INT, SEQ)(h)


def handle(ex, st, p):
    """the handle a pointer stands for"""
    if p.isnull():
        return z3.IntVal(0)
    if isz(p.base) and not p.s and p.c == 0:
        return iv(p.base)
    if isinstance(p.base, Obj) and p.base.name.startswith('json:'):
        return p.base.handle
    raise Unsupported('json pointer %r' % (p,))


def ptr(ex, st, h):
    p = Ptr(h, 0)
    learn(ex, st, h)
    return p


def learn(ex, st, h):
    t = jt(ex, h)
    st.facts.append(z3.And(h >= 0, t >= 0, t <= 7, jlen(ex, h) >= 0, jlen(ex, h) < 2 ** 62))
    # the type is the first field of a json_t
    st.facts.append(z3.Implies(h != 0, iv(ex.load_raw(st, Ptr(h, 0), 4, 'i32')) == t))


@model(r'json_object_get')
def m(ex, st, a, n):
    h = handle(ex, st, a[0])
    r = jget(ex, h, cstr_seq(ex, st, a[1]))
    st.facts.append(z3.Implies(z3.Or(h == 0, jt(ex, h) != OBJECT), r == 0))
    return ptr(ex, st, r)


@model(r'json_array_get')
def m(ex, st, a, n):
    h = handle(ex, st, a[0])
    r = jat(ex, h, iv(a[1]))
    st.facts.append((r != 0) == z3.And(h != 0, jt(ex, h) == ARRAY, iv(a[1]) < jlen(ex, h)))
    return ptr(ex, st, r)


@model(r'json_(array|object)_size')
def m(ex, st, a, n):
    h = handle(ex, st, a[0])
    r = ex.fresh('size', INT, (0, 2 ** 62))
    ex.assume_range(st, r, (0, 2 ** 62))
    want = ARRAY if 'array' in n else OBJECT
    st.facts.append(r == z3.If(z3.And(h != 0, jt(ex, h) == want), jlen(ex, h), 0))
    return r


@model(r'json_string_value')
def m(ex, st, a, n):
    h = handle(ex, st, a[0])
    out = []
    for s, c in models.fork(ex, st, z3.And(h != 0, jt(ex, h) == STRING)):
        out += ret(s, Ptr(CStr(jstr(ex, h))) if c else NULL_PTR)
    return out


@model(r'json_object_iter|json_object_iter_next')
def m(ex, st, a, n):
    r = ex.fresh('iter', INT, (0, 2 ** 62))
    st.facts.append(r >= 0)
    return Ptr(r, 0)


@model(r'json_object_iter_key')
def m(ex, st, a, n):
    return Ptr(CStr(ex.fun('json.iterkey', INT, SEQ)(handle(ex, st, a[0]))))


@model(r'json_object_iter_value')
def m(ex, st, a, n):
    r = ex.fun('json.itervalue', INT, INT)(handle(ex, st, a[0]))
    st.facts.append(r > 0)
    return ptr(ex, st, r)


@model(r'json_(incref|decref|delete)')
def m(ex, st, a, n):
    return None


@model(r'Maike::KeyValueStore::(KeyLookupError|TypeError)::.*')
def m(ex, st, a, n):
    return None
