"""What the text of a source file means (C06, C07): a reference automaton, written from the property text, that reads the text byte by
byte as the code takes it from its input. It is the online form of the scanner in harness/lex.hpp; OUT means that the text has left the
domain of the properties (a comment or raw-string opener in a literal, a line continuation, ...)."""
import z3
from sem import *
import models
from models import ret

OUT = 'OUT'
PREFIX = ('', 'u', 'u8', 'U', 'L')          # what may stand before R" for it to open a raw string


def among(lo_hi):
    def f(b):
        if isinstance(b, int):
            return any(l <= b <= h for l, h in lo_hi)
        return z3.Or(*[b == l if l == h else z3.And(b >= l, b <= h) for l, h in lo_hi])
    return f


def c(*chars):
    return among([(ord(x), ord(x)) for x in chars])


blank = among([(0, 32)])
ident = among([(48, 57), (65, 90), (97, 122), (95, 95), (128, 255)])


def neg_(f):
    return lambda b: not f(b)


def always(b):
    return True


def S(*a):
    return ':'.join(a)


class Ref:
    """G: ghost strings name, path, tag, endm. step() -> ordered list of (condition, next state, {ghost: new value}, event)"""

    def __init__(self, headers=True):
        self.headers = headers      # include paths may contain openers (C06); otherwise such texts are left out (C07)

    def text(self, cls, first):
        """a byte outside comments and literals; cls: the identifier that ends just before it"""
        idn = cls in ('u', 'u8', 'U', 'L', 'id')
        t = [(c('\n'), 'start'), (c('\\'), 'bs')]
        if first:
            t += [(blank, 'start'), (c('#'), 'hash')]
        t += [(c('/'), S('slash', '1' if first else '0')),
              (c('R'), S('R', '1' if cls in PREFIX else '0')),
              (c('"'), S('str', '"', '')),
              (c("'"), S('body', 'q') if idn else S('str', "'", ''))]
        if cls == 'u':
            t += [(c('8'), S('body', 'u8'))]
        if not idn:
            t += [(c('u'), S('body', 'u')), (c('U'), S('body', 'U')), (c('L'), S('body', 'L'))]
        return t + [(ident, S('body', 'id')), (always, S('body', ''))]

    def step(self, q, G):
        q = q.split(':')
        k = q[0]
        E = z3.Empty(SEQ)
        INC = models.lit(list(b'include'))

        def when(f):
            return lambda b: f(b) and G['name'] == INC
        if k == 'start':
            return self.text('', True)
        if k == 'body':
            return self.text(q[1], False)
        if k == 'bs':
            return [(c('\n'), OUT)] + self.text('', False)
        if k == 'slash':
            return [(c('/'), 'ss' if q[1] == '1' else 'lc'), (c('*'), S('bc', ''))] + self.text('slash', False)
        if k == 'R':
            return [(c('"'), 'rtag' if q[1] == '1' else OUT, {'tag': E})] + self.text('id', False)
        if k == 'ss':
            return [(c('@'), 'tag'), (c('\n'), 'start'), (c('\\'), 'lcbs'), (always, 'lc')]
        if k == 'lc':
            return [(c('\n'), 'start'), (c('\\'), 'lcbs'), (always, 'lc')]
        if k == 'lcbs':
            return [(c('\n'), OUT), (c('\\'), 'lcbs'), (always, 'lc')]
        if k == 'tag':
            return [(c('\n'), 'start'), (c('\\'), 'tagbs', {}, 'tag'), (always, 'tag', {}, 'tag')]
        if k == 'tagbs':
            return [(c('\n'), OUT), (c('\\'), 'tagbs', {}, 'tag'), (always, 'tag', {}, 'tag')]
        if k == 'bc':
            r = []
            if q[1] == '*':
                r = [(c('/'), S('body', 'slash'))]
            if q[1] == '\\':
                r = [(c('\n'), OUT)]
            return r + [(c('*'), S('bc', '*')), (c('\\'), S('bc', '\\')), (always, S('bc', ''))]
        if k == 'hash':
            return [(c('\n'), 'start'), (blank, 'hash'), (c('R'), S('name', 'R'), {'name': lambda b: z3.Unit(b)}),
                    (ident, S('name', ''), {'name': lambda b: z3.Unit(b)}), (always, OUT)]
        if k in ('name', 'prearg'):
            hdr = [(when(c('/')), OUT),
                   (when(c('"')), S('hdr', '"', ''), {'path': E}),
                   (when(c('<')), S('hdr', '>', ''), {'path': E})]
            if k == 'prearg':
                return [(c('\n'), 'start'), (blank, 'prearg'), (c('R'), S('R', '0'))] + hdr + self.text('', False)
            app = {'name': lambda b: z3.Concat(G['name'], z3.Unit(b))}
            return [(c('\n'), 'start'), (c('R'), S('name', 'R'), app), (ident, S('name', ''), app), (blank, 'prearg')] + \
                ([(c('"'), OUT)] if q[1] == 'R' else []) + hdr + [(neg_(c('"', '<', '/')), OUT)] + self.text('id', False)
        if k == 'hdr':
            e, p = q[1], q[2]
            r = [(lambda b: b == 0, OUT)]
            if p == '\\':
                r += [(c('\n'), OUT)]
            if not self.headers and p == '/':
                r += [(c('/', '*'), OUT)]
            if not self.headers and p == 'R':
                r += [(c('"'), OUT)]
            r += [(c('\n'), 'start'), (c(e), S('body', ''), {}, 'system' if e == '>' else 'quoted')]
            app = {'path': lambda b: z3.Concat(G['path'], z3.Unit(b))}
            r += [(c('\\'), S('hdr', e, '\\'), app)]
            if not self.headers:
                r += [(c('/'), S('hdr', e, '/'), app), (c('R'), S('hdr', e, 'R'), app)]
            return r + [(always, S('hdr', e, ''), app)]
        if k == 'rtag':
            return [(c('('), 'raw'), (blank, OUT), (c(')', '\\', '"'), OUT),
                    (always, 'rtag', {'tag': lambda b: z3.Concat(G['tag'], z3.Unit(b))})]
        # the raw string ends where )tag" is seen. The tag contains none of ) " and newline, so only the text since the last ) matters,
        # and none once it contains a " or a newline
        if k == 'raw':
            return [(c(')'), 'rawend', {'endm': E}), (always, 'raw')]
        if k == 'rawend':
            return [(lambda b: b == 34 and G['endm'] == G['tag'], S('body', '')), (c('"', '\n'), 'raw'),
                    (c(')'), 'rawend', {'endm': E}), (always, 'rawend', {'endm': lambda b: z3.Concat(G['endm'], z3.Unit(b))})]
        if k == 'str':
            d, p = q[1], q[2]
            cls = [(c('/'), S('str', d, '/')), (c('R'), S('str', d, 'R')), (always, S('str', d, ''))]
            if p == 'e':
                return [(c('\n'), OUT)] + cls
            r = [(c('\n'), OUT)]
            if p == '/':
                r += [(c('/', '*'), OUT)]
            if p == 'R':
                r += [(c('"'), OUT)]
            return r + [(c(d), S('body', 'q' if d == "'" else '')), (c('\\'), S('str', d, 'e'))] + cls
        raise Unsupported('reference state %s' % k)


class Script:
    """script files: lines that start, after blanks, with #@"""

    def step(self, q, G):
        nl = (c('\n'), 'start')
        return {'start': [nl, (blank, 'start'), (c('#'), 'hash'), (always, 'rest')],
                'hash': [nl, (c('@'), 'tag'), (always, 'rest')],
                'rest': [nl, (always, 'rest')],
                'tag': [nl, (always, 'tag', {}, 'tag')]}[q]


GH = ('name', 'path', 'tag', 'endm')


def start(ex, st):
    """the ghost strings are arbitrary: the automaton sets them before it looks at them"""
    st.ghost.update(q='start', cls='', last=z3.IntVal(-1))
    st.ghost['pos'] = ex.fresh('pos', INT, (0, None))
    for g in GH:
        st.ghost['g_' + g] = ex.fresh('g_' + g, SEQ)


def classes(ts):
    """the bytes, grouped by what the transitions ts do with them, and newlines apart: [(ranges, [(condition not on the byte, transition)])]"""
    groups = {}
    for b in range(256):
        sig = []
        for k, t in enumerate(ts):
            g = t[0](b)
            if g is False:
                continue
            sig.append(k if g is True else (k, g))
            if g is True:
                break
        groups.setdefault((b == 10,) + tuple(x if isinstance(x, int) else (x[0], x[1].sexpr()) for x in sig), ([], sig))[0].append(b)
    for bs, sig in groups.values():
        rs = []
        for b in bs:
            if rs and rs[-1][1] == b - 1:
                rs[-1][1] = b
            else:
                rs.append([b, b])
        yield rs, [(True, ts[x]) if isinstance(x, int) else (x[1], ts[x[0]]) for x in sig]


class Steps:
    """the executions of a loop body, as inputs to try on the real code if the proof fails: a text that leads to the state of the
    reference automaton, the byte taken, and several ways to go on"""
    PRE = {'start': [''], 'body': ['x ', 'x'], 'bs': ['x\\'], 'slash:1': ['/'], 'slash:0': ['x/', 'x /'], 'R:1': ['R', 'x R'], 'R:0': ['xR'], 'ss': ['//'],
           'lc': ['//x', '// ', 'x//'], 'lcbs': ['//x\\'], 'tag': ['//@', '//@ ', ' //@x', '//@x '], 'tagbs': ['//@x\\'], 'bc:': ['/*', 'x/* '], 'bc:*': ['/*x*', '/* **'],
           'bc:\\': ['/*\\'], 'hash': ['#', ' # '], 'hdr:>': ['#include <{path}', '#include <x'], 'hdr:"': ['#include "{path}', '#include "x', '#include"'],
           'rtag': ['R"{tag}', 'R"'], 'raw': ['R"{tag}(', 'R"x(', 'R"('], 'rawend': ['R"{tag}({endm}', 'R"{tag}(){endm}', 'R"x()', 'R"()'], 'name': ['#{name}'], 'prearg': ['#{name} ', '#include '],
           'str:"': ['"'], "str:'": ["'"], 'rest': ['x']}
    POST = ['', '\n', '"', '>', ' ', 'x', '/', '*/', '//', '/*', '@', '@ t', ')"', '){tag}"', 'x"', 'x>', '"x"', '<x>', 'include "x"', ' "x"', ' <x>', '\\', 'R"(', '(', '#', '\n#include "y"', '\n//@ y', '#@ y', '\n#@ y', '#include "y"', '#include <y>', '//@ y', '#@ y z', '*/\n#include "y"', '*/ x', '"\n#include <y>', '"\n//@ y', '){tag}"\n#include <y>', '>\n//@ y']

    def __init__(self):
        self.steps, self.ids = [], set()

    def add(self, st):
        t = st.ghost.get('step')
        if isinstance(t, tuple) and len(self.steps) < 6000:
            k = (t[0], t[1] if isinstance(t[1], int) else t[1].get_id(), tuple(p.get_id() for p in st.pc if isz(p)))
            if k not in self.ids:
                self.ids.add(k)
                self.steps.append((t, list(st.pc)))

    def witnesses(self, limit=60000, seconds=60):
        import time
        out, t0 = {}, time.time()
        for (q, b, G), pc in self.steps:
            s = z3.Solver()
            s.set('timeout', 500)
            s.add([p for p in pc if isz(p)])
            for _ in range(1 if isinstance(b, int) else 3):
                if time.time() - t0 > seconds or len(out) > limit:
                    return list(out)
                if s.check() != z3.sat:
                    break
                m = s.model()
                v = m.eval(iv(b), model_completion=True).as_long()
                g = {k: content(m, x) for k, x in G.items()}
                for k in (q, q.rsplit(':', 1)[0], q.split(':')[0]):
                    if k in self.PRE:
                        for pre in self.PRE[k]:
                            for post in self.POST:
                                w = [y.encode('latin-1') for y in (pre, post)]
                                for a, x in g.items():
                                    w = [y.replace(b'{' + a.encode() + b'}', x) for y in w]
                                out[w[0] + bytes([v]) + w[1]] = 1
                        break
                if isinstance(b, int):
                    break
                s.add(b != v)
        return list(out)


def content(m, x):
    """the bytes of a ghost string in a model"""
    try:
        n = min(m.eval(z3.Length(x), model_completion=True).as_long(), 64)
        return bytes(m.eval(x[z3.IntVal(i)], model_completion=True).as_long() % 256 for i in range(n))
    except Exception:
        return b''


def holds(ex, st, goals):
    """prove the goals; False if one fails: the execution is not followed any further then"""
    ok = True
    for g, name in goals:
        ex.prove(st, g, name)
        ok = ok and ex.entails(st, g)
    if not ok:
        ex.opts['steps'].add(st)
    return ok


def getchar(ref, ready, taken):
    """the next byte of the text, or -1 at its end. ready(ex, st): goals, what is owed for the bytes taken so far has been delivered;
    taken(ex, st, b, event): a byte is taken"""
    def fn(ex, st, a, n):
        if 'q' not in st.ghost:
            return NotImplemented
        if not holds(ex, st, ready(ex, st)):
            return [(st, ('stop',))]
        if st.ghost['q'] == 'eof':
            return ret(st, 2 ** 32 - 1)
        se = st.copy()
        se.ghost.update(q='eof', cls='-1', last=z3.IntVal(2 ** 32 - 1))
        q0 = st.ghost['q']
        out = ret(se, 2 ** 32 - 1)
        st.ghost['pos'] = st.ghost['pos'] + 1
        G = {g: st.ghost['g_' + g] for g in GH}
        for rs, ts in classes(ref.step(st.ghost['q'], G)):
            rest = st.copy()
            if len(rs) == 1 and rs[0][0] == rs[0][1]:
                b = rs[0][0]
            else:
                b = ex.fresh('ch', INT, (rs[0][0], rs[-1][1]))
                rest.pc += [b >= rs[0][0], b <= rs[-1][1]]
                if len(rs) > 1:
                    rest.pc.append(among(rs)(b))
            for g, t in ts:
                q2, upd, ev = t[1], t[2] if len(t) > 2 else {}, t[3] if len(t) > 3 else None
                s = rest.copy()
                if g is not True:
                    s.pc.append(g)
                    rest.pc.append(z3.Not(g))
                    if not ex.feasible(s):
                        continue
                if q2 == OUT:
                    out.append((s, ('stop',)))
                    continue
                s.ghost.update(q=q2, step=(q0, b, G), cls=' '.join('%d-%d' % (l, h) for l, h in rs), last=iv(b))
                for x, v in upd.items():
                    s.ghost['g_' + x] = v(iv(b)) if callable(v) else v
                taken(ex, s, b, ev)
                out += ret(s, b)
        return out
    return fn


def relations(more=None):
    """candidates: location i holds the value of a ghost variable, or is empty"""
    def fn(ex, st, M):
        r = {}
        for i, l in enumerate(M):
            if l[0] == 'ghostcell' and l[2][1] in ('str', 'path'):
                for g in GH:
                    r[(i, g)] = (i, st.ghost['g_' + g])
                r[(i, '')] = (i, z3.Empty(SEQ))
            else:
                if l[0] == 'cell':
                    r[(i, 'last')] = (i, st.ghost['last'])
                v = more(ex, st, l) if more else None
                if v is not None:
                    r[(i, 'more')] = (i, v)
        return r
    return fn


def refine(ex, st):
    """what it means that the last byte taken is of class cls"""
    k = st.ghost['cls']
    if k == '-1':
        st.ghost['last'] = z3.IntVal(2 ** 32 - 1)
    elif k:
        rs = [tuple(int(x) for x in r.split('-')) for r in k.split()]
        if len(rs) == 1 and rs[0][0] == rs[0][1]:
            st.ghost['last'] = z3.IntVal(rs[0][0])
        else:
            st.ghost['last'] = b = ex.fresh('ch', INT, (rs[0][0], rs[-1][1]))
            st.pc += [b >= rs[0][0], b <= rs[-1][1], among(rs)(b)]


def active(s0, s1):
    return not s0.ghost['pos'].eq(s1.ghost['pos'])
