"""C07: build tags are exactly the tagged lines.

A reference automaton (lexref.py) reads the text byte by byte as the code takes it. For every byte taken the code owes the same byte to
the source stream, a newline to the tag stream when it is a newline, and, behind the opener of a tagged line, the same byte at the same
column of the tag stream; what else it writes to the tag stream must be blank. All is delivered before the next byte is taken."""
from spec import *
from models import ret
import models
import autoloop
import lexref

SRC = ['core/source_file_info_loaders/cxx/source_file_loader.cpp', 'core/source_file_info_loaders/extension/source_file_loader.cpp']
ASSUMPTIONS = [
    "InputBuffer::getchar delivers the next byte, or -1 only when the source has reported its end (proved in C08)",
    "OutputBuffer passes the bytes put into it on to its sink, in order, at the latest when it is destroyed (proved in C08)",
    "the reference automaton (spec/lexref.py) states what a tagged line is; it leaves out the texts that are outside the domain",
]
MODELS = []


def model(rx):
    def deco(fn):
        MODELS.append((re.compile(rx), fn))
        return fn
    return deco


def ready(ex, st):
    g = st.ghost
    return [(g['src'] == 0, 'every byte is copied to the source stream'),
            (g['nl'] == 0, 'every newline is passed on to the tag stream'),
            (g['txt'] == 0, 'the text of a tagged line is passed on to the tag stream')]


def taken(ex, st, b, ev):
    """byte: the byte just taken; col: its column; src, nl, txt: what is owed; tcol: the bytes written to the current line of the tag
    stream"""
    g = st.ghost
    g['byte'] = iv(b)
    g['src'] = 1
    g['col'] = g['next']
    nl = ex.entails(st, iv(b) == 10)
    if not nl and not ex.entails(st, iv(b) != 10):
        raise Unsupported('a class of bytes with newline and others')
    g['nl'] = 1 if nl else 0
    g['txt'] = 1 if ev == 'tag' else 0
    g['open'] = g['q'] == 'tag' and ev is None       # the @ of the opener
    g['next'] = z3.IntVal(0) if nl else g['next'] + 1


def which(ex, n):
    m = re.search(r'OutputBuffer<Maike::Io::TaggedWriter<\(Maike::SourceFileInfoLoaders::TagFilterOutput\)(\d)>', ex.mod.demangled(n))
    if not m:
        raise Unsupported('another output')
    return int(m.group(1))


@model(r'Maike::Io::OutputBuffer::putchar')
def m_put(ex, st, a, n):
    g = st.ghost
    if 'q' not in g:
        return NotImplemented
    b = z3.simplify(iv(a[1]) % 256)
    stop = [(st, ('stop',))]
    if which(ex, n) == 0:
        if not lexref.holds(ex, st, [(g['src'] == 1, 'nothing but the input is written to the source stream'), (b == g['byte'], 'the source stream is a copy of the input')]):
            return stop
        g['src'] = 0
        return ret(st, a[0])
    if g['txt'] == 1:
        if not lexref.holds(ex, st, [(b == g['byte'], 'the text of a tagged line is copied'), (g['tcol'] == g['col'], 'the text of a tagged line keeps its column')]):
            return stop
        g['txt'] = 0
        g['tcol'] = g['tcol'] + 1
        return ret(st, a[0])
    out = []
    for s, c in models.fork(ex, st, b == 10):
        h = s.ghost
        if c:
            ok = lexref.holds(ex, s, [(h['nl'] == 1, 'the tag stream has no more newlines than the input')])
            h['nl'] = 0
            h['tcol'] = z3.IntVal(0)
        else:
            ok = lexref.holds(ex, s, [(b <= 32, 'what is not the text of a tagged line is blank'),
                                      (h['nl'] == 0 and (not h['q'].startswith('tag') or h['open']), 'nothing is put between or behind the text of a tagged line')])
            h['tcol'] = h['tcol'] + 1
        out += ret(s, a[0]) if ok else [(s, ('stop',))]
    return out


@model(r'Maike::Io::OutputBuffer::(OutputBuffer|~OutputBuffer)|Maike::Io::InputBuffer::(InputBuffer|~InputBuffer)')
def m_skip(ex, st, a, n):
    return ret(st)


class Filter(Contract):
    def __init__(self, base):
        self.base = base

    def entry(self, ex, f):
        st = State()
        lexref.start(ex, st)
        z = z3.IntVal(0)
        st.ghost.update(src=0, nl=0, txt=0, open=False, byte=ex.fresh('byte', INT), col=z, next=z, tcol=z)
        n = len(f.params)
        return st, [Ptr(Obj('arg%d' % i, None, fresh=False)) for i in range(n)]

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', 'filterInput does not throw')
        if o[0] != 'ret':
            return
        ex.prove(st, st.ghost['q'] == 'eof', 'the text is read to its end')
        lexref.holds(ex, st, ready(ex, st))


def more(ex, st, l):
    if l[0] == 'ghost' and l[1] == 'tcol':
        return st.ghost['next']


def run(S):
    mod = S.module(SRC, extra=['-fno-access-control'])
    for base, ref in (('Cxx::SourceFileLoader::filterInput', lexref.Ref(headers=False)), ('Extension::SourceFileLoader::filterInput', lexref.Script())):
        steps = lexref.Steps()
        ex = S.exec(mod, [], {'steps': steps}, models_extra=[(re.compile(r'Maike::Io::InputBuffer::getchar'), lexref.getchar(ref, ready, taken))] + MODELS)
        ex.loop_hook = autoloop.AutoLoop(lexref.relations(more), lexref.active, ('pos', 'last', 'step', 'byte', 'col', 'next', 'tcol'), lexref.refine, steps.add)
        S.check(ex, Filter(base))
        if [o for o in ex.obls if o.status != 'unsat'] or S.problems:
            S.witnesses += steps.witnesses()
