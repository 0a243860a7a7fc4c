"""C09: the in-memory stream delivers what was written, in order, then end-of-stream.

The queue is a ghost: how many blocks are queued; only the reader takes blocks away, writers only append.  A write appends exactly one
block that is a copy of the bytes given and wakes the reader; a read hands out the next bytes of the front block, keeps its place in
it, and removes the block when it has handed out its last byte."""
from spec import *
from models import ret
import mon
from mon import Monitor, segs, unchanged

DRV = os.path.join(os.path.dirname(__file__), 'C09.drv.cpp')
ASSUMPTIONS = ['std::mutex, std::condition_variable as for C11', 'std::list is a sequence; memory is not exhausted',
               'one reader; the element type is a byte, the only one the product uses', 'sizes below 2^62']
BIG = 2 ** 62
j = z3.Int('j')
MODELS = []


def model(rx):
    def deco(fn):
        MODELS.append((re.compile(rx), fn))
        return fn
    return deco


def nat(ex, st, name, lo=0):
    v = ex.fresh(name, INT, (lo, BIG))
    ex.assume_range(st, v, (lo, BIG))
    return v


def guarded(ex, st, p):
    ex.prove(st, bv(ex.ptr_eq(st, p, ex.flist)), 'the queue of this stream')
    ex.prove(st, len(st.ghost['held']) > 0, 'the queue is used only under the lock')


@model(r'std::list::(size|_M_node_count)')
def m_size(ex, st, a, n):
    guarded(ex, st, a[0])
    return st.ghost['cnt']


@model(r'std::list::empty')
def m_empty(ex, st, a, n):
    guarded(ex, st, a[0])
    return st.ghost['cnt'] == 0


def block(ex, st, k):
    b = ex.blocks.get(k)
    if b is None:
        ln = ex.fresh('len%d' % k, INT, (0, BIG))
        o = Obj('block%d' % k, None, fresh=False)
        b = ex.blocks[k] = (ln, o, Obj('node%d' % k, None, fresh=False))
    ln, o, node = b
    ex.assume_range(st, ln, (0, BIG))
    if not st.ro(o).regs:
        ex.mkregion(st, o, 0, 1, None)
    return b


@model(r'std::list::front')
def m_front(ex, st, a, n):
    guarded(ex, st, a[0])
    ex.prove(st, st.ghost['cnt'] > 0, 'there is a first block')
    ln, o, node = block(ex, st, st.ghost['pops'])
    acc(ex, st, 'spec::bl_put', [Ptr(node), ln, Ptr(o, 0, 1, 0)])
    return Ptr(node)


@model(r'std::list::pop_front')
def m_pop(ex, st, a, n):
    guarded(ex, st, a[0])
    ex.prove(st, st.ghost['cnt'] > 0, 'there is a block to remove')
    ln, o, node = block(ex, st, st.ghost['pops'])
    arr = ex.fresh('freed', z3.ArraySort(INT, INT))
    st.o(o).regs[0] = Region(1, arr, None)
    st.ghost['cnt'] = st.ghost['cnt'] - 1
    st.ghost['pops'] = st.ghost['pops'] + 1
    return None


def pushed(ex, st, size, data):
    st.ghost['cnt'] = st.ghost['cnt'] + 1
    st.ghost['pushed'] = st.ghost['pushed'] + ((size, data, ex.byte_reader(st, data) if isinstance(data.base, Obj) else None),)


@model(r'std::list::push_back')
def m_push(ex, st, a, n):
    guarded(ex, st, a[0])
    size, data = acc(ex, st, 'spec::bl_size', [a[1]]), acc(ex, st, 'spec::bl_data', [a[1]])
    pushed(ex, st, size, data)
    acc(ex, st, 'spec::bl_put', [a[1], size, Ptr(0)])
    return None


def on_delete(ex, st, a):
    st.ghost['deleted'] = st.ghost.get('deleted', ()) + (a[0],)


def queue_mon(ex, st, o, reader):
    def read(ex, s):
        return {'cnt': iv(s.ghost['cnt'])}

    def havoc(ex, s):
        c = nat(ex, s, 'cnt')
        if reader and 'cnt' in s.ghost:
            s.pc.append(c >= s.ghost['cnt'])       # others only append
        s.ghost['cnt'] = c
    m = Monitor(acc(ex, st, 'spec::ff_mtx', [o]), acc(ex, st, 'spec::ff_cv', [o]), read, havoc, None,
                lambda ex, s, v: v['cnt'] == 0 if reader else z3.BoolVal(False))

    def put(ex, s, v):
        s.ghost['cnt'] = v['cnt']
    m.setall = put
    ex.flist = acc(ex, st, 'spec::ff_list', [o])
    ex.blocks = {}
    st.ghost.update(pops=0, pushed=())
    return m


class Write(Contract):
    def __init__(self, base, stop=False):
        self.base, self.stop = base, stop

    def entry(self, ex, f):
        st = State()
        self.o = Ptr(Obj('fifo', None, fresh=False))
        self.mon = queue_mon(ex, st, self.o, False)
        mon.start(ex, st, [self.mon])
        self.left, self.ptr = acc(ex, st, 'spec::ff_left', [self.o]), acc(ex, st, 'spec::ff_ptr', [self.o])
        if self.stop:
            self.size = 0
            return st, [self.o]
        b = Obj('input', None, fresh=False)
        self.size = nat(ex, st, 'size')
        b.alloc = self.size
        start, rg = ex.mkregion(st, b, 0, 1, None)
        self.arr = rg.arr
        self.buf = Ptr(b, 0, 1, 0)
        return st, [self.o, self.buf, self.size]

    def post(self, ex, st, o, args):
        ex.prove(st, o[0] == 'ret', 'write does not throw')
        mon.finish(ex, st, [self.mon])
        ps = st.ghost['pushed']
        ex.prove(st, len(ps) == 1 and st.ghost['pops'] == 0, 'a write appends one block')
        if len(ps) != 1:
            return
        size, data, rd = ps[0]
        ex.prove(st, iv(size) == self.size, 'the block has the size given')
        if not self.stop:
            ex.prove(st, isinstance(data.base, Obj) and data.base is not self.buf.base, 'the block is a copy of its own')
            if rd is not None:
                ex.prove(st, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.size), rd(j) == z3.Select(self.arr, j))), 'the block holds the bytes given')
        ex.prove(st, all(isinstance(d.base, int) or d.base is not data.base for d in st.ghost.get('deleted', ())), 'the queued block is not deleted')
        for s in segs(st, self.mon):
            ex.prove(st, z3.Or(s.vin['cnt'] > 0, s.vout['cnt'] == 0, bool(s.notified)), 'a write to an empty queue wakes the reader')
            ex.prove(st, s.end == 'unlock', 'a write does not wait')
        ex.prove(st, iv(acc(ex, st, 'spec::ff_left', [self.o])) == iv(self.left), 'a write leaves the place of the reader alone')
        ex.prove(st, ex.ptr_eq(st, acc(ex, st, 'spec::ff_ptr', [self.o]), self.ptr), 'a write leaves the place of the reader alone')


class Read(Contract):
    def __init__(self, base, inside):
        self.base, self.inside = base, inside

    def entry(self, ex, f):
        st = State()
        self.o = Ptr(Obj('fifo', None, fresh=False))
        self.mon = queue_mon(ex, st, self.o, True)
        self.len, self.blk, _ = block(ex, st, 0)
        self.arr = st.ro(self.blk).regs[0].arr
        if self.inside:
            left = nat(ex, st, 'left', 1)
            st.pc += [left <= self.len]
            acc(ex, st, 'spec::ff_left_put', [self.o, left])
            acc(ex, st, 'spec::ff_ptr_put', [self.o, Ptr(self.blk, 0, 1, self.len - left)])
            c = nat(ex, st, 'cnt', 1)
            st.ghost['cnt'] = c
            self.p = self.len - left
        else:
            left = 0
            acc(ex, st, 'spec::ff_left_put', [self.o, 0])
            acc(ex, st, 'spec::ff_ptr_put', [self.o, Ptr(Obj('gone', None, fresh=False), 0, 1, nat(ex, st, 'gone'))])
            self.p = z3.IntVal(0)
        mon.start(ex, st, [self.mon])
        b = Obj('output', None, fresh=False)
        self.size = nat(ex, st, 'size')
        b.alloc = self.size
        start, rg = ex.mkregion(st, b, 0, 1, None)
        self.old = rg.arr
        self.buf = Ptr(b, 0, 1, 0)
        return st, [self.o, self.buf, self.size]

    def post(self, ex, st, o, args):
        ex.prove(st, o[0] == 'ret', 'read does not throw')
        if o[0] != 'ret':
            return
        mon.finish(ex, st, [self.mon])
        n = iv(o[1])
        av = self.len - self.p
        ex.prove(st, n == z3.If(self.size < av, self.size, av), 'a read gives as many bytes as asked for, or all that are left of the block')
        rd = ex.byte_reader(st, self.buf)
        ex.prove(st, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), rd(j) == z3.Select(self.arr, self.p + j))), 'a read gives the next bytes of the block')
        ex.prove(st, z3.ForAll([j], z3.Implies(z3.Or(j < 0, j >= n), rd(j) == z3.Select(self.old, j))), 'a read changes nothing else in the buffer')
        pops = st.ghost['pops']
        ex.prove(st, z3.And(pops <= 1, (n == av) == (pops == 1)), 'the block is removed exactly when its last byte was given')
        ex.prove(st, len(st.ghost['pushed']) == 0, 'a read appends nothing')
        left = iv(acc(ex, st, 'spec::ff_left', [self.o]))
        ex.prove(st, left == av - n, 'the place in the block is kept (count)')
        if pops == 0:
            ex.prove(st, ex.ptr_eq(st, acc(ex, st, 'spec::ff_ptr', [self.o]), Ptr(self.blk, 0, 1, self.p + n)), 'the place in the block is kept')
            ex.prove(st, st.ghost['cnt'] > 0, 'the block stays queued')


class Make(Contract):
    base = 'spec::ff_make'

    def entry(self, ex, f):
        st = State()
        ex.mons = []
        self.o = Ptr(Obj('fifo', None))
        return st, [self.o]

    def post(self, ex, st, o, args):
        ex.prove(st, iv(acc(ex, st, 'spec::ff_left', [self.o])) == 0, 'a new stream is at the start of a block')


def run(S):
    mod = S.module([DRV], extra=['-fno-access-control'])
    for c in [Make(), Write('spec::ff_write'), Write('spec::ff_write2'), Write('spec::ff_stop', True),
              Read('spec::ff_read', True), Read('spec::ff_read', False), Read('spec::ff_read2', True), Read('spec::ff_read2', False)]:
        ex = S.exec(mod, [], {'on_delete': on_delete}, models_extra=MODELS + mon.MODELS)
        ex.loop_hook = mon.wait_loop
        S.check(ex, c)
