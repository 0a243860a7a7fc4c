"""C21: names of policies, origins, formats and modes convert back and forth."""
from spec import *
from models import cstr_seq

DRV = os.path.join(os.path.dirname(__file__), 'C21.drv.cpp')
ENUMS = [('rebuild_policy', 2), ('source_file_origin', 4), ('log_format', 2), ('log_level', 3), ('ext_mode', 2)]
SRC = ['core/db/rebuild_policy.cpp', 'core/db/source_file_origin.cpp', 'core/db/log_format.cpp', 'core/db/compilation_log.cpp',
       'core/source_file_info_loaders/generic/source_file_loader.cpp']
ASSUMPTIONS = ['the enumerators of each setting are 0..n-1 with the n known to the specification']


class To(Contract):
    def __init__(self, nm, n):
        self.base = 'spec::%s_to' % nm
        self.n = n
        self.text = {}

    def entry(self, ex, f):
        st = State()
        v = self.cur
        return st, [v]

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', '%s: every value has a text' % self.base)
        if o[0] == 'ret':
            self.text[self.cur] = cstr_seq(ex, st, o[1])


class From(Contract):
    def __init__(self, nm, n, to):
        self.base = 'spec::%s_from' % nm
        self.n, self.to = n, to

    def entry(self, ex, f):
        st = State()
        if self.cur is None:
            self.s = ex.fresh('text', SEQ)
        else:
            self.s = self.to.text[self.cur]
        return st, [Ptr(CStr(self.s))]

    def post(self, ex, st, o, a):
        if self.cur is not None:
            ex.prove(st, o[0] == 'ret' and eq(o[1], self.cur), '%s: the text of a value reads back as that value' % self.base)
        elif o[0] == 'ret':
            ex.prove(st, z3.Or(*[self.s == t for t in self.to.text.values()]), '%s: any other text is rejected' % self.base)


def run(S):
    m = S.module([DRV] + SRC)
    ex = S.exec(m)
    for nm, n in ENUMS:
        to = To(nm, n)
        for v in range(n):
            to.cur = v
            S.check(ex, to)
        fr = From(nm, n, to)
        for v in list(to.text) + [None]:
            fr.cur = v
            S.check(ex, fr)
        st = State()
        ts = list(to.text.items())
        ex.cur_fn = to.base
        for i in range(len(ts)):
            for j in range(i):
                ex.prove(st, ts[i][1] != ts[j][1], '%s: distinct values have distinct texts' % to.base)
