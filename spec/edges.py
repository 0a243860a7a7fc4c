"""visitEdges, visitNodes, getNodeById, size of the product's graph: each dependency and each node exactly once, in order"""
from spec import *
from models import vec_len, vec_data
DRV = os.path.join(os.path.dirname(__file__), 'edges.drv.cpp')


class Visit(Contract):
    def __init__(self, base, lists, elem, call):
        self.base, self.lists, self.elem, self.call = base, lists, elem, call

    def entry(self, ex, f):
        st = State()
        self.rec = Ptr(Obj('record', fresh=False))
        self.vecs = [acc(ex, st, l, [self.rec]) for l in self.lists]
        self.data = [iv(vec_data(ex, st, v)) for v in self.vecs]
        self.len = [vec_len(ex, st, v) for v in self.vecs]
        if self.elem.endswith('Dependency'):
            st.pc.append(bv(ex.to_bool(acc(ex, st, 'spec::rec_valid', [self.rec]))))
        for k in range(len(self.lists)):
            st.ghost['seen%d' % k] = 0
        ex.visit = self
        return st, [self.rec]

    def seen(self, ex, st, p):
        sz = models.type_size(ex, self.elem)
        for k, d in enumerate(self.data):
            if isinstance(p, Ptr) and isz(p.base) and p.base.eq(d):
                g = 'seen%d' % k
                ex.prove(st, conj(p.c == 0 and p.s in (0, sz), eq(p.i if p.s else 0, st.ghost[g])), '%s: elements are visited in order' % self.base)
                st.ghost[g] = add(st.ghost[g], 1)
                return
        ex.prove(st, False, '%s: only its own elements are visited' % self.base)

    def post(self, ex, st, o, a):
        ex.prove(st, o[0] == 'ret', '%s: returns' % self.base)
        for k in range(len(self.lists)):
            ex.prove(st, eq(st.ghost['seen%d' % k], self.len[k]), '%s: every element is visited exactly once' % self.base)


def run(S):
    m = S.module([DRV])

    def see(ex, st, a, n):
        ex.visit.seen(ex, st, a[0])
        return None
    ex = S.exec(m, [], models_extra=[(re.compile('spec::seen|spec::seen_node'), see)])
    D, Rn = 'Maike::Db::Dependency', 'Maike::Db::SourceFileRecordConst'
    cs = [Visit('spec::edges', ['spec::use', 'spec::build'], D, 'spec::seen'), Visit('spec::use_edges', ['spec::use'], D, 'spec::seen'),
          Visit('spec::nodes', ['spec::graph_nodes'], Rn, 'spec::seen_node')]
    for c in cs:
        S.check(ex, c)

    def mk(ex, st):
        g = Ptr(Obj('graph', fresh=False))
        i = ex.fresh('i', INT, (0, 2 ** 62))
        n = vec_len(ex, st, acc(ex, st, 'spec::graph_nodes', [g]))
        st.pc += [i >= 0, i < iv(n)]
        return [g, i]
    S.check(ex, Pure('spec::by_id', 2, lambda ex, st, a: False,
                     lambda ex, st, a: Ptr(vec_data(ex, st, acc(ex, st, 'spec::graph_nodes', [a[0]])), 0, models.type_size(ex, Rn), a[1]), mk=mk))
    S.check(ex, Pure('spec::graph_size', 1, lambda ex, st, a: False,
                     lambda ex, st, a: vec_len(ex, st, acc(ex, st, 'spec::graph_nodes', [a[0]])), mk=lambda ex, st: [Ptr(Obj('graph', fresh=False))]))
