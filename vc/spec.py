"""Sessions: compile the sources of /repo to LLVM IR, put functions under contract, discharge the obligations."""
import hashlib
import os
import re
import shutil
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
import models
import z3
from sem import *

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Missing(Exception):
    """a function the specification talks about is not there"""


class Contract:
    """contract of one function: base name, a regular expression its demangled name must contain"""
    base = None
    sig = None
    top = True          # must exist; otherwise an internal function whose absence only means it gets inlined

    def entry(self, ex, f):
        raise NotImplementedError

    def post(self, ex, st, o, args):
        raise NotImplementedError

    def apply(self, ex, st, args, name):
        return NotImplemented


class Pure(Contract):
    """throws(ex, st, args) -> condition, value(ex, st, args) -> result; nothing else is changed"""

    def __init__(self, base, nargs, throws, value, sig=None, top=True, mk=None, pre=None):
        self.base, self.nargs, self.throws, self.value, self.sig, self.top, self.mk, self.pre = \
            base, nargs, throws, value, sig, top, mk, pre

    def entry(self, ex, f):
        st = State()
        args = self.mk(ex, st) if self.mk else [Ptr(Obj('arg%d' % i, fresh=False)) for i in range(self.nargs)]
        if self.pre:
            st.pc.append(bv(self.pre(ex, st, args)))
        return st, args

    def post(self, ex, st, o, args):
        ts = sym_state(st)
        t = self.throws(ex, ts, args)
        if o[0] == 'exc':
            ex.prove(st, t, '%s: throws only when its contract says so' % self.base, extra=ts.pc[len(st.pc):])
        else:
            ex.prove(st, neg(t), '%s: returns only when its contract says so' % self.base, extra=ts.pc[len(st.pc):])
            v = self.value(ex, ts, args)
            r = o[1]
            if isinstance(r, Ptr) or isinstance(v, Ptr):
                g = ex.ptr_eq(st, r, v)
            else:
                g = eq(r, v) if not (isz(v) and z3.is_bool(v) or isinstance(v, bool)) else bv(ex.to_bool(r)) == bv(v)
            ex.prove(st, g, '%s: result as its contract says' % self.base, extra=ts.pc[len(st.pc):])

    def apply(self, ex, st, args, name):
        if self.pre:
            ex.prove(st, bv(self.pre(ex, st, args)), '%s: precondition at call' % self.base)
        t = self.throws(ex, st, args)
        out = []
        for s, c in models.fork(ex, st, t):
            if c:
                out += models.throw(s)
            else:
                out += models.ret(s, self.value(ex, s, args))
        return out


def sym_state(st):
    return st.copy()


class Session:
    def __init__(self, prop, tier='quick'):
        self.prop = prop
        self.tier = tier
        self.dir = tempfile.mkdtemp(prefix='vc_%s_' % prop, dir=os.environ.get('VERIF_TMP', '/tmp'))
        self.execs = []
        self.functions = []        # functions under contract, discharged in this run
        self.problems = []         # unsupported, missing: no verdict from the verifier for these
        self.notes = []
        self.witnesses = []        # inputs (bytes) worth trying on the real code when an obligation is not discharged
        self.cmds = []
        self.mods = {}
        self.t0 = time.time()
        self.deadline = self.t0 + (float(os.environ.get('VERIF_PROOF_S', '240')) if tier == 'quick' else 3000)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---------------------------------------------------------------- sources
    def module(self, srcs, extra=(), shim=True):
        """one Module from several translation units; srcs are paths below /repo, or absolute (drivers in /verif)"""
        key = (tuple(srcs), tuple(extra), shim)
        if key in self.mods:
            return self.mods[key]
        jobs = []
        for n, s in enumerate(srcs):
            src = s if os.path.isabs(s) else os.path.join(REPO, s)
            out = os.path.join(self.dir, 'u%d_%d.ll' % (len(self.mods), n))
            ex = list(extra) + ['-I', HERE]
            if shim:
                ex += ['-include', os.path.join(HERE, 'shim', 'algo.hpp')]
            jobs.append((src, out, ex))
        with ThreadPoolExecutor(8) as tp:
            cmds = list(tp.map(lambda j: ir.compile_ir(j[0], j[1], j[2], repo=REPO), jobs))
        self.cmds += [' '.join(c) for c in cmds]
        m = ir.Module()
        for _, out, _ in jobs:
            m.load(out)
            os.unlink(out)
        m.demangle_all()
        self.mods[key] = m
        return m

    def exec(self, mod, contracts=(), opts=None, models_extra=()):
        ex = Exec(mod, opts)
        models.install(ex, models_extra)
        ex.deadline = self.deadline
        if self.tier == 'thorough':
            ex.z3_timeout = 120000
        ex.contract_list = []
        self.use(ex, contracts)
        self.execs.append(ex)
        return ex

    def use(self, ex, contracts):
        ex.contract_list += list(contracts)
        by = {}
        for c in ex.contract_list:
            by.setdefault(c.base, []).append(c)

        def mk(cs):
            def h(ex, st, args, name):
                d = ex.mod.demangled(name)
                for c in cs:
                    if (c.sig is None or re.search(c.sig, d)) and c is not ex.__dict__.get('verifying'):
                        return c.apply(ex, st, args, name)
                return NotImplemented
            return h
        for b, cs in by.items():
            ex.contracts[b] = mk(cs)
        ex.cache.clear()

    def find(self, ex, base, sig=None):
        r = [f for f in ex.mod.funcs.values() if f.lines is not None and ex.basename(f.name) == base
             and (sig is None or re.search(sig, ex.mod.demangled(f.name)))]
        return r

    def check(self, ex, c):
        """discharge the contract of every function it names"""
        fs = self.find(ex, c.base, c.sig)
        if not fs:
            if c.top:
                self.problems.append('function %s not found' % c.base)
            return
        for f in fs:
            self.run1(ex, c, f)

    def run1(self, ex, c, f):
        ex.cur_fn = c.base
        n0 = len(ex.obls)
        t0 = time.time()
        ex.verifying = c
        ex.depth = 0
        ex.dry = 0
        try:
            st, args = c.entry(ex, f)
            k = 0
            for s, o in ex.run_func(st, f, args):
                if not ex.feasible(s):
                    continue
                k += 1
                c.post(ex, s, o, args)
            if k == 0:
                self.problems.append('%s: no execution reaches its end (vacuous)' % c.base)
            self.functions.append({'function': ex.mod.demangled(f.name)[:300], 'obligations': len(ex.obls) - n0,
                                   'outcomes': k, 'seconds': round(time.time() - t0, 2)})
        except Unsupported as e:
            if os.environ.get("VERIF_TB"): traceback.print_exc()
            self.problems.append('%s: outside the verifier\'s reach: %s' % (c.base, e))
        except ir.IRError as e:
            self.problems.append('%s: IR: %s' % (c.base, e))
        except RecursionError:
            self.problems.append('%s: recursion limit' % c.base)
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                raise
            self.problems.append('%s: verifier error %s: %s' % (c.base, type(e).__name__, traceback.format_exc()[-400:]))
        finally:
            ex.verifying = None

    # ---------------------------------------------------------------- results
    def obligations(self):
        return [o for e in self.execs for o in e.obls]

    def failed(self):
        return [o for o in self.obligations() if o.status != 'unsat']

    def solver_time(self):
        return sum(e.solver_time for e in self.execs)

    def assumed(self):
        d = {}
        for e in self.execs:
            for k, v in e.assumed.items():
                d[k] = d.get(k, 0) + v
        return d

    def inlined(self):
        d = {}
        for e in self.execs:
            for k, v in e.inlined.items():
                d[k] = d.get(k, 0) + v
        return d


def acc(ex, st, base, args, sig=None):
    """the value a (side-effect free) accessor of the code returns in state st"""
    for f in ex.mod.funcs.values():
        if f.lines is not None and ex.basename(f.name) == base and (sig is None or re.search(sig, ex.mod.demangled(f.name))):
            ex.dry += 1
            try:
                rs = ex.run_func(st, f, args)
            finally:
                ex.dry -= 1
            if len(rs) != 1 or rs[0][1][0] != 'ret':
                raise Unsupported('accessor %s' % base)
            if rs[0][0] is not st:
                st.pc[:] = rs[0][0].pc
            return rs[0][1][1]
    raise Missing(base)
