#!/usr/bin/env python3-vt
"""check.py <property> [--thorough]: decide one property on /repo's current tree."""
import importlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'vc'), os.path.join(HERE, 'spec')]
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')


def sources():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'core')):
        ds[:] = [x for x in ds if not x.startswith(('.', '__'))]
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith('.cpp') and not re.search(r'test', f):
                with open(p, errors='replace') as fh:
                    if not re.search(r'^\s*int\s+main\s*\(', fh.read(), re.M):
                        out.append(p)
    return sorted(out)


def build_harness(prop, tmp, drop=()):
    try:
        return build_harness1(prop, tmp, drop)
    except RuntimeError:
        if not re.search(r'^// sources: ', open(os.path.join(HERE, 'harness', prop + '.cpp')).read(), re.M):
            raise
        return build_harness1(prop, tmp, drop, True)


def build_harness1(prop, tmp, drop=(), everything=False):
    """compile every source of the product and the harness against it -> path of the binary"""
    src = os.path.join(HERE, 'harness', prop + '.cpp')
    text = open(src).read()
    m = re.search(r'^// flags: (.*)$', text, re.M)
    flags = [x for x in (m.group(1).split() if m else []) if x not in drop]
    m = re.search(r'^// sources: (.*)$', text, re.M)
    want = m.group(1).split() if m and not everything else None
    cxx = ['g++', '-std=c++17', '-O1', '-w', '-pthread', '-iquote', REPO, '-I', REPO, '-I', os.path.join(HERE, 'harness'), *flags]
    jobs = [(src, os.path.join(tmp, 'harness.o'))]
    srcs = sources() if want is None else [os.path.join(REPO, w) for w in want if w != 'none']
    for k, s in enumerate(srcs):
        jobs.append((s, os.path.join(tmp, 'o%d.o' % k)))
    errs = []

    def one(j):
        r = subprocess.run(cxx + ['-c', j[0], '-o', j[1]], capture_output=True, text=True)
        if r.returncode:
            errs.append('%s: %s' % (j[0], r.stderr[:1500]))
    with ThreadPoolExecutor(8) as tp:
        list(tp.map(one, jobs))
    if not os.path.exists(jobs[0][1]):
        raise RuntimeError('the harness does not compile: ' + ' | '.join(e for e in errs if e.startswith(src))[:1500])
    lib = os.path.join(tmp, 'lib.a')
    objs = [o for _, o in jobs[1:] if os.path.exists(o)]
    if objs:
        subprocess.run(['ar', 'rcs', lib] + objs, check=True)
    exe = os.path.join(tmp, 'harness')
    r = subprocess.run(cxx + [jobs[0][1]] + ([lib, lib] if objs else []) + ['-ljansson', '-o', exe], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('the harness does not link: %s %s' % (r.stderr[:1500], ' | '.join(errs)[:1500]))
    return exe


def run_harness(prop, exe, tmp, tier, seed, limit, **more):
    d = os.path.join(tmp, 'scratch')
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    env = dict(os.environ, **more, VH_DIR=d, VERIF_TIER=tier, VERIF_SEED=str(seed), TMPDIR=d, HOME=d)
    fo, fe = os.path.join(tmp, 'stdout'), os.path.join(tmp, 'stderr')
    with open(fo, 'wb') as so, open(fe, 'wb') as se:
        p = subprocess.Popen([exe], stdin=subprocess.DEVNULL, stdout=so, stderr=se, env=env, cwd=d, start_new_session=True)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)        # commands that the harness left behind
        except ProcessLookupError:
            pass
        p.wait()
    if rc is None:
        return {'error': 'harness exceeded %d s' % limit}
    for ln in reversed(open(fo, 'rb').read().decode('latin-1').splitlines()):
        if ln.startswith('{"evaluations"'):
            return json.loads(ln)
    return {'error': 'harness gave no result (status %d): %s' % (rc, open(fe, 'rb').read().decode('latin-1')[-600:])}


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vcheck_%s_' % prop, dir='/tmp')
    try:
        return decide(prop, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, t0, tmp):
    import spec
    os.environ['VERIF_TMP'] = tmp
    S = spec.Session(prop, tier)
    hb = {}
    has_h = os.path.exists(os.path.join(HERE, 'harness', prop + '.cpp'))
    has_s = os.path.exists(os.path.join(HERE, 'spec', prop + '.py'))

    def harness():
        try:
            exe = hb['exe'] = build_harness(prop, tmp)
        except Exception as e:
            hb['error'] = str(e)
            return
        hb.update(run_harness(prop, exe, tmp, tier, seed, 420 if tier == 'quick' else 3000))
        if hb.get('error') and '-fsanitize=thread' in open(os.path.join(HERE, 'harness', prop + '.cpp')).read():
            hb.clear()      # no ThreadSanitizer here: run without it
            shutil.rmtree(os.path.join(tmp, 'scratch'), ignore_errors=True)
            try:
                hb.update(run_harness(prop, build_harness(prop, tmp, ('-fsanitize=thread',)), tmp, tier, seed, 420 if tier == 'quick' else 3000))
            except Exception as e:
                hb['error'] = str(e)
    import threading
    th = None
    if has_h and '--no-harness' not in sys.argv:
        th = threading.Thread(target=harness)
        th.start()
    t1 = time.time()
    M = None
    if has_s:
        try:
            M = importlib.import_module(prop)
            M.run(S)
        except spec.ir.IRError as e:
            S.problems.append('the code does not go through the verifier front end: %s' % e)
        except Exception as e:
            S.problems.append('specification does not fit the code: %s: %s' % (type(e).__name__, traceback.format_exc()[-700:]))
    proof_s = time.time() - t1
    if th:
        th.join()
    obs, failed = S.obligations(), S.failed()
    exe = hb.pop('exe', None)
    if (failed or S.problems) and S.witnesses and exe and not hb.get('error'):
        # inputs built from the executions of the proof attempt, tried on the real code
        with open(os.path.join(tmp, 'witness'), 'w') as f:
            f.writelines(w.hex() + '\n' for w in S.witnesses)
        w = run_harness(prop, exe, tmp, tier, seed, 300, VH_WITNESS=os.path.join(tmp, 'witness'))
        if w.get('error'):
            hb['error'] = w['error']
        for k in ('violations', 'evaluations', 'distinct_nontrivial'):
            if w.get(k):
                hb[k] = (hb.get(k) or type(w[k])()) + w[k]
    refuted = [o for o in failed if o.exact]
    undecided = [o for o in failed if o not in refuted]
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    replay = os.path.join(HERE, 'evidence', 'replay', prop + '.txt')
    viol = hb.get('violations') or []
    lines = []
    code = 0
    known = known_findings(prop)
    new = [v for v in viol if not any(k in v for k in known)]
    for k in known:
        if any(k in v for v in viol):
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, k))
    if new or refuted:
        code = 1
        with open(replay, 'w') as f:
            f.write('property %s on %s, tier %s, seed %d\n' % (prop, REPO, tier, seed))
            f.write('replay: cd /verif && VERIF_SEED=%d python3-vt check.py %s\n\n' % (seed, prop))
            for v in new:
                f.write('FAILING INPUT (run against the real code)\n%s\n\n' % v)
            for o in failed:
                f.write('FAILED OBLIGATION (%s, %s) in %s: %s\n  goal: %s\n  solver model:\n' %
                        (o.status, o.backend, o.fn, o.name, o.detail))
                for x in (o.model or [])[:60]:
                    f.write('    %s\n' % x)
                f.write('\n')
        if new:
            lines.append('VIOLATION property=%s replay=%s' % (prop, replay))
        else:
            lines.append('failed obligation: %s: %s' % (refuted[0].fn, refuted[0].name))
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
    elif os.path.exists(replay):
        os.unlink(replay)
    proved = has_s and obs and not failed and not S.problems
    if code == 0 and not proved:
        # no verdict from the verifier: the bounded stand-in decides, labelled as such
        if not th or hb.get('error'):
            code = 2
            lines.append('ERROR property=%s %s' % (prop, '; '.join(S.problems + ([hb['error']] if hb.get('error') else []))[:1500]))
        else:
            for p in S.problems:
                lines.append('note: bounded stand-in for: %s' % p[:500])
            for x in dict.fromkeys((o.fn, o.name) for o in undecided):
                lines.append('note: undecided obligation (bounded stand-in): %s: %s' % x)
    level = manifest_level(prop)
    backs = {}
    for o in obs:
        backs[o.backend] = backs.get(o.backend, 0) + (o.status == 'unsat')
    cov = {'obligations': len(obs), 'discharged': len(obs) - len(failed),
           'checker_cmd': 'VERIF_SEED=%d python3-vt check.py %s%s' % (seed, prop, ' --thorough' if tier == 'thorough' else ''),
           'trusted_base': ['clang 18 -O0 as the front end (C++ to LLVM IR)', 'vc/ir.py, vc/sem.py: IR semantics and obligation generation',
                            'z3 %s, cvc5 1.1.2' % spec.z3.get_version_string()] +
           ['assumed contract: %s (used %d times)' % kv for kv in sorted(S.assumed().items())],
           'functions_under_contract': S.functions, 'inlined_functions': sorted(k for k in S.inlined() if not k.startswith('spec::'))[:200],
           'discharged_by': backs, 'solver_seconds': round(S.solver_time(), 2), 'proof_seconds': round(proof_s, 2),
           'not_proved': S.problems + ['%s: %s (%s)' % (o.fn, o.name, o.status) for o in undecided],
           'obligation_names': sorted({'%s: %s' % (o.fn, o.name) for o in obs})[:300],
           'compile_commands': S.cmds[:6]}
    if th:
        cov['bounded_replay'] = {k: hb.get(k) for k in ('rule', 'error') if hb.get(k)}
        cov['evaluations'] = hb.get('evaluations', 0)
        cov['distinct_nontrivial'] = hb.get('distinct_nontrivial', 0)
        cov['rule'] = hb.get('rule', '')
        cov['samples'] = hb.get('samples', [])
    ass = list(getattr(M, 'ASSUMPTIONS', [])) if M else []
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': ass,
          'wall_s': round(time.time() - t0, 2), 'violations': len(new) + (len(refuted) if not new else 0)}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    S.close()
    for ln in lines:
        print(ln)
    if hb.get('error'):
        print('note: harness: ' + hb['error'][:600])
    print('%s: %d obligations, %d discharged, %d functions under contract, %d harness cases, %.1f s, exit %d' %
          (prop, len(obs), len(obs) - len(failed), len(S.functions), hb.get('evaluations', 0), time.time() - t0, code))
    return code


def known_findings(prop):
    """texts of the listed findings: lines 'finding: property=<id> <text that the violation contains>'"""
    out = []
    try:
        for ln in open(os.path.join(HERE, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) (.*)', ln.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    except FileNotFoundError:
        pass
    return out


def manifest_level(prop):
    try:
        for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
            if c['property'] == prop:
                return c['level']
    except Exception:
        pass
    return 'proof'


if __name__ == '__main__':
    sys.exit(main())
