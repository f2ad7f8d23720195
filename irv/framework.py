"""Per-check context: build IR from /repo, discharge obligations, native replay."""
import os
import re
import sys
import json
import time
import pickle
import signal
import shutil
import subprocess
import tempfile
import traceback
import z3
from core import *
import anfprove

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = 'clang++'
INC = ['-I' + REPO, '-I' + VERIF + '/stubs', '-I/usr/include/android', '-I/usr/include/eigen3']

CRYPTO = ['/usr/lib/x86_64-linux-gnu/android/libcrypto.so', '-Wl,-rpath,/usr/lib/x86_64-linux-gnu/android']
ABSL = ['-Wl,--start-group'] + sorted(os.path.join('/usr/lib/x86_64-linux-gnu', f) for f in os.listdir('/usr/lib/x86_64-linux-gnu')
                                      if re.match(r'libabsl_(?!flags|random_|status).*\.a$', f)) + ['-Wl,--end-group', '-lpthread']


class Timeout(Exception):
    pass


SOFT = (Unsupported, AssertionError, KeyError, IndexError, AttributeError, TypeError, ValueError, z3.Z3Exception,
        RecursionError, Unmergeable, Timeout, MemoryError, Infeasible, PathEnd, NameError, ZeroDivisionError)


class Result:
    """one obligation and what became of it"""

    def __init__(self, name, status, backend, t, info=None, model=None, where='', kind='post', case=None, group=''):
        self.name, self.status, self.backend, self.time = name, status, backend, t
        self.info = None if info is None else str(info)[:2000]
        self.model = None if model is None else str(model)[:4000]
        self.where, self.kind, self.case, self.group = where, kind, case, group


class Ctx:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.quick = tier != 'thorough'
        self.results = []
        self.functions = {}
        self.contracts = set()
        self.assumptions = set()
        self.trusted = set()
        self.tmp = tempfile.mkdtemp(prefix='irv_%s_' % prop)
        self.solver_time = 0.0
        self.notes = []
        self.covers = []
        self.undecided = []
        self.nat = []            # native runs: dict
        self.t0 = time.time()
        self.gname = ''
        self.deadline = self.t0 + (600 if self.quick else 3000)

    # --------------------------------------------------------- building
    def ir(self, src, flags=(), name=None, text=None):
        """compile a file of /repo (or harness text that includes /repo headers) to IR and parse it"""
        if text is not None:
            src = os.path.join(self.tmp, (name or 'harness') + '.cpp')
            with open(src, 'w') as f:
                f.write(text)
        elif not os.path.isabs(src):
            src = os.path.join(REPO, 'distributed_vector_ole', src)
        out = os.path.join(self.tmp, (name or os.path.basename(src)) + '.%d.ll' % os.getpid())
        cmd = [CLANG, '-std=c++17', '-O0', '-g', '-S', '-emit-llvm', '-fno-discard-value-names', '-w',
               '-Xclang', '-disable-O0-optnone', '-DDVO_VERIFY_IR'] + list(flags) + INC + ['-I' + VERIF + '/stubs/clang'] + [src, '-o', out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise Unsupported('clang failed: ' + r.stderr[:1500])
        m = Module(open(out).read())
        os.unlink(out)
        return m

    def exec(self, mod, mode='bv'):
        ex = Exec(mod, mode)
        ex.ctx = self
        return ex

    # --------------------------------------------------------- recording
    def absorb(self, ex, case=None):
        """collect functions, assumptions and pending obligations of an executor"""
        for d, k in ex.called.items():
            if k == 'contract':
                self.contracts.add(d)
            else:
                self.functions[d] = k
        self.assumptions |= ex.assumptions
        self.solver_time += ex.solver_time
        ex.solver_time = 0.0
        ob, ex.obls = ex.obls, []
        for o in ob:
            self.discharge(ex, o, case=case)

    def record(self, name, status, backend, t=0.0, info=None, model=None, where='', kind='post', case=None):
        r = Result(name, status, backend, t, info, model, where, kind, case, self.gname)
        self.results.append(r)
        self.solver_time += t
        if status != 'proved' and os.environ.get('IRV_DEBUG'):
            print('  [%s] %s :: %s (%s) %s %s' % (status, self.gname, name, kind, where, r.info), 'case', case)
        return r

    def discharge(self, ex, o, timeout=60000, case=None):
        t = time.time()
        g = o.goal
        if isinstance(g, (bool, int)):
            g = z3.BoolVal(bool(g))
        if z3.is_true(g):
            return self.record(o.name, 'proved', 'simplifier', 0.0, o.info, where=o.where, kind=o.kind)
        pc = [c for c in o.pc if z3.is_expr(c)]
        st, model, be, det = solve(list(ex.facts) + pc, g, timeout)
        cs = None
        if st == 'refuted' and case is not None and model is not None:
            try:
                cs = case(model)
            except SOFT:
                cs = None
        return self.record(o.name, st, be, time.time() - t, det or o.info, model, o.where, o.kind, cs)

    def prove(self, ex, name, st, goal, info=None, timeout=60000, kind='post', case=None):
        o = Obligation(name, st.pc if st is not None else [], z3.simplify(goal) if z3.is_expr(goal) else goal, '', info, kind)
        return self.discharge(ex, o, timeout, case)

    def prove_all(self, ex, st, goals, timeout=60000, kind='post', case=None):
        """several obligations of one state: one solver call when all hold, one each otherwise"""
        gs = [(n, z3.simplify(g) if z3.is_expr(g) else z3.BoolVal(bool(g))) for n, g in goals]
        t = time.time()
        s, model, be, det = solve(list(ex.facts) + [c for c in st.pc if z3.is_expr(c)], z3.And(*[g for _, g in gs]), timeout)
        t = (time.time() - t) / max(1, len(gs))
        if s == 'proved':
            for n, g in gs:
                self.record(n, 'proved', 'simplifier' if z3.is_true(g) else be, t, kind=kind)
            return
        for n, g in gs:
            self.prove(ex, n, st, g, timeout=timeout, kind=kind, case=case)

    def prove_anf(self, name, a, b, n, pc, nvars, case=None):
        t = time.time()
        s, env = anfprove.prove_equal(a, b, n, pc, nvars, seed=self.seed)
        cs = case(env) if case is not None and s == 'refuted' else None
        return self.record(name, s, 'gf2-polynomial', time.time() - t, env if s == 'unknown' else None,
                           env if s == 'refuted' else None, case=cs)

    def check(self, name, ok, backend='symbolic evaluation', info=None, model=None, kind='post', case=None):
        return self.record(name, 'proved' if ok else 'refuted', backend, 0.0, info, model, kind=kind, case=case)

    def cover(self, name, ok):
        self.covers.append((name, bool(ok)))

    def feasible(self, ex, name, st):
        """vacuity guard: the path reaching this state must be satisfiable"""
        self.cover(name, ex.check(ex.zpc(st)) != z3.unsat)

    def group(self, name, f, *a):
        """run a proof script; an unsupported construct makes the group undecided, never a violation"""
        old, self.gname = self.gname, name
        try:
            if time.time() > self.deadline:
                raise Timeout('check deadline')
            return f(*a)
        except SOFT as e:
            if os.environ.get('IRV_DEBUG'):
                traceback.print_exc()
            self.undecided.append('%s: %s: %s' % (name, type(e).__name__, str(e)[:400]))
            return None
        finally:
            self.gname = old

    def parallel(self, jobs, workers=8):
        """jobs: list of (name, f, args...); each runs in a forked child, results are collected"""
        jobs = list(jobs)
        running = {}
        idx = 0

        def start(i):
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    c = self
                    c.results, c.functions, c.contracts, c.assumptions = [], {}, set(), set()
                    c.covers, c.undecided, c.nat, c.solver_time, c.notes, c.trusted = [], [], [], 0.0, [], set()
                    signal.signal(signal.SIGALRM, _alarm)
                    signal.alarm(max(5, int(self.deadline - time.time())))
                    c.group(jobs[i][0], jobs[i][1], c, *jobs[i][2:])
                    signal.alarm(0)
                    data = pickle.dumps((c.results, c.functions, c.contracts, c.assumptions, c.covers, c.undecided, c.nat, c.solver_time, c.notes, c.trusted))
                except BaseException as e:  # noqa
                    data = pickle.dumps(([], {}, set(), set(), [], ['%s: %s: %s' % (jobs[i][0], type(e).__name__, str(e)[:300])], [], 0.0, [], set()))
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
                sys.stdout.flush()
                os._exit(code)
            os.close(w)
            running[pid] = (i, r)

        import threading
        out = {}
        lock = threading.Lock()
        sem = threading.Semaphore(workers)
        threads = []

        def reader(pid, i, r):
            with os.fdopen(r, 'rb') as f:
                d = f.read()
            os.waitpid(pid, 0)
            with lock:
                out[i] = d
            sem.release()
        for i in range(len(jobs)):
            sem.acquire()
            start(i)
            pid = next(p for p, (k, _) in running.items() if k == i)
            t = threading.Thread(target=reader, args=(pid,) + running[pid])
            t.start()
            threads.append(t)
        for t in threads:
            t.join()
        for i in range(len(jobs)):
            try:
                a = pickle.loads(out[i])
            except Exception:
                self.undecided.append('%s: worker ended without a result' % jobs[i][0])
                continue
            self.results += a[0]
            self.functions.update(a[1])
            self.contracts |= a[2]
            self.assumptions |= a[3]
            self.covers += a[4]
            self.undecided += a[5]
            self.nat += a[6]
            self.solver_time += a[7]
            self.notes += a[8]
            self.trusted |= a[9]

    # --------------------------------------------------------- native
    def natives(self, runs):
        """several native programs at once; runs: list of (args, kwargs) for native()"""
        import threading
        ts = [threading.Thread(target=self.native, args=a, kwargs=k) for a, k in runs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def native(self, main, sources=(), flags=(), budget=20, name=None, libs=(), inc=(), cxx='g++', timeout=None, opt='-O1', env=None, patch=(), findings=()):
        """bounded stand-in and replay: build a program of /verif/native with the real sources and search"""
        n = Native(self, main, sources, flags, name, inc, cxx, libs, opt, env, patch)
        rec = dict(program=n.name, cmd=None, status='error', evaluations=0, distinct=0, samples=[], fail=None, spec=n.spec())
        self.nat.append(rec)
        ok, err = n.build()
        rec['cmd'] = n.cmd
        if not ok:
            rec['error'] = err
            return rec
        # verifier counterexamples first
        for r in self.results:
            if r.case and r.case[0] == n.name and not rec['fail']:
                rc, o, e = n.run(['case'] + list(r.case[1:]), timeout or 120)
                f = re.search(r'^FAIL (.*)$', o, re.M)
                if f:
                    rec.update(status='fail', fail=f.group(1), obligation=r.name)
        if rec['fail']:
            return rec
        b = budget if self.quick else budget * 10
        rc, o, e = n.run(['search', self.seed, b], timeout or b + 240)
        f = re.search(r'^FAIL (.*)$', o, re.M)
        k = re.search(r'^OK (\d+) (\d+)', o, re.M)
        rec['samples'] = re.findall(r'^SAMPLE (.*)$', o, re.M)
        if f:
            rec.update(status='fail', fail=f.group(1))
        elif rc == 0 and k:
            rec.update(status='ok', evaluations=int(k.group(1)), distinct=int(k.group(2)))
        else:
            rec['error'] = 'exit %s: %s' % (rc, (e or o)[-800:])
        for c in findings:      # the cases of recorded findings, one by one
            rc, o, e = n.run(['case'] + c.split(), 120)
            f = re.search(r'^FAIL (.*)$', o, re.M)
            if f:
                self.nat.append(dict(program=n.name, cmd=n.cmd, status='fail', evaluations=0, distinct=0, samples=[], fail=f.group(1), spec=n.spec()))
        return rec


def _alarm(*a):
    raise Timeout('time limit')


def pointwise(goal):
    """array equality -> equality at an arbitrary index, with reads expanded"""
    import loops
    if z3.is_eq(goal) and z3.is_array(goal.arg(0)):
        a, b = goal.children()
        while z3.is_array(a) and a.sort().domain() == z3.IntSort():
            j = z3.FreshInt('at')
            a, b = loops.rw(z3.Select(a, j)), loops.rw(z3.Select(b, j))
        return a == b
    if z3.is_and(goal):
        return z3.And(*[pointwise(g) for g in goal.children()])
    return goal


def solve(facts, goal, timeout=20000):
    """-> (status, model/None, backend, detail)"""
    import loops
    cache = {}
    fs = [loops.expand_i2b(f, cache) for f in facts]
    ng = z3.Not(loops.expand_i2b(pointwise(goal), cache))
    ax = [f(z3.IntVal(0)) == 0 for n, f in loops._I2B.items()]
    for c in CLOSURES:
        fs = fs + c(fs + [ng])
    plain = [f for f in fs if not has_quant(f)]
    if len(plain) < len(fs):
        # most obligations do not need the quantified facts
        s = z3.Solver()
        s.set('timeout', timeout // 4)
        s.add(*plain, *ax, ng)
        if s.check() == z3.unsat:
            return 'proved', None, 'z3 ' + z3.get_version_string(), None
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*fs, *ax, ng)
    r = s.check()
    if r == z3.unsat:
        return 'proved', None, 'z3 ' + z3.get_version_string(), None
    if r == z3.sat:
        return 'refuted', s.model(), 'z3 ' + z3.get_version_string(), None
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, f.name], capture_output=True, text=True, timeout=timeout / 1000 + 20)
        o = p.stdout.strip().split('\n')[0]
    except subprocess.TimeoutExpired:
        o = 'timeout'
    finally:
        os.unlink(f.name)
    if o == 'unsat':
        return 'proved', None, 'cvc5', None
    if o == 'sat':
        return 'refuted', None, 'cvc5', None
    return 'unknown', None, 'z3+cvc5', 'solver gave up: ' + str(s.reason_unknown())


class Native:
    def __init__(self, ctx, main, sources=(), flags=(), name=None, inc=(), cxx='g++', libs=(), opt='-O1', env=None, patch=()):
        self.ctx, self.main = ctx, main
        self.name = name or os.path.splitext(os.path.basename(main))[0]
        self.sources, self.flags, self.inc, self.cxx, self.libs, self.opt = list(sources), list(flags), list(inc), cxx, list(libs), opt
        self.env = env or {}
        self.patch = [tuple(p) for p in patch]      # (header, regular expression, replacement): a constant changed in a scratch copy of a header
        self.cmd = ''

    def spec(self):
        return dict(main=self.main, sources=self.sources, flags=self.flags, name=self.name, inc=self.inc, cxx=self.cxx, libs=self.libs, opt=self.opt, env=self.env, patch=self.patch)

    def build(self):
        self.bin = os.path.join(self.ctx.tmp, self.name + '.bin')
        pinc = []
        for f, rx, rep in self.patch:
            d = os.path.join(self.ctx.tmp, self.name + '_inc')
            t = os.path.join(d, f)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            txt, k = re.subn(rx, rep, open(t if os.path.exists(t) else os.path.join(REPO, f)).read())
            if not k:
                return False, 'no match for %s in %s' % (rx, f)
            with open(t, 'w') as o:
                o.write(txt)
            pinc = ['-I' + d]
        base = [self.cxx, '-std=c++17', self.opt, '-g', '-w'] + self.flags + pinc + self.inc + INC
        srcs = [os.path.join(VERIF, 'native', self.main)] + [s if os.path.isabs(s) else os.path.join(REPO, 'distributed_vector_ole', s) for s in self.sources]
        self.cmd = ' '.join(base + srcs + ['-o', self.name] + self.libs)
        objs, ps = [], []
        for i, s in enumerate(srcs):
            o = '%s.%d.o' % (self.bin, i)
            objs.append(o)
            ps.append(subprocess.Popen(base + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
        bad = ''
        for p in ps:
            o, e = p.communicate()
            if p.returncode:
                bad += e[:1500]
        if bad:
            return False, bad
        r = subprocess.run([self.cxx] + self.flags + objs + ['-o', self.bin] + self.libs, capture_output=True, text=True)
        for o in objs:
            os.unlink(o)
        return (True, '') if r.returncode == 0 else (False, r.stderr[:1500])

    def run(self, args=(), timeout=300):
        e = dict(os.environ)
        e.update(self.env)
        try:
            # address sanitizer reserves terabytes of address space: its own resident limit applies instead
            pre = ['bash', '-c', 'ulimit -v unlimited; exec "$@"', '-'] if any('-fsanitize=' in f and 'address' in f for f in self.flags) else []
            r = subprocess.run(pre + [self.bin] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, env=e, errors='replace')
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as ex:
            o = ex.stdout or ''
            return None, o.decode(errors='replace') if isinstance(o, bytes) else o, 'timeout'
