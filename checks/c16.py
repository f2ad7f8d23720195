"""C16: the suggested bucket count always fits the inputs."""
from fractions import Fraction
from cuckoocommon import *

FUNCTIONS = ['CuckooHasher::GetOptimalNumberOfBuckets']
ASSUMPTIONS = ['doubles as exact reals', 'statistical security from 40 to 128 bits (3 hash functions) or 40 to 80 bits (2 hash functions), at most 2^40 inputs',
               'two hash functions: the search loop is shown to return only fitting values; that it ends is covered by the native runs']
TRUSTED = TRUSTED + ['log2: monotone, log2(2^k) = k', 'erf: monotone, in (-1, 1), bounded by its values (to 1e-9) on a grid of step 1/16', 'pow(x, -2.5) lies in (0, 0.177] for x >= 2', 'sqrt(2) to 1e-12', 'ceil']
R = z3.RealSort()
LOG2, ERF, POWN = z3.Function('log2', R, R), z3.Function('erf', R, R), z3.Function('pow', R, R, R)


def grid():
    import math
    out = []
    for i in range(-64, 65):
        x = Fraction(i, 16)
        y = Fraction(math.erf(i / 16)).limit_denominator(10 ** 12)
        out.append((x, y))
    return out


def logfacts(e, x):
    e.facts += [f for k in range(0, 64) for f in (z3.Implies(x > 0, (x < 2 ** k) == (LOG2(x) < k)), z3.Implies(x == 2 ** k, LOG2(x) == k))]


def powfacts(e, x):
    v = POWN(x, z3.RealVal('-2.5'))
    e.facts += [z3.Implies(x >= 1, z3.And(v > 0, v <= 1)), z3.Implies(x >= 2, v <= z3.RealVal('0.177'))]
    e.facts += [z3.Implies(x >= 2 ** k, v <= z3.RealVal(1) / 2 ** (5 * k // 2)) for k in range(1, 28)]
    return v


def setup16(ctx):
    ex, C, L, mem = setup_c(ctx, ctx.module)
    ex.on(r'^llvm\.fmuladd\.f64', lambda e, st, a, d: e.real(a[0]) * e.real(a[1]) + e.real(a[2]))

    def ceil(e, st, a, d):
        v = e.real(a[0])
        return z3.ToReal(-z3.ToInt(-v))
    ex.on(r'^(llvm\.ceil\.f64|ceil)$', ceil)
    def log2(e, st, a, d):
        x = a[0]
        x = z3.ToReal(to_int(x, 64)) if is_int(x) or isinstance(x, int) else e.real(x)
        logfacts(e, x)
        return LOG2(x)
    ex.on(r'(^|\s)(std::)?log2(<|$)', log2)
    # log2(0) only arises in code that is not reached

    def erf(e, st, a, d):
        x = e.real(a[0])
        y = ERF(x)
        e.facts += [y > -1, y < 1]
        eps = Fraction(1, 10 ** 9)
        for t, v in grid():
            q = lambda f: z3.RealVal(f.numerator) / f.denominator
            e.facts += [z3.Implies(x >= q(t), y >= q(v - eps)), z3.Implies(x <= q(t), y <= q(v + eps))]
        # erf(x) >= -1 + something positive is monotone as well: below the grid the value is only known to exceed -1
        return y
    ex.on(r'^(std::)?erf$', erf)

    def sqrt(e, st, a, d):
        if isinstance(a[0], int) and a[0] == 2 or a[0] == 2.0:
            s = z3.Real('sqrt2')
            e.facts += [s > z3.RealVal('1.414213562373'), s < z3.RealVal('1.414213562374')]
            return s
        raise Unsupported('sqrt')
    ex.on(r'(^|\s)(std::)?sqrt(<|$)', sqrt)

    def pw(e, st, a, d):
        x, y = e.real(a[0]), e.real(a[1])
        if not z3.is_rational_value(z3.simplify(y)) or z3.simplify(y).as_fraction() != Fraction(-5, 2):
            raise Unsupported('pow')
        return powfacts(e, x)
    ex.on(r'^(std::)?pow$', pw)
    return ex, C, L, mem


def start(ctx, h):
    ex, C, L, mem = setup16(ctx)
    st = State()
    p = Ptr(ex.new_obj('hasher'))
    sec = z3.Real('security')
    ex.store(st, p.field(mem['num_hash_functions_']), 32, h)
    ex.store(st, p.field(mem['statistical_security_']), 64, sec)
    n = I('num_inputs')
    st.pc += [n <= 2 ** 40, n >= -2 ** 63, sec >= 40]
    return ex, L, st, p, sec, n


def suggest(ctx, h, lo=None, hi=None):
    """h = 2 or 3 hash functions; lo, hi: range of log2(num_inputs)"""
    ex, L, st, p, sec, n = start(ctx, h)
    st.pc.append(sec <= (128 if h == 3 else 80))
    if lo is None:
        st.pc.append(n <= 0)
    else:
        st.pc += [n >= 1, LOG2(z3.ToReal(n)) >= z3.RealVal(str(lo)), LOG2(z3.ToReal(n)) <= z3.RealVal(str(hi))]
    LN = LOG2(z3.ToReal(n))

    def hint(auto, fr, bb, s):
        def inv(a, t, k, t0):
            from c14 import local
            e, sv = ex.real(ex.load(t, local(ex, fr.fn, 'e'), 64)), ex.real(ex.load(t, local(ex, fr.fn, 's'), 64))
            if a is not None:
                logfacts(ex, e)
            pw = powfacts(ex, e)
            m = -int(-(81 - (lo or 0)) // 3.3)
            lim = z3.And(e >= 1, e <= 2 ** m + 1)
            return [('the candidate is at least 1, bounded, and the security is that of the candidate',
                     z3.And(lim, z3.Or(z3.And(e == 1, sv == 0), z3.And(e >= 2, sv == ex.real(3.3) * LOG2(e) + ex.real(-0.8) + LN - (5 * LN + 14) * pw))))]
        return dict(inv=inv)
    if h == 2:
        L.hints.append(('GetOptimalNumberOfBuckets', hint))
    r = Ptr(ex.new_obj('result'))
    res = ex.call_fn(ctx.module.find(CLS + r'::GetOptimalNumberOfBuckets\(')[0], [r, p, n], st)
    ctx.cover('GetOptimalNumberOfBuckets returns', len(res) > 0)
    ok = False
    for s, _ in res:
        code = to_int(ex.load(s, r, 32), 32)
        if lo is None:
            ctx.prove(ex, 'negative input counts are rejected, others are not', s, (code == 0) == (n >= 0))
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 5000) == z3.unsat:
            continue
        ok = True
        v = to_int(ex.load(s, r.field(8), 64), 64)
        if lo is None:
            s.pc.append(n <= 0)
        ctx.prove(ex, 'the suggested bucket count is at least the number of inputs', s, v >= n)
        ctx.prove(ex, 'the suggested bucket count is positive', s, v >= 1)
    ctx.cover('GetOptimalNumberOfBuckets succeeds', ok)
    ctx.absorb(ex)


def other(ctx):
    h = I('h')
    ex, L, st, p, sec, n = start(ctx, h)
    st.pc += [h != 2, h != 3, n != 0]
    r = Ptr(ex.new_obj('result'))
    res = ex.call_fn(ctx.module.find(CLS + r'::GetOptimalNumberOfBuckets\(')[0], [r, p, n], st)
    ctx.cover('GetOptimalNumberOfBuckets returns', len(res) > 0)
    for s, _ in res:
        ctx.prove(ex, 'other numbers of hash functions are rejected', s, to_int(ex.load(s, r, 32), 32) != 0)
    ctx.absorb(ex)


def proof(ctx):
    ctx.module = ctx.ir(None, ['-DNDEBUG'], name='cuckoo', text=H)
    steps = [Fraction(i, 2) for i in range(0, 31)] + [Fraction(i) for i in range(16, 41, 4)]
    steps = sorted(set(steps + [Fraction(40)]))
    ctx.parallel([('2 hash functions, log2 in [%d, %d]' % (a, a + 4), suggest, 2, a, a + 4) for a in range(0, 40, 4)] + [('2 hash functions, no input', suggest, 2), ('3 hash functions, no input', suggest, 3), ('other', other)] +
                 [('3 hash functions, log2 in [%s, %s]' % (float(a), float(b)), suggest, 3, float(a), float(b)) for a, b in zip(steps, steps[1:])])


def native(ctx):
    cuckoo_native(ctx, 16)
