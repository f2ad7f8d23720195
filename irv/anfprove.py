"""ANF back end: decides equality of GF(2) polynomials under affine path conditions."""
import random
from vals import *


def elim(constraints):
    """Gaussian elimination of affine constraints (list of polys = 0).
    Returns (subst dict var->affine poly, inconsistent?, leftover nonlinear constraints)."""
    sub = {}
    rest = []

    def apply(p):
        out = P0
        for m in p:
            if m == ONE_M:
                out = out ^ P1
            elif len(m) == 1:
                v = next(iter(m))
                out = out ^ (sub[v] if v in sub else frozenset([m]))
            else:
                return None
        return out
    for p in constraints:
        if any(len(m) > 1 for m in p):
            rest.append(p)
            continue
        q = apply(p)
        if q == P0:
            continue
        if q == P1:
            return sub, True, rest
        piv = next(m for m in q if m != ONE_M)
        v = next(iter(piv))
        rhs = q ^ frozenset([piv])
        for k in list(sub):
            if piv in sub[k]:
                sub[k] = sub[k] ^ frozenset([piv]) ^ rhs
        sub[v] = rhs
    return sub, False, rest


def subst(p, sub):
    if not sub:
        return p
    out = P0
    for m in p:
        hit = [v for v in m if v in sub]
        if not hit:
            out = out ^ frozenset([m])
            continue
        term = frozenset([frozenset(v for v in m if v not in sub)])
        for v in hit:
            term = p_mul(term, sub[v])
        out = out ^ term
    return out


def evalp(p, env):
    r = 0
    for m in p:
        r ^= all(env.get(v, 0) for v in m)
    return r


def prove_equal(A, B, n, pc, nvars, tries=4000, seed=1):
    """-> ('proved', None) | ('refuted', env) | ('unknown', reason).  pc: list of AnfZero."""
    A, B = to_anf(A, n).bits, to_anf(B, n).bits
    diff = [(i, x ^ y) for i, (x, y) in enumerate(zip(A, B)) if x != y]
    if not diff:
        return 'proved', None
    pos = [p for c in pc if isinstance(c, AnfZero) and not c.neg for p in c.polys]
    neg = [c for c in pc if isinstance(c, AnfZero) and c.neg]
    sub, bad, rest = elim(pos)
    if bad:
        return 'proved', None
    diff = [(i, d) for i, d in ((i, subst(d, sub)) for i, d in diff) if d]
    if not diff:
        return 'proved', None
    rng = random.Random(seed)
    for t in range(tries):
        w = rng.random()
        env = {v: int(rng.random() < w) for v in range(nvars) if v not in sub}
        for v, p in sub.items():
            env[v] = evalp(p, env)
        if any(evalp(p, env) for p in rest):
            continue
        if any(all(evalp(p, env) == 0 for p in c.polys) for c in neg):
            continue
        if any(evalp(d, env) for _, d in diff[:8]) or any(evalp(d, env) for _, d in diff):
            return 'refuted', env
    # satisfy the non-linear leftovers / the difference by a SAT query
    import z3
    s = z3.Solver()
    s.set('timeout', 60000)
    vs = {}

    def zp(p):
        r = z3.BoolVal(False)
        for m in p:
            t = z3.And([vs.setdefault(v, z3.Bool('v%d' % v)) for v in m]) if m else z3.BoolVal(True)
            r = z3.Xor(r, t)
        return r
    if sum(len(d) for _, d in diff) + sum(len(p) for p in rest) < 40000:
        for p in rest:
            s.add(z3.Not(zp(p)))
        for c in neg:
            s.add(z3.Or([zp(subst(p, sub)) for p in c.polys]))
        s.add(z3.Or([zp(d) for _, d in diff]))
        r = s.check()
        if r == z3.unsat:
            return 'proved', None
        if r == z3.sat:
            m = s.model()
            env = {v: int(z3.is_true(m.eval(x, model_completion=True))) for v, x in vs.items()}
            for v in range(nvars):
                if v not in env and v not in sub:
                    env[v] = 0
            for v, p in sub.items():
                env[v] = evalp(p, env)
            return 'refuted', env
    return 'unknown', 'polynomials differ but no witness found'
