"""C14: cuckoo hashing places every input exactly once."""
from cuckoocommon import *

FUNCTIONS = ['CuckooHasher::HashCuckoo<T>']
ASSUMPTIONS = ['at most 2^40 inputs and buckets', 'CuckooHasher::Hash by its contract (proved in C24)', 'log2 is the real logarithm; its value only decides between an error and the result']
HJ = z3.Function('hash_bucket', z3.IntSort(), z3.IntSort(), z3.IntSort())       # input index, hash function -> bucket
ASG = z3.Function('assigned', z3.IntSort(), z3.IntSort(), z3.BoolSort())        # input index, bucket: some hash function assigns it


def forall(vs, body, pats):
    """triggers are given where the arrays are plain constants (assumed invariants); goals need none"""
    if all(z3.is_const(p.arg(0)) if z3.is_select(p) else True for p in pats):
        return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*pats) if len(pats) > 1 else pats[0]])
    return z3.ForAll(vs, body)


def local(ex, fn, name):
    o = [k for k, v in ex.objs.items() if v.get('alloca') == name and v.get('fn') == fn.name]
    if not o:
        raise Unsupported('no local variable ' + name)
    return Ptr(max(o))


def stores(a, out=None):
    """indices written by the stores of an array term"""
    out = [] if out is None else out
    if z3.is_store(a):
        out.append(a.arg(1))
        stores(a.arg(0), out)
    elif z3.is_app_of(a, z3.Z3_OP_ITE):
        stores(a.arg(1), out)
        stores(a.arg(2), out)
    return out


def exact(ctx, t):
    m = ctx.module
    h = Hasher(ctx, m)
    ex, st, C, L = h.ex, h.st, h.C, h.L
    n, b = I('num_inputs'), I('b')
    st.pc += [b >= -2 ** 63, b < 2 ** 40]
    S, S0 = h.inputs(t, n)
    i_, j_, k_, k2 = I('i_'), I('j_'), I('k_'), I('k2_')

    def hash_contract(e, s, a, d):
        # StatusOr<vector<InlinedVector>> Hash(span, buckets): success iff the number of buckets is positive
        r, nn, bb = a[0], to_int(a[3], 64), to_int(a[4], 64)
        e.oblige('Hash is called with all inputs and the number of buckets', s, z3.And(nn == n, bb == b), kind='pre')
        e.store(s, r, 32, z3.If(bb >= 1, z3.IntVal(0), z3.IntVal(3)))
        v = r.field(8)
        C.set_size(s, v, nn)
        row = C.elem(s, v, 0, INNER)
        sz = z3.K(z3.IntSort(), h.h)
        # sizes and elements of all rows
        cells = C.cells(INNER)[1]
        i, j = I('hc_i'), I('hc_j')
        vals = [sz, z3.Lambda([i], z3.Lambda([j], HJ(i, j)))]
        C.set_arrays(s, v, INNER, vals)
        return None
    ex.on(r'CuckooHasher::Hash<', hash_contract)
    ex.on(r'std::log2<', lambda e, s, a, d: e.fresh('log2', z3.RealSort()))
    ex.facts += [z3.ForAll([i_, j_], z3.Implies(z3.And(i_ >= 0, i_ < n, j_ >= 0, j_ < h.h), z3.And(HJ(i_, j_) >= 0, HJ(i_, j_) < b, ASG(i_, HJ(i_, j_)))), patterns=[HJ(i_, j_)])]
    fns = m.find(CLS + r'::HashCuckoo<%s>\(' % t)

    def arrays(s):
        B = C.arrays(s, local(ex, fn, 'buckets'), 'long')[0]
        N = C.arrays(s, local(ex, fn, 'next_hash_function'), 'int')[0]
        return B, N

    def base(B, N, cur, extra):
        """(name, goal) pairs; cur: number of the inputs placed so far"""
        k, k2 = z3.FreshInt('k'), z3.FreshInt('q')
        bk, b2 = z3.Select(B, k), z3.Select(B, k2)
        rng = lambda x: z3.And(x >= 0, x < b)
        return [
            ('every bucket holds -1 or an input already handled', forall([k], z3.Implies(rng(k), z3.And(bk >= -1, bk <= cur - 1 + extra)), [bk])),
            ('the bucket of an input is one its hash functions assign', forall([k], z3.Implies(z3.And(rng(k), bk >= 0), ASG(bk, k)), [bk])),
            ('no input is in two buckets', forall([k, k2], z3.Implies(z3.And(rng(k), rng(k2), k != k2, bk >= 0), bk != b2), [bk, b2])),
            ('the next hash function of every bucket exists', forall([k], z3.Implies(rng(k), z3.And(z3.Select(N, k) >= 0, z3.Select(N, k) < h.h)), [z3.Select(N, k)])),
        ]
    fn = m.functions[fns[0]]

    # "input e is in some bucket": the witness for the assumed invariant is a function of e
    def placed_hyp(B, lim, but=None):
        P = z3.Function('pos!%d' % ex.fresh_n, z3.IntSort(), z3.IntSort())
        ex.fresh_n += 1
        e = z3.FreshInt('e')
        c = z3.And(e >= 0, e < lim, *([e != but] if but is not None else []))
        return z3.ForAll([e], z3.Implies(c, z3.And(P(e) >= 0, P(e) < b, z3.Select(B, P(e)) == e)), patterns=[P(e)]), P

    pos = []

    def placed_goal(B, lim, but, hyps):
        e = z3.FreshInt('e')
        c = z3.And(e >= 0, e < lim, *([e != but] if but is not None else []))
        cand = [P(e) for P in hyps] + stores(B)
        return z3.Implies(c, z3.Or(*[z3.And(x >= 0, x < b, z3.Select(B, x) == e) for x in cand]) if cand else z3.BoolVal(False))

    def mk_inv(inner):
        state = {}

        def inv(auto, s, k, st0):
            B, N = arrays(s)
            i = to_int(ex.load(s, local(ex, fn, 'i'), 64), 64)
            cur = to_int(ex.load(s, local(ex, fn, 'current_element'), 64), 64) if inner else None
            hf = to_int(ex.load(s, local(ex, fn, 'current_hash_function'), 32), 32) if inner else None
            g = base(B, N, i, 1 if inner else 0)
            hyp = z3.is_const(B) and B.decl().kind() == z3.Z3_OP_UNINTERPRETED and B.decl().name() not in state and s is not st0
            if inner:
                q = z3.FreshInt('k')
                g += [('the element in hand is an input handled so far', z3.And(cur >= 0, cur <= i)),
                      ('the hash function in hand exists', z3.And(hf >= 0, hf < h.h)),
                      ('the element in hand is in no bucket', forall([q], z3.Implies(z3.And(q >= 0, q < b), z3.Select(B, q) != cur), [z3.Select(B, q)]))]
            lim = i + 1 if inner else i
            if hyp:
                state[B.decl().name()] = 1
                f, P = placed_hyp(B, lim, cur)
                pos.append(P)
                return g + [('every other input handled so far is in a bucket' if inner else 'every input handled so far is in a bucket', f)]
            return g + [('every other input handled so far is in a bucket' if inner else 'every input handled so far is in a bucket', placed_goal(B, lim, cur, pos))]
        return dict(inv=inv)

    def hint(auto, fr, bb, s):
        body = fr.fn.loops[bb]
        inner = not any(x in fr.fn.loops for x in body if x != bb)
        return mk_inv(inner)
    L.hints.append((r'HashCuckoo<', hint))
    r = Ptr(ex.new_obj('result'))
    res = ex.call_fn(fns[0], [r, h.p, S0, n, b], st)
    ctx.cover('HashCuckoo returns', len(res) > 0)
    good = False
    for s, _ in res:
        code = to_int(ex.load(s, r, 32), 32)
        ctx.prove(ex, 'more inputs than buckets, a non-positive bucket count or one hash function are rejected', s, z3.Implies(z3.Or(n > b, b <= 0, h.h == 1), code == 3))
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good = True
        v = r.field(8)
        B = C.arrays(s, v, 'long')[0]
        k, k2 = I('k'), I('k2')
        s.pc += [k >= 0, k < b]
        bk, b2 = z3.Select(B, k), z3.Select(B, k2)
        ctx.prove(ex, 'one entry per bucket', s, to_int(C.size(s, v), 64) == b)
        ctx.prove(ex, 'every entry is -1 or an input index', s, z3.And(bk >= -1, bk < n))
        ctx.prove(ex, 'a placed input is in a bucket that one of its hash functions assigns', s, z3.Implies(bk >= 0, ASG(bk, k)))
        ctx.prove(ex, 'no input is in two buckets', s, z3.Implies(z3.And(k2 >= 0, k2 < b, k2 != k, bk >= 0), bk != b2))
        ctx.prove(ex, 'every input is in some bucket', s, placed_goal(B, n, None, pos))
    ctx.cover('HashCuckoo succeeds', good)
    ctx.absorb(ex)


def proof(ctx):
    ctx.module = ctx.ir(None, ['-DNDEBUG'], name='cuckoo', text=H)
    ctx.parallel([('HashCuckoo<%s>' % t, exact, t) for t, _ in TY])


def native(ctx):
    cuckoo_native(ctx, 14)
