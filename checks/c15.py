"""C15: simple hashing is complete, sorted and thread-independent.

The parallel region is verified per thread, for an arbitrary thread t of TH threads: the OpenMP runtime calls have
contracts (chunks in thread order, ordered sections in iteration order), and the state of the shared result at the entry
of the ordered section is the guarantee of the threads before."""
from cuckoocommon import *
from ggmcommon import local, header_vars
from c24 import value

FUNCTIONS = ['CuckooHasher::HashSimple<T> and its parallel region', 'the parallel region of CuckooHasher::Hash<T>']
ASSUMPTIONS = ['OpenMP runtime: schedule(static) gives thread t the t-th of consecutive chunks, TH iterations on TH threads give one each in thread order, ordered sections run one at a time in iteration order, a region ends when all threads have',
               'at most 2^40 inputs and buckets', 'CuckooHasher::Hash by its contract (C24; its parallel region is verified here)', 'log2 is arbitrary: its value only decides between an error and the result']
HJ = z3.Function('hash_bucket', z3.IntSort(), z3.IntSort(), z3.IntSort())       # input, hash function -> bucket
CN = z3.Function('count', z3.IntSort(), z3.IntSort(), z3.IntSort())             # pairs before (i, j) that hash into bucket KK
LO = z3.Function('chunk', z3.IntSort(), z3.IntSort())                           # first iteration of a thread
II, JJ, KK, NH = I('ii'), I('jj'), I('kk'), I('h')
TT, TH, n, b = I('thread'), I('threads'), I('num_inputs'), I('b')
VL = 'std::vector<long, std::allocator<long> >'
PAR = ['-DNDEBUG', '-fopenmp']


def hit(i, j):
    return z3.If(HJ(i, j) == KK, z3.IntVal(1), z3.IntVal(0))


def lexle(x, y):
    return z3.Or(x[0] < y[0], z3.And(x[0] == y[0], x[1] <= y[1]))


def dom(x):
    return z3.And(x[0] >= 0, x[1] >= 0, x[1] <= NH)


_CT = {}


def counts(fs):
    out = {}
    for f in fs:
        if not z3.is_expr(f):
            continue
        h = _CT.get(f.get_id())
        if h is None:
            o, seen, todo = {}, set(), [f]
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x):
                    if x.decl().eq(CN):
                        k = tuple(z3.simplify(c) for c in x.children())
                        o[tuple(c.get_id() for c in k)] = k
                    todo += x.children()
                elif z3.is_quantifier(x):
                    pass
            h = _CT[f.get_id()] = (f, o)
        out.update(h[1])
    return out


def count_lemmas(fs):
    ts = counts(fs)
    if not ts:
        return []
    out = [CN(0, 0) == 0]
    more = dict(ts)

    def add(i, j):
        i, j = z3.simplify(i), z3.simplify(j)
        more[(i.get_id(), j.get_id())] = (i, j)
    for i, j in list(ts.values()):
        out.append(z3.Implies(z3.And(i >= 0, j >= 1, j <= NH), CN(i, j) == CN(i, z3.simplify(j - 1)) + hit(i, z3.simplify(j - 1))))
        out.append(z3.Implies(z3.And(i >= 1, j == 0), CN(i, j) == CN(z3.simplify(i - 1), NH)))
        add(i, j - 1)
        if z3.is_int_value(j) and j.as_long() == 0:
            add(i - 1, NH)
    add(II, JJ)
    L = list(more.values())
    for x in L:
        out.append(z3.Implies(dom(x), CN(*x) >= 0))
        # the pair (II, JJ) itself is counted in everything behind it
        out.append(z3.Implies(z3.And(dom(x), dom((II, JJ)), JJ < NH, z3.Not(lexle(x, (II, JJ)))), CN(II, JJ) + hit(II, JJ) <= CN(*x)))
    for x in L:
        for y in L:
            if x is not y:
                out.append(z3.Implies(z3.And(dom(x), dom(y), lexle(x, y)), CN(*x) <= CN(*y)))
    return out


def lemmas(ctx):
    """monotonicity of the count, by induction over the steps of the second pair"""
    ex = ctx.exec(ctx.module, 'int')
    x0, x1, y0, y1 = I('x0'), I('x1'), I('y0'), I('y1')
    step = [CN(y0, y1 + 1) == CN(y0, y1) + hit(y0, y1), CN(y0 + 1, 0) == CN(y0, NH)]
    st = State()
    st.pc += step + [NH >= 1, dom((x0, x1)), dom((y0, y1))]
    ctx.prove(ex, 'lemma: counts do not decrease within an input', st, z3.Implies(z3.And(CN(x0, x1) <= CN(y0, y1), y1 < NH), CN(x0, x1) <= CN(y0, y1 + 1)), kind='lemma')
    ctx.prove(ex, 'lemma: counts do not decrease from one input to the next', st, z3.Implies(CN(x0, x1) <= CN(y0, NH), CN(x0, x1) <= CN(y0 + 1, 0)), kind='lemma')
    s = st.copy()
    s.pc.append(z3.And(x0 == y0, x1 == y1))
    ctx.prove(ex, 'lemma: a pair is counted in the next count', s, z3.Implies(y1 < NH, CN(x0, x1) + hit(x0, x1) <= CN(y0, y1 + 1)), kind='lemma')
    s = st.copy()
    s.pc += [CN(x0, x1) >= 0]
    ctx.absorb(ex)


def calls(fn, blocks, name):
    return any(i.op in ('call', 'invoke') and name in str((i.a, i.x)) for k in blocks for i in fn.blocks[k])


class Omp:
    """contracts of the OpenMP runtime for thread TT of TH"""

    def __init__(self, h):
        ex = h.ex
        self.h = h
        self.state = None
        ex.on(r'^omp_get_num_threads$', lambda e, s, a, d: TH)
        ex.on(r'^omp_get_thread_num$', lambda e, s, a, d: TT)
        ex.on(r'^__kmpc_for_static_init_8u?$', self.static_init)
        ex.on(r'^__kmpc_(for_static_fini|barrier|dispatch_fini_\d+u?)$', lambda e, s, a, d: None)
        ex.on(r'^__kmpc_dispatch_init_4u?$', self.dispatch_init)
        ex.on(r'^__kmpc_dispatch_next_4u?$', self.dispatch_next)
        ex.on(r'^__kmpc_global_thread_num$', lambda e, s, a, d: e.fresh('gtid', z3.IntSort()))
        ex.facts += [TH >= 1, TH < 2 ** 20, TT >= 0, TT < TH, LO(0) == 0, LO(TH) == n, LO(TT) >= 0, LO(TT) <= LO(TT + 1), LO(TT + 1) <= n]
        self.dispatched = 0

    def static_init(self, e, s, a, d):
        sched, plo, pup = a[2], a[4], a[5]
        if sched != 34:
            raise Unsupported('schedule %s of a static loop' % sched)
        e.oblige('the loop runs over all inputs', s, z3.And(to_int(e.load(s, plo, 64), 64) == 0, to_int(e.load(s, pup, 64), 64) == n - 1, to_int(a[7], 64) == 1), kind='pre')
        e.store(s, plo, 64, LO(TT))
        e.store(s, pup, 64, z3.simplify(LO(TT + 1) - 1))

    def dispatch_init(self, e, s, a, d):
        if a[2] != 66:
            raise Unsupported('schedule %s of an ordered loop' % a[2])
        e.oblige('the ordered loop has one iteration per thread', s, z3.And(to_int(a[3], 32) == 0, to_int(a[4], 32) == TH - 1, to_int(a[5], 32) == 1), kind='pre')
        s.ghost['dispatched'] = 0

    def dispatch_next(self, e, s, a, d):
        k = s.ghost.get('dispatched', 0)
        s.ghost['dispatched'] = k + 1
        if k:
            return 0
        e.store(s, a[3], 32, TT)
        e.store(s, a[4], 32, TT)
        return 1


def hash_array(C, h, s, v, nn):
    i, j = I('hc_i'), I('hc_j')
    C.set_size(s, v, nn)
    C.set_arrays(s, v, INNER, [z3.K(z3.IntSort(), h.h), z3.Lambda([i], z3.Lambda([j], HJ(i, j)))])


def simple(ctx, t):
    import loops
    m = ctx.par
    h = Hasher(ctx, m)
    ex, st, C, L = h.ex, h.st, h.C, h.L
    st.pc += [b >= -2 ** 63, b < 2 ** 40]
    S, S0 = h.inputs(t, n)
    st.pc += [II >= 0, II < n, JJ >= 0, JJ < NH, KK >= 0, KK < b, NH == h.h]
    CLOSURES[:] = [count_lemmas]
    i_, j_ = I('i_'), I('j_')
    ex.facts += [z3.ForAll([i_, j_], z3.Implies(z3.And(i_ >= 0, i_ < n, j_ >= 0, j_ < h.h), z3.And(HJ(i_, j_) >= 0, HJ(i_, j_) < b)), patterns=[HJ(i_, j_)])]
    Omp(h)

    def hash_contract(e, s, a, d):
        r, nn, bb = a[0], to_int(a[3], 64), to_int(a[4], 64)
        e.oblige('Hash is called with all inputs and the number of buckets', s, z3.And(nn == n, bb == b), kind='pre')
        e.store(s, r, 32, z3.If(bb >= 1, z3.IntVal(0), z3.IntVal(3)))
        hash_array(C, h, s, r.field(8), nn)
    ex.on(r'CuckooHasher::Hash<', hash_contract)
    ex.on(r'std::log2<', lambda e, s, a, d: e.fresh('log2', z3.RealSort()))

    def rows(s, v):
        sz, V = C.arrays(s, v, VL)
        return loops.select(sz, KK), loops.select(V, KK)

    def upto(s, v, i, j, base=None):
        """bucket KK of v holds the pairs before (i, j), in order, from the count base on"""
        size, row = rows(s, v)
        base = z3.IntVal(0) if base is None else base
        return [size == CN(i, j) - base,
                z3.Implies(z3.And(CN(II, JJ) >= base, HJ(II, JJ) == KK, z3.Not(lexle((i, j), (II, JJ)))), loops.select(row, z3.simplify(CN(II, JJ) - base)) == II)]
    reg = {}

    def fork(e, s, a, d):
        if not isinstance(a[2], Fn):
            raise Unsupported('parallel region')
        fn = m.functions[a[2].name]
        ps = a[3:]
        # the shared result is the vector of vectors handed to the region besides the hashes; the others are only read
        res = [p for p in ps if isinstance(p, Ptr) and p.same(local(ex, main, 'result'))]
        if len(res) != 1:
            raise Unsupported('parallel region without the result')
        R = reg['result'] = res[0]
        e.oblige('the result has one empty bucket list per bucket when the threads start', s, z3.And(to_int(C.size(s, R), 64) == b, rows(s, R)[0] == 0), kind='pre')
        ex.cov_region = True
        body = s.copy()
        # while the other threads run, the result is whatever they make of it
        A = [e.fresh('shared', x.sort()) for x in C.arrays(body, R, VL)]
        C.set_arrays(body, R, VL, A)
        body.ghost.update(shared=A, entered=0)
        frozen = [(p, e.load(body, p, 64)) for p in ps if isinstance(p, Ptr) and not p.same(R) and p.obj is not None and e.objs[p.obj].get('alloca', '').endswith('.addr')]
        tid = Ptr(e.new_obj('tid'))
        e.store(body, tid, 32, e.fresh('gtid', z3.IntSort()))
        out = e.call_fn(a[2].name, [tid, tid] + list(ps), body)
        ctx.cover('the parallel region ends', len(out) > 0)
        for s2, _ in out:
            e.oblige('every thread runs its ordered section once', s2, z3.BoolVal(s2.ghost.get('entered') == 2), kind='post')
            same = [x.eq(y) for x, y in zip(C.arrays(s2, R, VL), s2.ghost['shared'])]
            e.oblige('the shared result is only written in the ordered section', s2, z3.BoolVal(all(same)), kind='post')
            for p, v in frozen:
                w = e.load(s2, p, 64)
                e.oblige('shared variables are not written', s2, z3.BoolVal(True) if w is v else (w == v if z3.is_expr(w) or z3.is_expr(v) else z3.BoolVal(w == v)), kind='post')
        # all threads have ended: the guarantee of the last one
        W = [e.fresh('result', x.sort()) for x in A]
        C.set_arrays(s, R, VL, W)
        s.pc += upto(s, R, n, z3.IntVal(0))
    ex.on(r'^__kmpc_fork_call$', fork)

    def ordered(e, s, a, d):
        R = reg['result']
        e.oblige('the shared result is only written in the ordered section', s, z3.BoolVal(all(x.eq(y) for x, y in zip(C.arrays(s, R, VL), s.ghost['shared'])) and s.ghost['entered'] == 0), kind='post')
        s.ghost['entered'] = 1
        C.set_arrays(s, R, VL, [e.fresh('before', x.sort()) for x in s.ghost['shared']])
        s.pc += upto(s, R, LO(TT), z3.IntVal(0))
    ex.on(r'^__kmpc_ordered$', ordered)

    def end_ordered(e, s, a, d):
        R = reg['result']
        for nm, g in zip(('has the entries of this thread and those before', 'has them in order'), upto(s, R, LO(TT + 1), z3.IntVal(0))):
            e.oblige('at the end of the ordered section the result ' + nm, s, g, kind='post')
        s.ghost['entered'] = 2
        s.ghost['shared'] = C.arrays(s, R, VL)
    ex.on(r'^__kmpc_end_ordered$', end_ordered)

    fns = m.find(CLS + r'::HashSimple<%s>\(' % t)
    main = m.functions[[f for f in fns if 'omp_outlined' not in f][0]]

    def hint(auto, fr, bb, s):
        fn = fr.fn
        body = fn.loops[bb]
        if 'omp_outlined' not in fn.name:
            return None
        has = lambda w: calls(fn, body, w)
        if has('__kmpc_dispatch_next') or has('__kmpc_ordered'):
            return dict(unroll=True)
        tr = local(ex, fn, 'thread_result')
        nested = any(x in body and x != bb for x in fn.loops)
        lo = LO(TT)
        base = CN(lo, 0)
        ld = lambda s, nm, k: to_int(ex.load(s, local(ex, fn, nm), k), k)
        names = reg.setdefault('names', {})

        if has('insert'):
            var = header_vars(fn, bb)[0]

            def inv(auto, s, k, st0):
                i = ld(s, var, 64)
                R = reg['result']
                size, row = rows(s, R)
                size0, row0 = rows(st0, R)
                x = z3.FreshInt('x')
                done, todo = upto(s, R, LO(TT + 1), z3.IntVal(0)), upto(s, R, LO(TT), z3.IntVal(0))
                return [('the bucket index is in range', z3.And(i >= 0, i <= b)), ('there are b buckets', to_int(C.size(s, R), 64) == b)] + \
                    [('buckets handled so far have the entries of this thread, the others do not', z3.If(i > KK, z3.And(*done), z3.And(*todo)))]
            return dict(inv=inv, open='all', trip='unknown')
        if nested:
            iv = header_vars(fn, bb)[0]
            names['iv'] = iv

            def inv(auto, s, k, st0):
                i = ld(s, iv, 64)
                return [('the iteration is in the chunk', z3.And(i >= lo, i <= LO(TT + 1)))] + [('this thread has the pairs so far', g) for g in upto(s, tr, i, z3.IntVal(0), base)]
            return dict(inv=inv, open='all', trip='unknown')
        var = header_vars(fn, bb)[0]

        def inv(auto, s, k, st0):
            i, j = ld(s, names['iv'], 64), ld(s, var, 32)
            return [('the hash function exists', z3.And(j >= 0, j <= NH))] + [('this thread has the pairs so far', g) for g in upto(s, tr, i, j, base)]
        return dict(inv=inv, open='all', trip='unknown')
    L.hints.append((r'HashSimple<', hint))
    r = Ptr(ex.new_obj('result_'))
    ex.cov_region = False
    res = ex.call_fn(main.name, [r, h.p, S0, n, b], st)
    ctx.cover('HashSimple returns', len(res) > 0)
    ctx.cover('the parallel region is reached', ex.cov_region)
    good = False
    for s, _ in res:
        code = to_int(ex.load(s, r, 32), 32)
        ctx.prove(ex, 'the result is a list of buckets or an argument error', s, z3.Or(code == 0, code == 3))
        ctx.prove(ex, 'a non-positive bucket count is rejected', s, z3.Implies(b <= 0, code == 3))
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good = True
        v = r.field(8)
        ctx.prove(ex, 'one list per bucket', s, to_int(C.size(s, v), 64) == b)
        g = upto(s, v, n, z3.IntVal(0))
        ctx.prove(ex, 'a bucket has one entry for every input and hash function that maps to it', s, g[0])
        ctx.prove(ex, 'the entry of an input and hash function is behind those of all earlier ones', s, g[1])
    ctx.cover('HashSimple succeeds', good)
    ctx.absorb(ex)
    CLOSURES[:] = []


def hash_region(ctx, t):
    """the parallel region of Hash, for one thread: it fills the rows of its own chunk and leaves all others alone"""
    m = ctx.par
    h = Hasher(ctx, m)
    ex, st, C = h.ex, h.st, h.C
    st.pc += [b >= -2 ** 63, b < 2 ** 63]
    S, S0 = h.inputs(t, n)
    Omp(h)

    def hbucket(e, s, a, d):
        r = BUCKET(as128(a[1:-2]), to_int(a[-2], 64), to_int(a[-1], 32))
        e.facts.append(z3.And(r >= -2 ** 63, r < 2 ** 63))
        return r
    ex.on(r'CuckooHasher::HashToBucket\(', hbucket)

    def h128(e, s, a, d):
        if t == 'absl::debian3::uint128':
            x = bv(e.load(s, a[1], 128), 128)
        else:
            w, sg = NB[t]
            x = i2b128(e.load(s, a[1], w), w, sg)
        return halves(HASH(x))
    ex.on(r'CuckooHasher::HashToUint128<%s>\(' % t, h128)
    A = C.arrays(st, S, t)[0]
    if t != 'absl::debian3::uint128':
        k, w = I('k'), NB[t][0]
        st.pc.append(z3.ForAll([k], z3.And(z3.Select(A, k) >= -2 ** (w - 1), z3.Select(A, k) < 2 ** (w - 1))))
    main = m.functions[[f for f in m.find(r'CuckooHasher::Hash<%s, 3>\(' % t) if 'omp_outlined' not in f][0]]
    reg = {}

    def fork(e, s, a, d):
        if not isinstance(a[2], Fn):
            raise Unsupported('parallel region')
        ps = a[3:]
        res = [p for p in ps if isinstance(p, Ptr) and p.same(local(ex, main, 'result'))]
        res = res or [p for p in ps if isinstance(p, Ptr) and p.same(r.field(8))]
        if len(res) != 1:
            raise Unsupported('parallel region without the result')
        R = res[0]
        reg['R'] = True
        x = I('row')
        e.oblige('the result has one row per input when the threads start', s, to_int(C.size(s, R), 64) == n, kind='pre')
        e.oblige('each row has one entry per hash function when the threads start', s, z3.Implies(z3.And(x >= 0, x < n), z3.Select(C.arrays(s, R, INNER)[0], x) == h.h), kind='pre')
        body = s.copy()
        # the other threads have written any of their entries, not the sizes of the rows
        sz, V = C.arrays(body, R, INNER)
        V = e.fresh('shared', V.sort())
        C.set_arrays(body, R, INNER, [sz, V])
        tid = Ptr(e.new_obj('tid'))
        e.store(body, tid, 32, e.fresh('gtid', z3.IntSort()))
        out = e.call_fn(a[2].name, [tid, tid] + list(ps), body)
        ctx.cover('the parallel region ends', len(out) > 0)
        for s2, _ in out:
            i, j = I('i'), I('j')
            sz2, V2 = C.arrays(s2, R, INNER)
            mine = z3.And(i >= LO(TT), i < LO(TT + 1))
            s2.pc += [i >= 0, i < n, j >= 0, j < h.h]
            e.oblige('rows keep their length', s2, z3.And(to_int(C.size(s2, R), 64) == n, z3.Select(sz2, i) == h.h), kind='post')
            e.oblige('a thread fills the entries of its own inputs', s2, z3.Implies(mine, z3.Select(z3.Select(V2, i), j) == BUCKET(HASH(value(A, i, t)), b, j)), kind='post')
            e.oblige('a thread leaves the entries of all other inputs alone', s2, z3.Implies(z3.Not(mine), z3.Select(z3.Select(V2, i), j) == z3.Select(z3.Select(V, i), j)), kind='post')
        raise PathEnd('region')
    ex.on(r'^__kmpc_fork_call$', fork)
    r = Ptr(ex.new_obj('result_'))
    ex.call_fn(main.name, [r, h.p, S0, n, b], st)
    ctx.cover('the parallel region of Hash is reached', bool(reg))
    ctx.absorb(ex)


def proof(ctx):
    ctx.module = ctx.ir(None, ['-DNDEBUG'], name='cuckoo', text=H)
    ctx.par = ctx.ir(None, PAR, name='cuckoo_omp', text=H)
    ctx.parallel([('lemmas', lemmas)] + [('region of Hash<%s>' % t, hash_region, t) for t, _ in TY] + [('HashSimple<%s>' % t, simple, t) for t, _ in TY])


def native(ctx):
    cuckoo_native(ctx, 15)
