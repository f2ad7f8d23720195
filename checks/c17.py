"""C17: all-but-one random OT: both parties agree except at the chosen index.

Sender and receiver are verified separately against one set of ghost functions: the sender's tree for each output, its
levels, sibling-wise XORs and leaves, and the place OFF(i) of each tree in the list of oblivious transfers."""
from functools import partial
from protocommon import *
from cuckoocommon import absl128, halves, as128
from ggmcommon import at

H = '''#include "ring.h"
#include "distributed_vector_ole/ggm_tree.cpp"
#include "distributed_vector_ole/all_but_one_random_ot.cpp"
namespace distributed_vector_ole {
template mpc_utils::Status AllButOneRandomOT::RunSenderBatched<ring::R>(absl::Span<absl::Span<ring::R>>);
template mpc_utils::Status AllButOneRandomOT::RunReceiverBatched<ring::R>(absl::Span<const int64_t>, absl::Span<absl::Span<ring::R>>);
template mpc_utils::Status AllButOneRandomOT::RunSender<ring::R>(absl::Span<ring::R>);
template mpc_utils::Status AllButOneRandomOT::RunReceiver<ring::R>(int64_t, absl::Span<ring::R>);
template void all_but_one_random_ot_internal::UnpackLastLevel<ring::R>(const GGMTree&, absl::Span<ring::R>);
}
'''
PAR = ['-DNDEBUG', '-fopenmp', '-fstandalone-debug', '-DBOOST_CONTAINER_DISABLE_FORCEINLINE', '-I' + VERIF + '/stubs']
FUNCTIONS = ['AllButOneRandomOT::SendTrees, ReceiveTrees, RunSenderBatched, RunReceiverBatched with their parallel regions', 'RunSender, RunReceiver, Create', 'UnpackLastLevel, EMPToGGMTreeBlock, GGMTreeToEMPBlock', 'AllocateLevels of ggm_tree.cpp (number of levels)']
ASSUMPTIONS = OMPASSUME + ['GGMTree by its contracts (C11, C12, C13): a tree reconstructed from the sibling-wise XORs off the path to an index has the leaves of the original except there; at most 63 levels for fewer than 2^50 leaves',
                           'ideal oblivious transfer: the receiver gets, per transfer, the message of its choice bit', 'at most 2^31 - 1 outputs of fewer than 2^50 elements; fewer than 2^31 tree levels in total',
                           'ScalarHelper<T>::FromUint128 is a function (C06, C25 for each type)', 'log is a function and floating-point arithmetic is exact: the level count is the same expression for the tree and for the receiver']
Z = z3.IntSort()
BVS = z3.BitVecSort(128)
U = 'absl::debian3::uint128'
VU = 'std::vector<absl::debian3::uint128, std::allocator<absl::debian3::uint128> >'
EMPB = 'long long __vector(2)'
TREE = 'distributed_vector_ole::GGMTree'
UP = 'std::unique_ptr<%s, std::default_delete<%s> >' % (TREE, TREE)
LEAVES = z3.Function('leaves_of', Z, Z)
LEVELS = z3.Function('levels_of', Z, Z)
XOR = z3.Function('sibling_xor', Z, Z, Z, BVS)     # tree, level, sibling position
LEAF = z3.Function('leaf', Z, Z, BVS)
KEYOF = z3.Function('key_of', Z, Z, BVS)
LV = z3.Function('level_count', Z, Z)              # number of leaves -> number of levels
OFF = z3.Function('transfers_before', Z, Z)
TOT = z3.Function('leaves_before', Z, Z)
SHR = z3.Function('shift_right', Z, Z, Z)
FU = z3.Function('from_uint128', BVS, RS)
CBH = z3.Function('can_be_hashed_into', RS, z3.BoolSort())
LOG2 = z3.Function('log2', RS, RS)
LOG = z3.Function('log', RS, RS)
NN = z3.Const('len', z3.ArraySort(Z, Z))
IX = z3.Const('index', z3.ArraySort(Z, Z))
HS = z3.Const('sender_tree', z3.ArraySort(Z, Z))   # of each output
KEYS = z3.Const('keys', z3.ArraySort(Z, BVS))
ROW = I('any_row')
J, Q, X, n = I('jj'), I('qq'), I('xx'), I('n')
SEC = RC('security')
LEN = lambda j: z3.Select(NN, j)


def selects(fs, arr):
    """the indices at which the array is read in the formulas"""
    out, done, todo = {}, set(), [f for f in fs if z3.is_expr(f)]
    while todo:
        x = todo.pop()
        if x.get_id() in done:
            continue
        done.add(x.get_id())
        if z3.is_quantifier(x) or not z3.is_app(x):
            continue
        todo += x.children()
        if x.decl().kind() == z3.Z3_OP_SELECT and x.arg(0).eq(arr):
            k = z3.simplify(x.arg(1))
            out[k.get_id()] = k
    return list(out.values())


def width(j):
    """oblivious transfers for output j"""
    return z3.If(LEN(j) == 0, z3.IntVal(0), LV(LEN(j)) - 1)


def ground_apps(fs, decls):
    out, done, todo = {d.name(): {} for d in decls}, set(), [f for f in fs if z3.is_expr(f)]
    while todo:
        x = todo.pop()
        if x.get_id() in done:
            continue
        done.add(x.get_id())
        if z3.is_quantifier(x) or not z3.is_app(x):
            continue
        todo += x.children()
        nm = x.decl().name()
        if nm in out:
            k = tuple(z3.simplify(c) for c in x.children())
            out[nm][tuple(c.get_id() for c in k)] = k
    return out


def off_lemmas(fs):
    """OFF and TOT are the running sums; OFF does not decrease"""
    a = ground_apps(fs, [OFF, TOT, SHR, LV])
    out = []
    offs = {k: v[0] for k, v in a['transfers_before'].items()}
    for t in [z3.IntVal(0), J, n] + list(offs.values()):
        offs[(t.get_id(),)] = t
        t = z3.simplify(t + 1)
        offs[(t.get_id(),)] = t
    for t in list(offs.values()):
        p = z3.simplify(t - 1)
        out += [z3.Implies(t == 0, OFF(t) == 0), z3.Implies(z3.And(t >= 1, t <= n), OFF(t) == OFF(p) + width(p)), z3.Implies(z3.And(t >= 0, t < n), OFF(z3.simplify(t + 1)) == OFF(t) + width(t))]
        for q in (p, t):
            out.append(z3.Implies(z3.And(q >= 0, q < n, LEN(q) >= 1), z3.And(LV(LEN(q)) >= 1, LV(LEN(q)) < 64)))
    L = list(offs.values())
    out += [z3.Implies(z3.And(x >= 0, x < n), OFF(z3.simplify(x + 1)) <= OFF(n)) for x in L]
    for x in L:
        for y in L:
            if x is not y:
                out.append(z3.Implies(z3.And(x >= 0, x <= y, y <= n), OFF(x) <= OFF(y)))
    for (t,) in [tuple(v) for v in a['leaves_before'].values()]:
        p = z3.simplify(t - 1)
        out += [z3.Implies(t == 0, TOT(t) == 0), z3.Implies(z3.And(t >= 1, t <= n), TOT(t) == TOT(p) + LEN(p)), z3.Implies(z3.And(t >= 0, t <= n), z3.And(TOT(t) >= 0, TOT(t) <= TOT(n)))]
    sh = list(a['shift_right'].values())
    for x, k in sh:
        out += [z3.Implies(k == 0, SHR(x, k) == x), z3.Implies(x >= 0, SHR(x, k) >= 0)]
    for x, k in sh:
        for y, l in sh:
            if not x.eq(y):
                out.append(z3.Implies(z3.And(x + y == 2 ** 64 - 1, k == l, k >= 0, k < 64), SHR(x, k) % 2 == 1 - SHR(y, l) % 2))
    return out


def lemmas(ctx):
    ex = ctx.exec(ctx.module, 'int')
    x, y = I('x'), I('y')
    st = State()
    st.pc += [x >= 0, x <= y, y < n, OFF(x) <= OFF(y), OFF(y + 1) == OFF(y) + width(y), LEN(y) >= 0, z3.Implies(LEN(y) >= 1, LV(LEN(y)) >= 1)]
    ctx.prove(ex, 'lemma: the places of the trees do not decrease (step)', st, OFF(x) <= OFF(y + 1), kind='lemma')
    st = State()
    st.pc += [x >= 0, x < n, LEN(x) >= 0, TOT(x) >= 0, TOT(x + 1) == TOT(x) + LEN(x)]
    ctx.prove(ex, 'lemma: the leaf counts do not decrease (step)', st, TOT(x) <= TOT(x + 1), kind='lemma')
    a, k = z3.BitVec('a', 64), z3.BitVec('k', 64)
    ctx.prove(ex, 'lemma: the bits of the complement are the complements of the bits', None, z3.Implies(z3.ULT(k, 64), z3.LShR(~a, k) & 1 == 1 - (z3.LShR(a, k) & 1)), kind='lemma')
    ctx.absorb(ex)


def tree_ptr(h):
    return Ptr(TREES[0], ((0, h, 1 << 20, None),), 0)


TREES = [None]


def setup_ot(ctx, m):
    ex, C, L = setup_p(ctx, m)
    absl128(ex)
    TREES[0] = ex.new_obj('trees')
    C.layouts[UP] = (8, [((), 0, 8, Z, z3.IntVal(0))])
    C.layouts['mpc_utils::StatusOr<%s >' % UP] = (16, [((), 0, 4, Z, z3.IntVal(2)), ((), 8, 8, Z, z3.IntVal(0))])
    C.layouts[EMPB] = (16, [((), 0, 16, BVS, z3.BitVecVal(0, 128))])
    ex.on(r'^std::unique_ptr<%s' % TREE, uptr)
    ex.on(r'^%s::(num_levels|num_leaves|arity)\(\)' % TREE, lambda e, s, a, d: {'levels': LEVELS, 'leaves': LEAVES}[re.search(r'num_(\w+)', d).group(1)](handle(e, s, a[0])) if 'num_' in d else 2)
    ex.on(r'^RAND_bytes$', rand)
    ex.on(r'(^|\s)(std::)?log2(<|$)', lambda e, s, a, d: LOG2(real(a[0])))
    ex.on(r'(^|\s)(std::)?log(<|$)', lambda e, s, a, d: LOG(real(a[0])))
    ex.on(r'^(llvm\.ceil\.f64|(std::)?ceil)(\(|$)', ceil_)
    CLOSURES[:] = [off_lemmas]
    ex.on(r'GGMTreeToEMPBlock\(', lambda e, s, a, d: z3.simplify(as128(a)))
    ex.on(r'EMPToGGMTreeBlock\(', lambda e, s, a, d: halves(bv(a[0], 128)))
    return ex, C, L


def real(x):
    if isinstance(x, (int, float)):
        return z3.RealVal(x)
    return z3.ToReal(x) if z3.is_int(x) else x


def rand(e, st, a, d):
    n_ = a[1]
    if n_ != 16:
        raise Unsupported('RAND_bytes of %r bytes' % (n_,))
    e.store(st, a[0], 128, e.fresh('random', BVS))
    return 1


def as_handle(v):
    if isinstance(v, Ptr):
        if v.obj is None:
            return z3.IntVal(0)
        if v.obj == TREES[0]:
            return to_int(v.steps[-1][1], 64)
        raise Unsupported('tree pointer')
    return to_int(v, 64)


def handle(e, st, p):
    if not isinstance(p, Ptr) or p.obj != TREES[0]:
        raise Unsupported('tree')
    return to_int(p.steps[-1][1], 64)


def uptr(ex, st, a, d):
    """std::unique_ptr<GGMTree>: one cell with the number of the tree, 0 for none"""
    m_ = member(d)
    meth, args, p = m_[2], m_[3], a[0]
    get = lambda q: as_handle(ex.load(st, q, 64))
    put = lambda q, v: ex.store(st, q, 64, norm_int(v, 64))
    if meth == 'unique_ptr':
        if len(a) == 1 or 'nullptr' in args:
            put(p, z3.IntVal(0))
        elif args.startswith('std::unique_ptr'):
            v = get(a[1])
            put(a[1], z3.IntVal(0))
            put(p, v)
        else:
            put(p, as_handle(a[1]))
        return None
    if meth == 'operator=':
        v = get(a[1])
        put(a[1], z3.IntVal(0))
        put(p, v)
        return p
    if meth in ('operator->', 'operator*', 'get'):
        h = get(p)
        if meth != 'get':
            ex.oblige('the tree exists', st, h != 0, kind='safety')
        return tree_ptr(h)
    if meth == '~unique_ptr':
        return None
    raise Unsupported('unique_ptr<GGMTree>::' + meth)


def valid_lengths(st):
    k = I('k')
    st.pc.append(z3.ForAll([k], z3.And(LEN(k) >= 0, LEN(k) < 2 ** 50), patterns=[LEN(k)]))
    st.pc += [n >= 0, n < 2 ** 31 - 1, OFF(n) < 2 ** 31 - 1, TOT(n) < 2 ** 62]


def leaves_span(ex, C, st):
    S = Ptr(ex.new_obj('num_leaves'))
    C.set_size(st, S, n)
    C.set_arrays(st, S, 'long', [NN])
    return C.elem(st, S, 0, 'long')


def instance(ctx, m, ex, st):
    mem = m.members('AllButOneRandomOT')
    p = Ptr(ex.new_obj('random_ot'))
    ad = Ptr(ex.new_obj('adapter'))
    ex.store(st, p.field(mem['channel_adapter_']), 64, ad)
    ex.store(st, p.field(mem['statistical_security_']), 64, SEC)
    ex.ot, ex.adapter = p.field(mem['ot_extension_']), ad
    return p


def elem0(C, s, p, t):
    """the container an element pointer to position 0 belongs to"""
    if not isinstance(p, Ptr) or not p.steps or not (isinstance(p.steps[-1][1], int) and p.steps[-1][1] == 0) or p.off != 0:
        raise Unsupported('pointer to the messages')
    return Ptr(p.obj, p.steps[:-1], p.steps[-1][0])


SOT = 'mpc_utils::StatusOr<%s >' % UP


def keys_ok(h):
    return z3.And(KEYOF(h, 0) == z3.Select(KEYS, 0), KEYOF(h, 1) == z3.Select(KEYS, 1))


def is_tree(h, j):
    return z3.And(h > 0, LEAVES(h) == LEN(j), LEVELS(h) == LV(LEN(j)), keys_ok(h))


def vec_of(e, s, sort, main, skip=()):
    """the local vectors of the function whose elements have this layout"""
    out = []
    for (o, sh), reg in s.mem.items():
        if not sh and ('sz', 0) in reg and e.objs[o].get('alloca') and e.objs[o].get('fn') == main and o not in skip:
            out.append(o)
    return out


def send_trees(ctx):
    m = ctx.par
    ex, C, L = setup_ot(ctx, m)
    st = State()
    valid_lengths(st)
    p = instance(ctx, m, ex, st)
    S = leaves_span(ex, C, st)
    main = [f for f in m.find(r'AllButOneRandomOT::SendTrees<ring::R>') if 'omp_outlined' not in f][0]
    fn_main = m.functions[main]
    st.pc += [J >= 0, J < n, Q >= 0, Q < width(J)]
    st.ghost.update(ot=0, keys_sent=0, flushed=0, rejected=None)
    T0 = {}
    lo_ = lambda nm: local(ex, fn_main, nm)
    ld = lambda s, fn, nm, b: to_int(ex.load(s, local(ex, fn, nm), b), b)

    def can(e, s, a, d):
        return CBH(real(a[0]))
    ex.on(r'ScalarHelper<ring::R.*>::CanBeHashedInto\(', can)

    def keys_now(s):
        return C.arrays(s, lo_('keys'), U)[0]

    def mk(e, s, a, d):
        """GGMTree::Create(num_leaves, seed, keys)"""
        r, nl, ks = a[0], to_int(a[1], 64), a[-1]
        e.oblige('a tree has at least one leaf', s, nl >= 1, kind='pre')
        e.oblige('a tree has two keys', s, to_int(C.size(s, ks), 64) == 2, kind='pre')
        K = C.arrays(s, ks, U)[0]
        h, ok = e.fresh('tree', Z), e.fresh('created', z3.BoolSort())
        s.pc.append(z3.Implies(ok, z3.And(h > 0, LEAVES(h) == nl, LEVELS(h) == LV(nl), KEYOF(h, 0) == select(K, z3.IntVal(0)), KEYOF(h, 1) == select(K, z3.IntVal(1)))))
        e.store(s, r, 32, z3.If(ok, z3.IntVal(0), z3.IntVal(13)))
        e.store(s, r.field(8), 64, z3.If(ok, h, z3.IntVal(0)))
    ex.on(r'GGMTree::Create\(long, absl::.*uint128, std::vector', mk)

    def xors(e, s, a, d):
        h = handle(e, s, a[1])
        l, x = I('gx_l'), I('gx_s')
        C.set_size(s, a[0], norm_int(LEVELS(h) - 1, 64))
        C.set_arrays(s, a[0], VU, [z3.K(Z, z3.IntVal(2)), z3.Lambda([l], z3.Lambda([x], XOR(h, l, x)))])
    ex.on(r'GGMTree::GetSiblingWiseXOR\(\)', xors)

    # ---- the parallel creation
    def rows(s):
        code, h = C.arrays(s, lo_('status_or_trees'), SOT)
        return select(code, J), select(h, J)

    def key_facts(s):
        K = keys_now(s)
        return [z3.Select(KEYS, i) == select(K, z3.IntVal(i)) for i in (0, 1)]

    def enter(e, s, lb, ub):
        sv = lo_('status_or_trees')
        A = C.arrays(s, sv, SOT)
        e.oblige('there is a place for every tree', s, to_int(C.size(s, sv), 64) == n, kind='pre')
        e.facts += key_facts(s)         # KEYS names the keys drawn
        B = [e.fresh('shared', x.sort()) for x in A]
        s.pc.append(z3.Implies(z3.And(lb <= J, J < ub), z3.And(*[z3.Select(b, J) == select(x, J) for x, b in zip(A, B)])))
        C.set_arrays(s, sv, SOT, B)

    def done(s, c0, h0):
        c, h = rows(s)
        return z3.If(LEN(J) == 0, z3.And(c == c0, h == h0), z3.And(z3.Or(c == 0, c == 13), z3.Implies(c == 0, is_tree(h, J))))

    def post(e, s, s0, lb, ub):
        c0, h0 = rows(s0)
        c, h = rows(s)
        mine = z3.And(lb <= J, J < ub)
        return [('every non-empty output has its tree, or an error', z3.Implies(mine, done(s, c0, h0))), ('other trees are untouched', z3.Implies(z3.Not(mine), z3.And(c == c0, h == h0))),
                ('the keys and lengths stay', z3.And(to_int(C.size(s, lo_('status_or_trees')), 64) == n, *[arr_unchanged(x, y) for x, y in zip(C.arrays(s, lo_('keys'), U), C.arrays(s0, lo_('keys'), U))]))]

    def leave(e, s):
        A = C.arrays(s, lo_('status_or_trees'), SOT)
        B = [e.fresh('after', x.sort()) for x in A]
        C.set_arrays(s, lo_('status_or_trees'), SOT, B)
        j = I('row')
        c, h = [z3.Select(b, j) for b in B]
        s.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.If(LEN(j) == 0, z3.And(c == z3.Select(A[0], j), h == z3.Select(A[1], j)), z3.And(z3.Or(c == 0, c == 13), z3.Implies(c == 0, is_tree(h, j))))), patterns=[c, h]))
        T0['rows'] = rows(s)
        T0['all'] = B
    par = Par(ctx, ex, C, n, enter, post, leave)

    # ---- the messages
    def ot_send(e, s, a, d):
        v0, v1 = elem0(C, s, a[1], EMPB), elem0(C, s, a[2], EMPB)
        cnt = to_int(a[3], 32)
        A0, A1 = C.arrays(s, v0, EMPB)[0], C.arrays(s, v1, EMPB)[0]
        e.oblige('oblivious transfer over the channel of the instance, once', s, z3.BoolVal(a[0].same(e.ot) and s.ghost['ot'] == 0), kind='pre')
        e.oblige('as many transfers as tree levels below the roots', s, z3.And(cnt == OFF(n), to_int(C.size(s, v0), 64) == OFF(n), to_int(C.size(s, v1), 64) == OFF(n)), kind='pre')
        h = T0['rows'][1]
        for v, A in ((0, A0), (1, A1)):
            e.oblige('message %d is the XOR of all %s children of the level' % (v, 'left' if not v else 'right'), s, select(A, OFF(J) + Q) == XOR(h, Q, v), kind='post')
        s.ghost['ot'] = 1
    ex.on(r'emp::SHOTExtension<.*>::send\(', ot_send)

    def send_data(e, s, a, d):
        v = elem0(C, s, a[1], U)
        K = C.arrays(s, v, U)[0]
        e.oblige('both keys of the trees are sent', s, z3.And(z3.BoolVal(a[0].same(e.adapter)), to_int(a[2], 32) == 32, *[select(K, z3.IntVal(i)) == z3.Select(KEYS, i) for i in (0, 1)]), kind='post')
        s.ghost['keys_sent'] += 1
        s.ghost['flushed'] = 0
        s.ghost['order'] = s.ghost['ot']
    ex.on(r'CommChannelEMPAdapter::send_data\(', send_data)

    def flush(e, s, a, d):
        s.ghost['flushed'] = 1
    ex.on(r'CommChannelEMPAdapter::flush\(', flush)

    def hint(auto, fr, bb, s):
        fn = fr.fn
        body = fn.loops[bb]
        nested = any(x in body and x != bb for x in fn.loops)
        has = lambda w: any(w in str((i.a, i.x)) for k in body for i in fn.blocks[k])
        if has('dispatch_next'):
            return dict(unroll=True)
        var = header_vars(fn, bb)
        if not var:
            return None
        if 'accumulate' in fn.name:
            def inv(auto, s, k, st0):
                acc = ld(s, fn, '__init', 64)
                return [('the leaves so far', z3.And(k >= 0, k <= n, acc == TOT(k)))]
            return dict(inv=inv, open=True)
        if has('dispatch_next'):
            return dict(unroll=True)
        i = loop_pos(ex, fn, bb)
        if has('GGMTree6Create') or has('GGMTree::Create'):
            c0, h0 = rows(s)
            lo = i(s)
            hi = par.UB if 'omp_outlined' in fn.name else n

            def inv(auto, s, k, st0):
                j = i(s)
                c, h = rows(s)
                mine = z3.And(lo <= J, J < j)
                return [('the tree number', z3.And(j >= lo, j <= hi)), ('trees so far', z3.Implies(mine, done(s, c0, h0))), ('other trees are untouched', z3.Implies(z3.Not(mine), z3.And(c == c0, h == h0))),
                        ]
            return dict(inv=inv, open=True, trip='unknown')
        if has('GetSiblingWiseXOR'):
            c0, h0 = rows(s)

            def inv(auto, s, k, st0):
                j = i(s)
                O0, O1 = lo_('opt0'), lo_('opt1')
                offs = C.arrays(s, lo_('offsets'), 'int')[0]
                c, h = rows(s)
                t = select(C.arrays(s, lo_('trees'), UP)[0], J)
                A0, A1 = C.arrays(s, O0, EMPB)[0], C.arrays(s, O1, EMPB)[0]
                P = OFF(J) + Q
                q = I('row')
                now = C.arrays(s, lo_('status_or_trees'), SOT)
                return [('later trees are still there', z3.ForAll([q], z3.Implies(z3.And(q >= j, q < n), z3.And(*[z3.Select(x, q) == z3.Select(y, q) for x, y in zip(now, T0['all'])])), patterns=[z3.Select(y, q) for y in T0['all']])), ('the tree number', z3.And(j >= 0, j <= n)), ('the place of the tree', select(offs, j) == OFF(j)),
                        ('as many messages as levels so far', z3.And(to_int(C.size(s, O0), 64) == OFF(j), to_int(C.size(s, O1), 64) == OFF(j))),
                        ('the trees are moved to the result one by one', z3.If(J < j, z3.Implies(LEN(J) != 0, z3.And(c0 == 0, t == h0)), z3.And(c == c0, h == h0, t == 0))), ('empty outputs have no tree', z3.Implies(LEN(J) == 0, t == 0)),
                        ('the messages so far', z3.Implies(J < j, z3.And(select(A0, P) == XOR(h0, Q, 0), select(A1, P) == XOR(h0, Q, 1))))]
            return dict(inv=inv, open='all', trip='unknown')
        return None
    L.hints.append((r'SendTrees|accumulate', hint))
    r = Ptr(ex.new_obj('result_'))
    res = ex.call_fn(main, [r, p, S, n, 2], st)
    ctx.cover('SendTrees returns', len(res) > 0)
    ctx.cover('the trees are created', par.regions > 0)
    good = bad = False
    possible = CBH(LOG2(z3.ToReal(TOT(n))) + SEC)
    for s, _ in res:
        code = to_int(ex.load(s, r, 32), 32)
        ctx.prove(ex, 'a modulus that cannot be hashed into for all leaves is rejected', s, z3.Implies(z3.Not(possible), code == 3))
        ctx.prove(ex, 'any other modulus gives the trees or the error of a tree', s, z3.Implies(possible, z3.Or(code == 0, code == 13)))
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good = True
        v = r.field(8)
        t = select(C.arrays(s, v, UP)[0], J)
        ctx.prove(ex, 'one tree per output', s, to_int(C.size(s, v), 64) == n)
        ctx.prove(ex, 'the tree of an output has its number of leaves', s, z3.If(LEN(J) == 0, t == 0, is_tree(t, J)))
        ctx.prove(ex, 'the tree of an output is the one whose XORs were sent', s, z3.Implies(LEN(J) != 0, t == T0['rows'][1]))
        ctx.prove(ex, 'the transfers have run if there are any, then the keys are sent, and flushed', s, z3.And(z3.BoolVal(s.ghost['keys_sent'] == 1 and s.ghost['flushed'] == 1 and s.ghost.get('order') == s.ghost['ot']),
                                                                                                      z3.If(OFF(n) > 0, z3.BoolVal(s.ghost['ot'] == 1), z3.BoolVal(s.ghost['ot'] == 0))))
        ctx.feasible(ex, 'SendTrees succeeds with trees', s)
    ctx.cover('SendTrees succeeds', good)
    ctx.absorb(ex)
    CLOSURES[:] = []


def bit(j, q):
    """the child taken at level q on the path to the index of output j"""
    return SHR(z3.Select(IX, j), z3.simplify(LV(LEN(j)) - 2 - q)) % 2


def shifts(ex):
    def h(st, op, n_, a, b):
        if op not in ('lshr', 'ashr'):
            return None
        x = to_int(a, n_)
        if op == 'lshr':
            if ex.entails(st, x >= 0):
                pass
            elif ex.entails(st, x < 0):
                x = z3.simplify(x + (1 << n_))
            else:
                x = ex.unsigned(st, a, n_)
        k = to_int(b, n_)
        ex.oblige('the shift amount is in range', st, z3.And(k >= 0, k < n_), kind='safety')
        return SHR(x, z3.simplify(k))
    ex.int_bit_hook = h


def ceil_(e, st, a, d):
    """1 + ceil(log(n) / log(2)) is the number of levels of a tree with n leaves, by definition"""
    x = z3.simplify(real(a[0]))
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV and all(c.decl().eq(LOG) for c in x.children()):
        u, v = [c.arg(0) for c in x.children()]
        if z3.is_rational_value(v) and v.as_fraction() == 2 and z3.is_app(u) and u.decl().kind() == z3.Z3_OP_TO_REAL:
            return z3.ToReal(z3.simplify(LV(u.arg(0)) - 1))
    k = z3.FreshInt('ceil')
    st.pc += [z3.ToReal(k) >= x, z3.ToReal(k) < x + 1]
    return z3.ToReal(k)


def index_span(ex, C, st, cnt):
    S = Ptr(ex.new_obj('indices'))
    C.set_size(st, S, cnt)
    C.set_arrays(st, S, 'long', [IX])
    k = I('k')
    st.pc.append(z3.ForAll([k], z3.And(z3.Implies(LEN(k) > 0, z3.And(z3.Select(IX, k) >= 0, z3.Select(IX, k) < LEN(k))), z3.Select(IX, k) >= -2 ** 63, z3.Select(IX, k) < 2 ** 63), patterns=[z3.Select(IX, k)]))
    return C.elem(st, S, 0, 'long')


def receive_trees(ctx):
    m = ctx.par
    ex, C, L = setup_ot(ctx, m)
    shifts(ex)
    st = State()
    valid_lengths(st)
    p = instance(ctx, m, ex, st)
    S = leaves_span(ex, C, st)
    n2 = I('num_indices')
    X_ = index_span(ex, C, st, n2)
    main = [f for f in m.find(r'AllButOneRandomOT::ReceiveTrees\(') if 'omp_outlined' not in f][0]
    fn_main = m.functions[main]
    st.pc += [n2 >= 0, n2 < 2 ** 31 - 1, J >= 0, J < n, Q >= 0, Q < width(J)]
    st.ghost.update(ot=0, keys=0)
    T0 = {}
    lo_ = lambda nm: local(ex, fn_main, nm)
    ld = lambda s, fn, nm, b: to_int(ex.load(s, local(ex, fn, nm), b), b)
    P = OFF(J) + Q
    BOOL = 'bool'
    choice = lambda s: select(C.arrays(s, lo_('choices'), BOOL)[0], P)
    want = 1 - bit(J, Q)
    hs = z3.Select(HS, J)
    hr = z3.Function('received_tree', Z, Z)

    def ot_recv(e, s, a, d):
        v, c = elem0(C, s, a[1], EMPB), elem0(C, s, a[2], BOOL)
        cnt = to_int(a[3], 32)
        e.oblige('oblivious transfer over the channel of the instance, once', s, z3.BoolVal(a[0].same(e.ot) and s.ghost['ot'] == 0), kind='pre')
        e.oblige('as many transfers as tree levels below the roots', s, z3.And(cnt == OFF(n), to_int(C.size(s, v), 64) == OFF(n), to_int(C.size(s, c), 64) == OFF(n)), kind='pre')
        B = C.arrays(s, c, BOOL)[0]
        e.oblige('only the message off the chosen path is asked for', s, select(B, P) == want, kind='post')
        A = e.fresh('received', C.arrays(s, v, EMPB)[0].sort())
        s.pc.append(z3.Select(A, P) == z3.If(select(B, P) == 1, XOR(hs, Q, 1), XOR(hs, Q, 0)))
        C.set_arrays(s, v, EMPB, [A])
        s.ghost['ot'] = 1
    ex.on(r'emp::SHOTExtension<.*>::recv\(', ot_recv)

    def recv_data(e, s, a, d):
        v = elem0(C, s, a[1], U)
        e.oblige('two keys are received, after the transfers', s, z3.And(z3.BoolVal(a[0].same(e.adapter) and s.ghost['keys'] == 0), to_int(a[2], 32) == 32, to_int(C.size(s, v), 64) == 2, z3.BoolVal(s.ghost['ot'] == 1) == (OFF(n) > 0)), kind='pre')
        A = e.fresh('keys', C.arrays(s, v, U)[0].sort())
        s.pc += [z3.Select(A, i) == z3.Select(KEYS, i) for i in (0, 1)]
        C.set_arrays(s, v, U, [A])
        s.ghost['keys'] += 1
    ex.on(r'CommChannelEMPAdapter::recv_data\(', recv_data)

    def rebuild(e, s, a, d):
        """GGMTree::CreateFromSiblingWiseXOR(arity, num_leaves, missing_index, xors, keys), by C13"""
        r, ar, nl, mi, xs, xn = a[0], to_int(a[1], 32), to_int(a[2], 64), to_int(a[3], 64), a[4], to_int(a[5], 64)
        if len(a) == 7:
            ks, kn = e.load(s, a[6], 64), to_int(e.load(s, a[6].field(8), 64), 64)
        else:
            ks, kn = a[6], to_int(a[7], 64)
        e.oblige('a tree has at least one leaf, its index is one of them, and it has two children per node', s, z3.And(ar == 2, nl >= 1, mi >= 0, mi < nl), kind='pre')
        e.oblige('as many XORs as levels below the root', s, xn == LV(nl) - 1, kind='pre')
        e.oblige('the tree has two keys', s, kn == 2, kind='pre')
        K = C.arrays(s, elem0(C, s, ks, U), U)[0]
        i = T0['row'](s)
        e.oblige('the keys are those of the sender', s, z3.And(*[select(K, z3.IntVal(x)) == z3.Select(KEYS, x) for x in (0, 1)]), kind='pre')
        e.oblige('the tree has the leaves and the index of its output', s, z3.And(nl == LEN(i), mi == z3.Select(IX, i)), kind='pre')
        if not xs.steps and xs.obj is None:
            raise Unsupported('no XORs')
        sz, V = C.arrays(s, elem0(C, s, xs, VU), VU)
        e.oblige('the XORs of the children off the path are those of the sender', s, z3.Implies(i == J, z3.And(select(sz, Q) == 2, z3.If(want == 1, at(V, Q, z3.IntVal(1)) == XOR(hs, Q, 1), at(V, Q, z3.IntVal(0)) == XOR(hs, Q, 0)))), kind='pre')
        h, ok = e.fresh('tree', Z), e.fresh('created', z3.BoolSort())
        s.pc.append(z3.Implies(ok, z3.And(h > 0, is_received(h, i))))
        e.store(s, r, 32, z3.If(ok, z3.IntVal(0), z3.IntVal(13)))
        e.store(s, r.field(8), 64, z3.If(ok, h, z3.IntVal(0)))
    ex.on(r'GGMTree::CreateFromSiblingWiseXOR\(', rebuild)

    RT = z3.Function('equals_sender_tree_off_the_index', Z, Z, z3.BoolSort())
    is_received = lambda h, j: z3.And(h > 0, LEAVES(h) == LEN(j), RT(h, j))

    def tree(s):
        return select(C.arrays(s, lo_('trees'), UP)[0], J)

    def status(s):
        return to_int(ex.load(s, lo_('status'), 32), 32)

    def enter(e, s, lb, ub):
        tv = lo_('trees')
        A = C.arrays(s, tv, UP)[0]
        e.oblige('there is a place for every tree', s, to_int(C.size(s, tv), 64) == n, kind='pre')
        offs = C.arrays(s, lo_('offsets'), 'int')[0]
        e.oblige('the places of the trees', s, z3.Implies(z3.And(ROW >= 0, ROW <= n), select(offs, ROW) == OFF(ROW)), kind='pre')
        CLOSURES.insert(0, lambda fs: [z3.Implies(z3.And(t >= 0, t <= n), z3.Select(offs, t) == OFF(t)) for t in selects(fs, offs)])     # ROW is arbitrary
        e.oblige('no error so far', s, status(s) == 0, kind='pre')
        e.oblige('no tree so far', s, tree(s) == 0, kind='pre')
        B, c = e.fresh('shared', A.sort()), e.fresh('status', Z)
        s.pc += [z3.Implies(z3.And(lb <= J, J < ub), z3.Select(B, J) == z3.Select(A, J)), z3.Or(c == 0, c == 13)]
        C.set_arrays(s, tv, UP, [B])
        e.store(s, lo_('status'), 32, c)
        T0['c'] = c

    def done(s, t0):
        t = tree(s)
        return z3.If(LEN(J) == 0, t == t0, z3.Implies(status(s) == 0, is_received(t, J)))

    def same(s, s0):
        r = []
        for nm, t in (('choices', BOOL), ('ot_results', EMPB), ('offsets', 'int'), ('keys', U)):
            r += [arr_unchanged(x, y) for x, y in zip(C.arrays(s, lo_(nm), t), C.arrays(s0, lo_(nm), t))]
            r.append(to_int(C.size(s, lo_(nm)), 64) == to_int(C.size(s0, lo_(nm)), 64))
        return z3.And(*r)

    def post(e, s, s0, lb, ub):
        mine = z3.And(lb <= J, J < ub)
        return [('every non-empty output has its tree, unless there was an error', z3.Implies(mine, done(s, tree(s0)))), ('other trees are untouched', z3.Implies(z3.Not(mine), tree(s) == tree(s0))),
                ('errors are kept', z3.And(z3.Or(status(s) == 0, status(s) == 13), z3.Implies(status(s0) != 0, status(s) != 0))), ('the messages stay', z3.And(to_int(C.size(s, lo_('trees')), 64) == n, same(s, s0)))]

    def leave(e, s):
        t0 = tree(s)
        B, c = e.fresh('after', C.arrays(s, lo_('trees'), UP)[0].sort()), e.fresh('status', Z)
        C.set_arrays(s, lo_('trees'), UP, [B])
        e.store(s, lo_('status'), 32, c)
        s.pc += [z3.Or(c == 0, c == 13), done(s, t0)]
    par = Par(ctx, ex, C, n, enter, post, leave)

    def hint(auto, fr, bb, s):
        fn = fr.fn
        body = fn.loops[bb]
        has = lambda w: any(w in str((i.a, i.x)) for k in body for i in fn.blocks[k])
        if has('dispatch_next'):
            return dict(unroll=True)
        var = header_vars(fn, bb)
        if not var:
            return None
        i = loop_pos(ex, fn, bb)
        nested = any(x in body and x != bb for x in fn.loops)
        if fn.name == main and nested:
            def inv(auto, s, k, st0):
                j = i(s)
                offs = C.arrays(s, lo_('offsets'), 'int')[0]
                return [('the tree number', z3.And(j >= 0, j <= n)), ('the place of the tree', select(offs, j) == OFF(j)), ('the places of the trees', z3.Implies(z3.And(ROW >= 0, ROW <= j), select(offs, ROW) == OFF(ROW))),
                        ('as many choices as levels so far', to_int(C.size(s, lo_('choices')), 64) == OFF(j)), ('the choices so far', z3.Implies(J < j, choice(s) == want))]
            return dict(inv=inv, open='all', trip='unknown')
        if fn.name == main:
            ch0 = choice(s)
            nl0 = ld(s, fn, 'num_levels', 32)
            row = ld(s, fn, 'i', 32)
            size0 = to_int(C.size(s, lo_('choices')), 64)

            def inv(lo, written, auto, s, k, st0):
                j = i(s)
                return [('the level', z3.And(j >= lo, j <= nl0 - 1 + lo)), ('as many choices as before', to_int(C.size(s, lo_('choices')), 64) == size0),
                        ('the choices so far', choice(s) == z3.If(z3.And(row == J, written(j)), want, ch0))]
            # level by level from the leaves, or from the root, with the level or its distance from the leaves counted
            orders = [(0, lambda j: Q > nl0 - 2 - j), (0, lambda j: Q < j), (-1, lambda j: Q > j), (-1, lambda j: Q < nl0 - 2 - j)]
            return dict(inv=[partial(inv, *w) for w in orders], open='all', trip='unknown')
        if 'omp_outlined' in fn.name and nested:
            T0['row'] = i
            t0, lo, c0 = tree(s), i(s), status(s)

            def inv(auto, s, k, st0):
                j = i(s)
                return [('the tree number', z3.And(j >= lo, j <= par.UB)), ('trees so far', z3.If(z3.And(lo <= J, J < j), done(s, t0), tree(s) == t0)), ('errors are kept', z3.And(z3.Or(status(s) == 0, status(s) == 13), z3.Implies(c0 != 0, status(s) != 0)))]
            return dict(inv=inv, open=True, trip='unknown')
        if 'omp_outlined' in fn.name:
            row = T0['row'](s)
            xv = local(ex, fn, 'xors')
            nl0 = ld(s, fn, 'num_levels', 32)

            def inv(auto, s, k, st0):
                j = i(s)
                sz, V = C.arrays(s, xv, VU)
                c = choice(s)
                return [('the level', z3.And(j >= 0, j <= nl0 - 1)), ('the dimensions', z3.And(to_int(C.size(s, xv), 64) == nl0 - 1, select(sz, Q) == 2)),
                        ('the XORs so far', z3.Implies(z3.And(row == J, Q < j), z3.If(c == 1, at(V, Q, z3.IntVal(1)) == XOR(hs, Q, 1), at(V, Q, z3.IntVal(0)) == XOR(hs, Q, 0))))]
            return dict(inv=inv, open='all', trip='unknown')
        return None
    L.hints.append((r'ReceiveTrees', hint))
    r = Ptr(ex.new_obj('result_'))
    res = ex.call_fn(main, [r, p, S, n, X_, n2, 2], st)
    ctx.cover('ReceiveTrees returns', len(res) > 0)
    ctx.cover('the trees are rebuilt', par.regions > 0)
    good = False
    for s, _ in res:
        code = to_int(ex.load(s, r, 32), 32)
        ctx.prove(ex, 'a different number of indices and outputs is rejected', s, z3.If(n != n2, code == 3, z3.Or(code == 0, code == 13)))
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good = True
        v = r.field(8)
        t = select(C.arrays(s, v, UP)[0], J)
        ctx.prove(ex, 'one tree per output', s, to_int(C.size(s, v), 64) == n)
        ctx.prove(ex, 'the tree of a non-empty output is that of the sender off the index', s, z3.If(LEN(J) == 0, t == 0, is_received(t, J)))
        ctx.prove(ex, 'the transfers have run if there are any, and the keys have arrived', s, z3.And(z3.BoolVal(s.ghost['keys'] == 1), z3.BoolVal(s.ghost['ot'] == 1) == (OFF(n) > 0)))
        ctx.feasible(ex, 'ReceiveTrees succeeds with trees', s)
    ctx.cover('ReceiveTrees succeeds', good)
    ctx.absorb(ex)
    CLOSURES[:] = []


def unpack(ctx):
    """UnpackLastLevel: element i is made from leaf i"""
    m = ctx.par
    ex, C, L = setup_ot(ctx, m)
    st = State()
    h, size = I('tree'), I('size')
    out = Ptr(ex.new_obj('output'))
    O0 = ex.fresh('out_before', z3.ArraySort(Z, RS))
    C.set_size(st, out, size)
    C.set_arrays(st, out, 'ring::R', [O0])
    st.pc += [h > 0, LEAVES(h) == size, size >= 0, size < 2 ** 50, X >= 0, X < size]

    def value(e, s, a, d):
        i = to_int(a[2], 64)
        ok = z3.And(i >= 0, i < LEAVES(handle(e, s, a[1])))
        e.store(s, a[0], 32, z3.If(ok, z3.IntVal(0), z3.IntVal(3)))
        e.store(s, a[0].field(16), 128, LEAF(handle(e, s, a[1]), i))
    ex.on(r'^%s::GetValueAtLeaf\(' % TREE, value)
    ex.on(r'ScalarHelper<ring::R.*>::FromUint128\(', lambda e, s, a, d: modulus(e, s) or e.store(s, a[0], 192, FU(z3.simplify(as128(a[1:])))))
    name = [f for f in m.find('UnpackLastLevel<ring::R>') if 'omp_outlined' not in f][0]
    res = ex.call_fn(name, [tree_ptr(h), C.elem(st, out, 0, 'ring::R'), size], st)
    ctx.cover('UnpackLastLevel returns', len(res) > 0)
    for s, _ in res:
        ctx.feasible(ex, 'UnpackLastLevel returns with elements', s)
        A = C.arrays(s, out, 'ring::R')[0]
        ctx.prove(ex, 'every element is made from its leaf', s, select(A, X) == FU(LEAF(h, X)))
    ctx.absorb(ex)
    CLOSURES[:] = []


def batched(ctx, receiver):
    m = ctx.par
    ex, C, L = setup_ot(ctx, m)
    st = State()
    no, ni = n, I('num_indices')
    valid_lengths(st)
    p = instance(ctx, m, ex, st)
    OUT0 = ex.fresh('outputs', z3.ArraySort(Z, z3.ArraySort(Z, RS)))
    OS, O = span_array(ex, C, st, 'outputs', no, NN, OUT0)
    IS = Ptr(ex.new_obj('indices'))
    C.set_size(st, IS, ni)
    C.set_arrays(st, IS, 'long', [IX])
    k = I('k')
    st.pc.append(z3.ForAll([k], z3.And(z3.Select(IX, k) >= -2 ** 63, z3.Select(IX, k) < 2 ** 63), patterns=[z3.Select(IX, k)]))
    st.pc += [ni >= 0, ni < 2 ** 31, J >= 0, J < n, X >= 0, X < LEN(J), ROW >= 0, ROW < n]
    st.ghost['runs'] = 0
    nm = 'RunReceiverBatched' if receiver else 'RunSenderBatched'
    main = [f for f in m.find('AllButOneRandomOT::%s<ring::R>' % nm) if 'omp_outlined' not in f][0]
    code0 = I('trees_status')
    ex.facts += [z3.Or(code0 == 0, code0 == 3, code0 == 13)]
    TV = z3.Const('trees', z3.ArraySort(Z, Z))
    good = lambda j: z3.And(z3.Select(IX, j) >= 0, z3.Or(LEN(j) == 0, z3.Select(IX, j) < LEN(j)))

    def trees(e, s, a, d):
        """the contract proved in SendTrees and ReceiveTrees"""
        want = 'ReceiveTrees' if receiver else 'SendTrees'
        sv, ln, rest = elem0(C, s, a[2], 'long'), to_int(a[3], 64), a[4:]
        A = C.arrays(s, sv, 'long')[0]
        gs = [z3.BoolVal(want in d and a[1].same(p) and s.ghost['runs'] == 0), ln == n, select(A, ROW) == LEN(ROW)]
        if receiver:
            gs += [z3.BoolVal(isinstance(rest[0], Ptr) and rest[0].same(C.elem(s, IS, 0, 'long'))), to_int(rest[1], 64) == ni, good(ROW), to_int(rest[2], 32) == 2]
        else:
            gs.append(to_int(rest[0], 32) == 2)
        e.oblige('%s is called once, with the lengths of the outputs%s' % (want, ' and the indices, which are in range' if receiver else ''), s, z3.And(*gs), kind='pre')
        s.ghost['runs'] = 1
        e.store(s, a[0], 32, code0)
        v = a[0].field(8)
        C.set_size(s, v, n)
        C.set_arrays(s, v, UP, [TV])
        j, x = I('tr_j'), I('tr_x')
        t = z3.Select(TV, j)
        s.pc.append(z3.Implies(code0 == 0, z3.ForAll([j], z3.If(LEN(j) == 0, t == 0, z3.And(t > 0, LEAVES(t) == LEN(j))), patterns=[t])))
        s.pc.append(z3.Implies(code0 == 0, LEAF(z3.Select(TV, J), X) == LEAF(z3.Select(HS, J), X) if not receiver else z3.Implies(X != z3.Select(IX, J), LEAF(z3.Select(TV, J), X) == LEAF(z3.Select(HS, J), X))))
    ex.on(r'AllButOneRandomOT::(SendTrees|ReceiveTrees)(<|\()', trees)

    def unpack_(e, s, a, d):
        h = handle(e, s, a[0])
        c = elem0(C, s, a[1], 'ring::R')
        ln = to_int(a[2], 64)
        modulus(e, s)
        e.oblige('the tree exists and has as many leaves as the output elements', s, z3.And(h > 0, LEAVES(h) == ln), kind='pre')
        old, x = C.arrays(s, c, 'ring::R')[0], I('un_x')
        C.set_arrays(s, c, 'ring::R', [z3.Lambda([x], z3.If(z3.And(x >= 0, x < ln), FU(LEAF(h, x)), z3.Select(old, x)))])
    ex.on(r'UnpackLastLevel<ring::R>', unpack_)
    outs = lambda s: C.arrays(s, OS, SPAN + '<ring::R>')[1]
    row = lambda A: at(A, J, X)
    want = FU(LEAF(z3.Select(TV, J), X))

    def enter(e, s, lb, ub):
        A = e.fresh('outs', OUT0.sort())
        s.pc.append(z3.Implies(z3.And(lb <= J, J < ub), row(A) == row(outs(s))))
        C.set_arrays(s, OS, SPAN + '<ring::R>', [NN, A])

    def post(e, s, s0, lb, ub):
        mine = z3.And(lb <= J, J < ub)
        return [('every element of the outputs is made from its leaf', z3.Implies(mine, row(outs(s)) == want)), ('other outputs are untouched', z3.Implies(z3.Not(mine), row(outs(s)) == row(outs(s0)))),
                ('the lengths stay', z3.And(to_int(C.size(s, OS), 64) == n, arr_unchanged(C.arrays(s, OS, SPAN + '<ring::R>')[0], NN)))]

    def leave(e, s):
        A = e.fresh('outs', OUT0.sort())
        C.set_arrays(s, OS, SPAN + '<ring::R>', [NN, A])
        s.pc.append(row(A) == want)
    par = Par(ctx, ex, C, n, enter, post, leave)

    def hint(auto, fr, bb, s):
        fn = fr.fn
        if any('dispatch_next' in str((x.a, x.x)) for b in fn.loops[bb] for x in fn.blocks[b]):
            return dict(unroll=True)
        var = header_vars(fn, bb)
        if not var:
            return None
        i = loop_pos(ex, fn, bb)
        if 'omp_outlined' in fn.name:
            lo, r0 = i(s), row(outs(s))

            def inv(auto, s, k, st0):
                j = i(s)
                return [('the output number', z3.And(j >= lo, j <= par.UB)), ('the outputs so far', row(outs(s)) == z3.If(z3.And(lo <= J, J < j), want, r0))]
            return dict(inv=inv, open='all', trip='unknown')
        if fn.name == main and receiver and any(x not in fn.loops[bb] for b in fn.loops[bb] if b != bb for x in fn.succs(b)):
            # the loop that leaves on an index out of range

            def inv(auto, s, k, st0):
                j = i(s)
                return [('the index number', z3.And(j >= 0, j <= n)), ('indices so far are in range', z3.Implies(ROW < j, good(ROW)))]
            return dict(inv=inv, trip='unknown')
        return None
    L.hints.append((r'AllButOneRandomOT::', hint))
    if receiver:
        args = [p, C.elem(st, IS, 0, 'long'), ni, O, no]
    else:
        args = [p, O, no]
    res = ex.call_fn(main, args, st)
    ctx.cover(nm + ' returns', len(res) > 0)
    ctx.cover(nm + ' has a parallel region', par.regions > 0)
    ok = False
    q = I('some_row')
    for s, code in res:
        code = to_int(code, 32)
        if receiver:
            ctx.prove(ex, 'a different number of indices and outputs is rejected', s, z3.Implies(ni != n, code == 3))
            ctx.prove(ex, 'an index out of range is rejected', s, z3.Implies(z3.And(ni == n, z3.Not(good(ROW))), code == 3))
            s2 = s.copy()
            s2.pc += [ni == n, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), good(q)), patterns=[z3.Select(IX, q)])]
            ctx.prove(ex, 'otherwise the result is that of ReceiveTrees', s2, code == code0)
        else:
            ctx.prove(ex, 'the result is that of SendTrees', s, code == code0)
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        ok = True
        ctx.feasible(ex, nm + ' succeeds with outputs', s)
        ctx.prove(ex, 'the trees were exchanged once', s, z3.BoolVal(s.ghost['runs'] == 1))
        ctx.prove(ex, 'outputs keep their place and length', s, z3.And(to_int(C.size(s, OS), 64) == n, arr_unchanged(C.arrays(s, OS, SPAN + '<ring::R>')[0], NN)))
        g = row(outs(s)) == FU(LEAF(z3.Select(HS, J), X))
        ctx.prove(ex, "every element%s is made from its leaf of the sender's tree" % (' but the one at the index' if receiver else ''), s, z3.Implies(X != z3.Select(IX, J), g) if receiver else g)
    ctx.cover(nm + ' succeeds', ok)
    ctx.absorb(ex)
    CLOSURES[:] = []


def single(ctx, receiver):
    """RunSender and RunReceiver call the batched methods with exactly their arguments"""
    m = ctx.par
    ex, C, L = setup_ot(ctx, m)
    st = State()
    p = instance(ctx, m, ex, st)
    out = Ptr(ex.new_obj('output'))
    ix, size, code = I('index'), I('size'), I('batched_status')
    st.pc += [ix >= -2 ** 63, ix < 2 ** 63, size >= 0, size < 2 ** 50]
    o0, o1 = ex.fresh('out_before', z3.ArraySort(Z, RS)), ex.fresh('out_after', z3.ArraySort(Z, RS))
    C.set_size(st, out, size)
    C.set_arrays(st, out, 'ring::R', [o0])
    ex.facts += [code >= 0, code <= 16]
    st.ghost['runs'] = 0
    st.ghost['ok'] = None

    def run(e, s, a, d):
        b = list(a[1:])
        gs = [z3.BoolVal(('RunReceiverBatched' if receiver else 'RunSenderBatched') in d and a[0].same(p) and s.ghost['runs'] == 0)]
        if receiver:
            gs += [to_int(b[1], 64) == 1, to_int(e.load(s, b[0], 64), 64) == ix]
            b = b[2:]
        q, ln = e.load(s, b[0], 64), to_int(e.load(s, b[0].field(8), 64), 64)
        gs += [to_int(b[1], 64) == 1, ln == size]
        e.oblige('the batched method is called once with the arguments', s, z3.And(*gs), kind='pre')
        s.ghost['runs'] = 1
        C.set_arrays(s, elem0(C, s, q, 'ring::R'), 'ring::R', [o1])
        return z3.If(z3.And(ix >= 0, z3.Or(size == 0, ix < size)), code, z3.IntVal(3)) if receiver else code
    ex.on(r'AllButOneRandomOT::Run(Sender|Receiver)Batched<', run)
    nm = 'RunReceiver' if receiver else 'RunSender'
    fn = m.find('AllButOneRandomOT::%s<ring::R>' % nm)[0]
    res = ex.call_fn(fn, [p] + ([ix] if receiver else []) + [C.elem(st, out, 0, 'ring::R'), size], st)
    ctx.cover(nm + ' returns', len(res) > 0)
    for s, cd in res:
        cd = to_int(cd, 32)
        good = z3.And(ix >= 0, z3.Or(size == 0, ix < size)) if receiver else z3.BoolVal(True)
        ctx.prove(ex, nm + ': an index out of range is rejected, otherwise the status is that of the batched method', s, cd == z3.If(good, code, z3.IntVal(3)))
        s = s.copy()
        s.pc += [cd == 0]
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        ctx.feasible(ex, nm + ' succeeds', s)
        ctx.prove(ex, nm + ': the output is that of the batched method', s, z3.And(z3.BoolVal(s.ghost['runs'] == 1), to_int(C.size(s, out), 64) == size, C.arrays(s, out, 'ring::R')[0] == o1))
    ctx.absorb(ex)
    CLOSURES[:] = []


def levels(ctx):
    """the number of levels of a tree is the function LV of its leaves that the receiver computes too"""
    m = ctx.par
    ex, C, L = setup_ot(ctx, m)
    ex.on(r'GGMTreeToEMPBlock|EMPToGGMTreeBlock', lambda e, s, a, d: NotImplemented)
    st = State()
    nl = I('num_leaves')
    st.pc += [nl >= 1, nl < 2 ** 50, LV(nl) >= 1, LV(nl) < 64]
    name = m.find(r'AllocateLevels\(')[0]
    fn = m.functions[name]

    def hint(auto, fr, bb, s):
        lv = local(ex, fn, 'levels')
        ld = lambda s, nm, b: to_int(ex.load(s, local(ex, fn, nm), b), b)
        n0 = ld(s, 'num_levels', 32)

        def inv(late, auto, s, k, st0):
            i, b = ld(s, 'i', 32), ld(s, 'num_blocks_for_level', 64)
            return [('the level index is in range', z3.And(i >= -1, i <= n0 - 1)), ('there are num_levels levels', to_int(C.size(s, lv), 64) == LV(nl)), ('the number of blocks', z3.Or(i == n0 - 1 if late else z3.BoolVal(False), z3.And(b >= 0, b <= nl)))]
        return dict(inv=[partial(inv, True), partial(inv, False)], open=True, trip='unknown')
    L.hints.append((r'AllocateLevels', hint))
    r = Ptr(ex.new_obj('result'))
    res = ex.call_fn(name, [r, 2, nl], st)
    ctx.cover('AllocateLevels returns', len(res) > 0)
    good = False
    for s, _ in res:
        code = to_int(ex.load(s, r, 32), 32)
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good = True
        ctx.prove(ex, 'a tree has the number of levels that the receiver computes', s, to_int(C.size(s, r.field(8)), 64) == LV(nl))
    ctx.cover('AllocateLevels succeeds', good)
    ctx.absorb(ex)
    CLOSURES[:] = []


def blocks(ctx):
    """the conversions between the block types of the library and of EMP are inverse to each other"""
    ex = ctx.exec(ctx.blocks, 'bv')
    lo, hi = z3.BitVec('lo', 64), z3.BitVec('hi', 64)
    res = ex.call_fn(ctx.blocks.find(r'^verif_there_and_back')[0], [lo, hi], State())
    ctx.cover('the conversions return', len(res) > 0)
    for s, v in res:
        parts = [ex.load(s, v, 64), ex.load(s, v.field(8), 64)] if isinstance(v, Ptr) else None
        if isinstance(v, (tuple, list)):
            parts = list(v)
        if parts is None:
            x = bv(v, 128)
            parts = [z3.Extract(63, 0, x), z3.Extract(127, 64, x)]
        ctx.prove(ex, 'a block survives the conversion to EMP and back', s, z3.And(bv(parts[0], 64) == lo, bv(parts[1], 64) == hi))
    ctx.absorb(ex)


def create(ctx):
    """Create: a channel, a non-negative statistical security, both kept"""
    m = ctx.create
    ex, C, L = setup_ot(ctx, m)
    st = State()
    sec = RC('security')
    r, ch = Ptr(ex.new_obj('result_')), Ptr(ex.new_obj('channel'))
    ad, code = Ptr(ex.new_obj('adapter')), I('create_status')
    ex.facts += [code >= 0, code <= 16]
    C.layouts.pop(UP, None)
    st.ghost['synced'] = 0

    def mk(e, s, a, d):
        e.oblige('the adapter is made for the channel of the caller', s, z3.BoolVal(a[1].same(ch)), kind='pre')
        e.store(s, a[0], 32, code)
        e.store(s, a[0].field(8), 64, ad)
    ex.on(r'CommChannelEMPAdapter::Create\(', mk)
    ex.on(r'comm_channel::(sync|is_measured)\(', lambda e, s, a, d: e.fresh('measured', z3.BoolSort()) if 'measured' in d else None)
    ex.on(r'SHOTExtension<.*>::~?SHOTExtension\(', lambda e, s, a, d: s.ghost.__setitem__('ot', a) if '~' not in d else None)
    fn = m.find('AllButOneRandomOT::Create')[0]
    res = ex.call_fn(fn, [r, NULL, sec], st.copy())
    ctx.cover('Create rejects a null channel', len(res) > 0)
    for s, _ in res:
        ctx.prove(ex, 'Create: a null channel is an argument error', s, to_int(ex.load(s, r, 32), 32) == 3)
    mem = m.members('AllButOneRandomOT')
    res = ex.call_fn(fn, [r, ch, sec], st.copy())
    ctx.cover('Create returns', len(res) > 0)
    good = False
    for s, _ in res:
        got = to_int(ex.load(s, r, 32), 32)
        ctx.prove(ex, 'Create: negative statistical security is an argument error, otherwise the status is that of the adapter', s, got == z3.If(sec < 0, z3.IntVal(3), code))
        s = s.copy()
        s.pc.append(got == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good = True
        q = ex.load(s, r.field(8), 64)
        ok = isinstance(q, Ptr) and q.obj is not None
        f = lambda k, b=64: ex.load(s, q.field(mem[k]), b)
        ctx.prove(ex, 'Create: the instance has the channel, the adapter and the security', s, z3.And(z3.BoolVal(ok and f('channel_').same(ch) and f('channel_adapter_').same(ad) and s.ghost['ot'][0].same(q.field(mem['ot_extension_'])) and s.ghost['ot'][1].same(ad)),
                                                                                                 f('statistical_security_') == sec))
    ctx.cover('Create succeeds', good)
    ctx.absorb(ex)
    CLOSURES[:] = []


HB = '''#include "distributed_vector_ole/internal/all_but_one_random_ot_internal.h"
using namespace distributed_vector_ole;
GGMTree::Block verif_there_and_back(GGMTree::Block b) {
  return all_but_one_random_ot_internal::EMPToGGMTreeBlock(all_but_one_random_ot_internal::GGMTreeToEMPBlock(b));
}
'''


def proof(ctx):
    ctx.module = ctx.par = ctx.ir(None, PAR, name='ot', text=H)
    ctx.create = ctx.ir('all_but_one_random_ot.cpp', PAR, name='ot_create')
    ctx.blocks = ctx.ir(None, ['-DNDEBUG', '-I' + VERIF + '/stubs'], name='ot_blocks', text=HB)
    ctx.parallel([('SendTrees', send_trees), ('ReceiveTrees', receive_trees), ('RunReceiverBatched', batched, True), ('RunSenderBatched', batched, False), ('lemmas', lemmas), ('UnpackLastLevel', unpack),
                  ('RunSender', single, False), ('RunReceiver', single, True), ('tree levels', levels), ('Create', create), ('blocks', blocks)])


def native(ctx):
    proto_native(ctx, 17)
