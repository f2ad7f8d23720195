"""Contracts of the GGM tree functions.

Level sizes, ancestors and node values are ghost functions; a statement about "every node" is proved for one arbitrary
node (LS, CS) and its chain of ancestors A(0..LS), which makes every obligation free of quantifiers."""
import re
from functools import partial
from aescommon import *
from cuckoocommon import halves, absl128


I = z3.Int
BV = z3.BitVecSort(128)
Int = z3.IntSort()
VV = 'std::vector<absl::debian3::uint128, std::allocator<absl::debian3::uint128> >'
U = 'absl::debian3::uint128'
TA = z3.Function('times_arity', Int, Int)          # arity * x
PAR = z3.Function('div_arity', Int, Int)           # x / arity
SZ = z3.Function('level_size', Int, Int)
A = z3.Function('ancestor', Int, Int)              # of the node (LS, CS) at a level
TROW = z3.Function('value', Int, z3.ArraySort(Int, BV))      # the PRG expansion, level by level
a, n, NL, LS, CS = I('arity'), I('num_leaves'), I('num_levels'), I('ls'), I('cs')
EK = z3.Const('round_keys', z3.ArraySort(Int, KEY))
BIG = 2 ** 50


def T(l, c):
    return z3.Select(TROW(z3.simplify(l) if z3.is_expr(l) else z3.IntVal(l)), c if z3.is_expr(c) else z3.IntVal(c))


def prg(x, s, ek=None):
    return AES(z3.Select(EK if ek is None else ek, s), x) ^ x


_G = {}


def ground1(f, names):
    """ground applications of the ghost functions in one formula, cached"""
    k = f.get_id()
    h = _G.get(k)
    if h is not None:
        return h[1]
    out = {nm: {} for nm in NAMES}
    seen, todo = set(), [f]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            ch = x.children()
            if ch:
                nm = x.decl().name()
                if nm in out and not has_var(x):
                    out[nm][x.get_id()] = x
                todo += ch
    _G[k] = (f, out)
    return out


NAMES = ('times_arity', 'div_arity', 'level_size', 'ancestor')


def ground(fs, decls=None):
    """ground applications of the ghost functions: name -> list of terms"""
    out = {nm: {} for nm in NAMES}
    for f in fs:
        if z3.is_expr(f):
            for nm, d in ground1(f, NAMES).items():
                out[nm].update(d)
    return {k: list(v.values()) for k, v in out.items()}


_M = {}


def memo(key, keep, f):
    """f() cached under the ids of the terms in keep"""
    k = (key,) + tuple(t.get_id() for t in keep)
    h = _M.get(k)
    if h is None:
        h = _M[k] = (keep, f())
    return h[1]


_HV = {}


def has_var(e):
    k = e.get_id()
    h = _HV.get(k)
    if h is not None:
        return h[1]
    r = z3.is_var(e) or any(has_var(c) for c in e.children())
    _HV[k] = (e, r)
    return r


_S = {}


def simp1(t):
    h = _S.get(t.get_id())
    if h is None:
        h = _S[t.get_id()] = (t, z3.simplify(t))
    return h[1]


def dedup(ts):
    out = {}
    for t in ts:
        u = simp1(t)
        out[u.get_id()] = u
    return list(out.values())


def chain_facts(t, values):
    out, more = [], []
    for m in (z3.simplify(t - 1), t):
        m1 = z3.simplify(m + 1)
        c, p = A(m1), A(m)
        out.append(z3.Implies(z3.And(m >= 0, m < LS), p == PAR(c)))
        if values:
            out.append(z3.Implies(z3.And(m >= 0, m < LS), T(m1, c) == prg(T(m, p), c - TA(p))))
        more += [m, m1]
    out.append(z3.Implies(z3.And(t >= 0, t <= LS), z3.And(A(t) >= 0, A(t) < SZ(t))))
    return out, more


def pair_facts(x, y):
    return [z3.Implies(z3.And(a >= 2, x < y), TA(x) + a <= TA(y)), z3.Implies(z3.And(a >= 2, y < x), TA(y) + a <= TA(x)),
            z3.Implies(z3.And(a >= 2, x == y + 1), TA(x) == TA(y) + a), z3.Implies(z3.And(a >= 2, y == x + 1), TA(y) == TA(x) + a)]


def par_facts(x):
    return [z3.Implies(z3.And(a >= 2, x >= 0), z3.And(PAR(x) >= 0, TA(PAR(x)) <= x, x < TA(PAR(x)) + a, PAR(x) <= x))]


class Lemmas:
    """instances of the defining equations of the ghost functions"""

    def __init__(self, chain=True, values=True):
        self.chain, self.values = chain, values

    def __call__(self, fs):
        g = ground(fs)
        out = []
        szs = [t.arg(0) for t in g['level_size']]
        ancs = dedup([t.arg(0) for t in g['ancestor']])
        more = []
        if self.chain:
            for t in ancs:
                o, mo = memo(('chain', self.values), (t,), lambda: chain_facts(t, self.values))
                out += o
                more += mo
            if ancs:
                out.append(A(LS) == CS)
        for m in dedup(szs + more + ([LS] if ancs else [])):
            out += memo('size', (m,), lambda: size_facts(m))
        g = ground(out + list(fs))
        ps = dedup([t.arg(0) for t in g['div_arity']])
        for x in ps:
            out += memo('par', (x,), lambda: par_facts(x))
        ts = dedup([t.arg(0) for t in g['times_arity']] + [PAR(x) for x in ps])
        ts.sort(key=lambda t: t.get_id())
        for i, x in enumerate(ts):
            out += memo('one', (x,), lambda: [z3.Implies(z3.And(a >= 2, x >= 0), TA(x) >= 2 * x), z3.Implies(x == 0, TA(x) == 0)])
            for y in ts[:i]:
                out += memo('pair', (x, y), lambda: pair_facts(x, y))
        return out


def size_facts(m):
    r = [z3.Implies(z3.And(n >= 1, k >= 0, k < NL - 1), SZ(k) == PAR(z3.simplify(SZ(z3.simplify(k + 1)) + a - 1))) for k in (m, z3.simplify(m - 1))]
    return r + [z3.Implies(z3.And(n >= 1, m >= 0, m < NL), z3.And(SZ(m) >= 1, SZ(m) < BIG)), z3.Implies(n >= 1, SZ(z3.simplify(NL - 1)) == n)]


def mul(x, y):
    if y.eq(a):
        return TA(x)
    if x.eq(a):
        return TA(y)


def div(op, x, y):
    if y.eq(a):
        x = z3.simplify(x)
        return PAR(x) if op == 'div' else x - TA(PAR(x))


LEMMAS = [
    ('lemma: products by the arity are monotone with gap arity', lambda x, y, q: z3.Implies(z3.And(a >= 2, x < y), x * a + a <= y * a)),
    ('lemma: quotients by the arity are unique', lambda x, y, q: z3.Implies(z3.And(a >= 2, x >= 0, q == x / a), z3.And(q >= 0, q * a <= x, x < q * a + a, q <= x))),
    ('lemma: a product by the arity is at least twice the factor', lambda x, y, q: z3.Implies(z3.And(a >= 2, x >= 0), x * a >= 2 * x)),
]


def lemmas(ctx):
    """the instances used are true of multiplication and division"""
    ex = ctx.exec(ctx.module, 'int')
    x, y, q = I('x'), I('y'), I('q')
    for nm, f in LEMMAS:
        ctx.prove(ex, nm, None, f(x, y, q), kind='lemma')
    # a node's parent is a node: c < SZ(m+1), SZ(m) = (SZ(m+1) + a - 1) / a
    s, c = I('s'), I('c')
    p, z = I('p'), I('z')
    ctx.prove(ex, 'lemma: the parent of a node is a node of the level above', None, z3.Implies(
        z3.And(a >= 2, c >= 0, c < s, p * a <= c, c < p * a + a, z * a <= s + a - 1, s + a - 1 < z * a + a), z3.And(p < z)), kind='lemma')
    ctx.prove(ex, 'lemma: a level above a non-empty level is not empty and not larger', None, z3.Implies(
        z3.And(a >= 2, s >= 1, z >= 0, z * a <= s + a - 1, s + a - 1 < z * a + a), z3.And(z >= 1, z <= s)), kind='lemma')
    ctx.absorb(ex)


class GGM:
    def __init__(self, ctx, chain=True, arity=True):
        self.ctx = ctx
        m = self.m = ctx.module
        CLOSURES[:] = [Lemmas(chain)]
        self.ex, self.C, self.L = setup(ctx, m)
        ex, C = self.ex, self.C
        C.layouts.pop('unsigned long', None)
        C.layouts['unsigned long'] = (8, [((), 0, 8, z3.IntSort(), z3.IntVal(0))])
        ex.mul_hook, ex.div_hook = mul, div

        absl128(ex)
        ex.on(r'^RAND_bytes$', self.rand)
        ex.on(r'^std::log<|^std::ceil|^log$|^ceil$|^pow$|^std::pow', self.real)
        self.off = m.members('GGMTree')
        self.st = State()
        if arity:
            self.st.pc += [a >= 2, a < 2 ** 31]

    def rand(self, e, st, args, d):
        e.store(st, args[0], 128, e.fresh('random', BV))
        return 1

    def real(self, e, st, args, d):
        """log(x) >= 0 for x >= 1, log(x) >= 1/2 for x >= 2, log(x) <= 44 for x < 2^63 (trusted)"""
        r = e.fresh('log' if 'log' in d else 'pow', z3.RealSort())
        if 'log' in d:
            x = args[0]
            if is_int(x) or isinstance(x, int):
                x = z3.ToReal(to_int(x, 64))
            st.pc += [z3.Implies(x >= 1, r >= 0), z3.Implies(x >= 2, r >= z3.RealVal('1/2')), z3.Implies(x < 2 ** 63, r <= 44)]
        return r

    def tree(self, levels=True):
        """a tree with NL levels of the ghost sizes and arbitrary values"""
        ex, st, C = self.ex, self.st, self.C
        p = self.p = Ptr(ex.new_obj('tree'))
        f = lambda nm: p.field(self.off[nm])
        ex.store(st, f('arity_'), 32, a)
        ex.store(st, f('num_leaves_'), 64, n)
        ex.store(st, f('num_levels_'), 32, NL)
        st.pc += [NL >= 1, NL < 100, n >= 1, n < BIG]
        self.levels = f('levels_')
        self.V0 = z3.Const('V0', z3.ArraySort(Int, z3.ArraySort(Int, BV)))
        self.set_levels(st, self.levels, self.V0)
        ks = f('expanded_keys_')
        C.set_size(st, ks, a)
        C.set_arrays(st, ks, 'aes_key_st', [EK])
        return p

    def set_levels(self, st, p, V):
        j = I('lv_j')
        self.C.set_size(st, p, NL)
        self.C.set_arrays(st, p, VV, [z3.Lambda([j], SZ(j)), V])

    def V(self, st, p=None):
        return self.C.arrays(st, p or self.levels, VV)[1]

    def node(self):
        """an arbitrary node"""
        self.st.pc += [LS >= 0, LS < NL, CS >= 0, CS < SZ(LS), A(LS) == CS]


def at(V, l, c):
    return loops_sel(V, l, c)


def loops_sel(V, l, c):
    import loops
    return loops.select(loops.select(V, z3.simplify(l) if z3.is_expr(l) else z3.IntVal(l)), z3.simplify(c) if z3.is_expr(c) else z3.IntVal(c))


def depth(fn, bb):
    """how many loops contain this loop"""
    return sum(1 for h, body in fn.loops.items() if bb in body) - 1


def local(ex, fn, name):
    o = [k for k, v in ex.objs.items() if v.get('alloca') in (name, name + '.addr') and v.get('fn') == fn.name]
    if not o:
        raise Unsupported('no local variable ' + name)
    return Ptr(max(o))


def position(v, b):
    """the value of a loop variable: a number, or the place an iterator points to"""
    return z3.IntVal(v.steps[-1][1]) if isinstance(v, Ptr) and v.steps and isinstance(v.steps[-1][1], int) else v.steps[-1][1] if isinstance(v, Ptr) and v.steps else to_int(v, b)


def header_vars(fn, bb):
    """the variables read in the header block of a loop (or, for iterators, compared there), those that the loop changes first"""
    hd = fn.blocks[bb]
    r = [i.a[1][1] for i in hd if i.op == 'load' and i.a[1][0] == 'r']
    if not r:
        r = [x[1][1] for i in hd if i.op in ('call', 'invoke') for x in i.a[1] if x[1][0] == 'r']
    ins = [i for b in fn.loops[bb] for i in fn.blocks[b]]
    made = {i.dst for i in ins}
    r = [x for x in r if x not in made]
    changed = {i.a[1][1] for i in ins if i.op == 'store' and i.a[1][0] == 'r'}
    if not any(x in changed for x in r):
        # iterators are changed by calls
        changed |= {i.a[1][0][1][1] for b in fn.loops[bb] if b != bb for i in fn.blocks[b] if i.op in ('call', 'invoke') and i.a[1] and i.a[1][0][1][0] == 'r' and re.search('ppEv|mmEv|pLE|mIE', str(i.a[0]))}
    return [x for x in r if x in changed] + [x for x in r if x not in changed]


def var_width(fn, bb, nm):
    """bits of a loop variable (iterators: 64)"""
    ty = [i.ty for i in fn.blocks[bb] if i.op == 'load' and i.a[1][1] == nm]
    return 32 if ty and not re.search('i64|ptr', str(ty)) else 64


def loop_pos(ex, fn, bb):
    """the position a loop is at, as a function of the state: its counter, or the place its iterator points to (None: no
    loop variable was recognised)"""
    v = header_vars(fn, bb)
    if not v:
        return None
    b = var_width(fn, bb, v[0])
    return lambda s: position(ex.load(s, local(ex, fn, v[0]), b), b)


def mentions(fn, blocks, name):
    return any("('r', '%s')" % name in str((i.a, i.x)) for b in blocks for i in fn.blocks[b])


def expand(ctx, values=True):
    """ExpandSubtree: with the right value at (sl, sn), every node below it gets its PRG value, all others keep theirs;
    without values: only that every access is inside the tree"""
    g = GGM(ctx)
    ex, st, C, L = g.ex, g.st, g.C, g.L
    g.tree()
    g.node()
    sl, sn = I('sl'), I('sn')
    V0 = g.V0
    st.pc += [sl >= 0, sl < NL, sn >= 0, sn < SZ(sl)] + ([at(V0, sl, sn) == T(sl, sn)] if values else [])
    IN = z3.And(LS >= sl, A(sl) == sn)
    name = ctx.module.find('GGMTree::ExpandSubtree')[0]
    fn = ctx.module.functions[name]
    ld = lambda s, nm, b=64: to_int(ex.load(s, local(ex, fn, nm), b), b)

    def hint(auto, fr, bb, s):
        # the loop over the children of a node may be in a function of its own
        d = depth(fr.fn, bb) if fr.fn.name == name else 2
        sibling = loop_pos(ex, fr.fn, bb)
        if fr.fn.name != name and (depth(fr.fn, bb) or len(fr.fn.loops) != 1 or sibling is None):
            return None

        def inv(auto, s, k, st0):
            V, Ve = g.V(s), g.V(st0)
            m = ld(s, 'level_index', 32)
            start, mx = ld(s, 'start_node'), ld(s, 'max_node_index')
            if d == 0:
                r = [('the level index is in range', z3.And(m >= sl, m <= NL - 1)),
                        ('the first node of the subtree on this level exists', z3.And(start >= 0, start < SZ(m), mx > start, mx <= 2 ** 52)),
                        ('exactly the descendants of the start node are in the range of this level', z3.Implies(z3.And(m <= LS, LS >= sl), z3.And(start <= A(m), A(m) < mx) == (A(sl) == sn)))]
                return r if not values else r + [
                        ('the ancestor of the node on this level (or the node itself) has its PRG value', z3.Implies(z3.And(IN, m <= LS), at(V, m, A(m)) == T(m, A(m)))),
                        ('the node has its PRG value', z3.Implies(z3.And(IN, m > LS), at(V, LS, CS) == T(LS, CS))),
                        ('nodes outside of the subtree are unchanged', z3.Implies(z3.Not(IN), at(V, LS, CS) == at(V0, LS, CS)))]
            node = ld(s, 'node_index')
            done = z3.And(start <= A(m), A(m) < node)
            if d == 2:
                sib = sibling(s)
                done = z3.And(A(m) == node, A(m + 1) - TA(A(m)) < sib)
            if not values:
                return [('the node index is in range', z3.And(node >= start, node <= mx))] if d == 1 else [('the sibling index is in range', z3.And(sib >= 0, sib <= a, TA(node) + sib <= SZ(m + 1)))]
            new = prg(at(Ve, m, A(m)), A(m + 1) - TA(A(m)))
            r = [('the nodes of this level are unchanged', z3.Implies(m <= LS, at(V, m, A(m)) == at(Ve, m, A(m)))),
                 ('the child has the PRG value of its parent exactly if the parent was expanded', z3.Implies(m + 1 <= LS, at(V, m + 1, A(m + 1)) == z3.If(done, new, at(Ve, m + 1, A(m + 1))))),
                 ('other levels are unchanged', z3.Implies(LS != m + 1, at(V, LS, CS) == at(Ve, LS, CS)))]
            if d == 2:
                r.append(('the sibling index is in range', z3.And(sib >= 0, sib <= a, TA(node) + sib <= SZ(m + 1))))
            else:
                r.append(('the node index is in range', z3.And(node >= start, node <= mx)))
            return r
        return dict(inv=inv, open=True, trip='unknown')
    L.hints.append((r'GGMTree::', hint))
    res = ex.call_fn(name, [g.p, sl, sn], st)
    ctx.cover('ExpandSubtree returns', len(res) > 0)
    for s, _ in res:
        V = g.V(s)
        if values:
            ctx.prove(ex, 'every node below the start node has its PRG value', s, z3.Implies(IN, at(V, LS, CS) == T(LS, CS)))
            ctx.prove(ex, 'all other nodes are unchanged', s, z3.Implies(z3.Not(IN), at(V, LS, CS) == at(V0, LS, CS)))
        j = I('any_level')
        s = s.copy()
        s.pc += [j >= 0, j < NL]
        import loops
        ctx.prove(ex, 'the level sizes are unchanged', s, z3.And(to_int(C.size(s, g.levels), 64) == NL, loops.select(C.arrays(s, g.levels, VV)[0], j) == SZ(j)))
    ctx.absorb(ex)


H = '''#include "distributed_vector_ole/ggm_tree.cpp"
using namespace distributed_vector_ole;
mpc_utils::StatusOr<std::unique_ptr<GGMTree>> verif_create(int arity, int64_t n, GGMTree::Block seed) { return GGMTree::Create(arity, n, seed); }
mpc_utils::StatusOr<GGMTree::Block> verif_leaf(const GGMTree& t, int64_t i) { return t.GetValueAtLeaf(i); }
int64_t verif_size(const GGMTree& t, int l) { return t.level_size(l); }
'''


FOLD = z3.Function('fold', z3.ArraySort(Int, BV), Int, Int, Int, BV)      # array, size, sibling position, number of batches
SS = I('ss')


def fold_lemmas(fs):
    out = []
    for t in terms(fs, FOLD):
        arr, N, s, b = t.children()
        b1 = z3.simplify(b - 1)
        out.append(z3.Implies(b == 0, t == z3.BitVecVal(0, 128)))
        x = TA(b1) + s
        out.append(z3.Implies(b >= 1, t == FOLD(arr, N, s, b1) ^ z3.If(x < N, z3.Select(arr, x), z3.BitVecVal(0, 128))))
    return out


_FT = {}


def terms(fs, decl):
    """ground applications of a function"""
    out = {}
    for f in fs:
        if not z3.is_expr(f):
            continue
        k = (f.get_id(), decl.get_id())
        h = _FT.get(k)
        if h is None:
            o, seen, todo = {}, set(), [f]
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    todo.append(x.body())
                elif z3.is_app(x):
                    if x.decl().eq(decl) and not has_var(x):
                        o[x.get_id()] = x
                    todo += x.children()
            h = _FT[k] = (f, o)
        out.update(h[1])
    return list(out.values())


def batches(N):
    return PAR(z3.simplify(N + a - 1))


def xorblocks(ctx):
    """XORBlocks: out[s] becomes out[s] xor the fold of in at sibling position s, for every s"""
    g = GGM(ctx, chain=False)
    CLOSURES.insert(0, fold_lemmas)
    ex, st, C, L = g.ex, g.st, g.C, g.L
    N = I('in_size')
    IN, OUT = Ptr(ex.new_obj('in')), Ptr(ex.new_obj('out'))
    st.pc += [N >= 1, N < BIG, SS >= 0, SS < a]
    IA, OA = z3.Const('IN', z3.ArraySort(Int, BV)), z3.Const('OUT', z3.ArraySort(Int, BV))
    C.set_size(st, IN, N)
    C.set_arrays(st, IN, U, [IA])
    C.set_size(st, OUT, a)
    C.set_arrays(st, OUT, U, [OA])
    name = ctx.module.find(r'XORBlocks\(')[0]
    fn = ctx.module.functions[name]
    ld = lambda s, nm, b=64: to_int(ex.load(s, local(ex, fn, nm), b), b)
    out = lambda s: C.arrays(s, OUT, U)[0]

    def hint(auto, fr, bb, s):
        d = depth(fr.fn, bb)

        def inv(auto, s, k, st0):
            b = ld(s, 'batch')
            if d == 0:
                return [('the batches so far are folded onto the result', z3.Select(out(s), SS) == z3.Select(OA, SS) ^ FOLD(IA, N, SS, b)),
                        ('the batch index is in range', z3.And(b >= 0, b <= batches(N)))]
            x = TA(b) + SS
            i = ld(s, 'block')
            nb = z3.If(a < N - TA(b), a, N - TA(b))
            return [('the blocks of the batch so far are folded onto the result', z3.Select(out(s), SS) == z3.Select(out(st0), SS) ^ z3.If(SS < i, z3.Select(IA, x), z3.BitVecVal(0, 128))),
                    ('the block index is in range', z3.And(i >= 0, i <= nb))]
        return dict(inv=inv, open=True, trip='unknown')
    L.hints.append((r'XORBlocks\(', hint))
    res = ex.call_fn(name, [C.elem(st, IN, 0, U), N, C.elem(st, OUT, 0, U), a], st)
    ctx.cover('XORBlocks returns', len(res) > 0)
    for s, _ in res:
        ctx.prove(ex, 'every position of the result is the old value xor the fold of the input', s, z3.Select(out(s), SS) == z3.Select(OA, SS) ^ FOLD(IA, N, SS, batches(N)))
    ctx.absorb(ex)
    CLOSURES.pop(0)


LJ, CJ = I('lj'), I('cj')


def allocate(ctx):
    """AllocateLevels: NL levels of the ghost sizes, all zero, with a single root (or an error)"""
    import loops
    g = GGM(ctx, chain=False)
    ex, st, C, L = g.ex, g.st, g.C, g.L
    st.pc += [n >= 1, n < BIG, LJ >= 0, CJ >= 0]
    name = ctx.module.find(r'AllocateLevels\(')[0]
    fn = ctx.module.functions[name]
    ld = lambda s, nm, b=64: to_int(ex.load(s, local(ex, fn, nm), b), b)
    seen = []

    def hint(auto, fr, bb, s):
        if not seen:
            # the ghost number of levels is the one computed here
            seen.append(1)
            v = ld(s, 'num_levels', 32)
            ex.facts.append(NL == v)
            ctx.prove(ex, 'the number of levels is positive and small', s, z3.And(v >= 1, v <= 90))
        lv = local(ex, fn, 'levels')

        def blocks_below(i, b):
            return [('the level index is in range', z3.And(i >= -1, i < NL - 1)), ('the number of blocks is the size of the level below', b == SZ(i + 1))]

        def blocks_here(i, b):
            return [('the level index is in range', z3.And(i >= -1, i <= NL - 1)), ('the number of blocks is the size of this level', z3.Implies(i >= 0, b == SZ(i)))]

        def inv(num_blocks, auto, s, k, st0):
            i = ld(s, 'i', 32)
            sz, V = C.arrays(s, lv, VV)
            r = num_blocks(i, ld(s, 'num_blocks_for_level')) + [('there are num_levels levels', to_int(C.size(s, lv), 64) == NL)]
            for l in (LJ, z3.IntVal(0)):
                r += [('levels handled so far have their size, the others are empty', z3.Implies(l < NL, loops.select(sz, l) == z3.If(l > i, SZ(l), 0))),
                      ('levels handled so far are zero', z3.Implies(z3.And(l < NL, l > i, CJ < SZ(l)), at(V, l, CJ) == 0))]
            return r
        return dict(inv=[partial(inv, blocks_below), partial(inv, blocks_here)], open='all', trip='unknown')
    L.hints.append((r'AllocateLevels\(', hint))
    r = Ptr(ex.new_obj('result'))
    res = ex.call_fn(name, [r, a, n], st)
    ctx.cover('AllocateLevels returns', len(res) > 0)
    good = False
    for s, _ in res:
        code = to_int(ex.load(s, r, 32), 32)
        s = s.copy()
        ctx.prove(ex, 'the result is a tree or an internal error', s, z3.Or(code == 0, code == 13))
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good = True
        lv = r.field(8)
        sz, V = C.arrays(s, lv, VV)
        s.pc += [LJ < NL, CJ < SZ(LJ)]
        ctx.prove(ex, 'the number of levels', s, to_int(C.size(s, lv), 64) == NL)
        ctx.prove(ex, 'every level has its size', s, loops.select(sz, LJ) == SZ(LJ))
        ctx.prove(ex, 'there is one root', s, SZ(0) == 1)
        ctx.prove(ex, 'every block is zero', s, at(V, LJ, CJ) == 0)
    ctx.cover('AllocateLevels succeeds', good)
    ctx.absorb(ex)


def allocate_contract(g):
    """the contract proved by allocate(); the number of levels is a function of the arguments (same code, same inputs)"""
    def f(e, st, args, d):
        r = args[0]
        e.oblige('AllocateLevels is called with the arity and the number of leaves', st, z3.And(to_int(args[1], 32) == a, to_int(args[2], 64) == n), kind='pre')
        ok = z3.Bool('allocated')
        e.store(st, r, 32, z3.If(ok, z3.IntVal(0), z3.IntVal(13)))
        st.pc += [NL >= 1, NL < 100, z3.Implies(ok, SZ(0) == 1)]
        g.set_levels(st, r.field(8), z3.K(Int, z3.K(Int, z3.BitVecVal(0, 128))))
    g.ex.on(r'AllocateLevels\(', f)


def expand_contract(g, values=True):
    """the contract proved by expand(), for the arbitrary node (LS, CS)"""
    import loops

    def f(e, st, args, d):
        p, sl, sn = args[0], to_int(args[1], 32), to_int(args[2], 64)
        lv = p.field(g.off['levels_'])
        sz, V = g.C.arrays(st, lv, VV)
        ks = p.field(g.off['expanded_keys_'])
        j, k = I('any_level'), I('any_key')
        e.oblige('ExpandSubtree: the start node exists', st, z3.And(sl >= 0, sl < NL, sn >= 0, sn < SZ(sl)), kind='pre')
        if values:
            e.oblige('ExpandSubtree: the start node has its value', st, at(V, sl, sn) == T(sl, sn), kind='pre')
        e.oblige('ExpandSubtree: the tree has its dimensions', st, z3.And(
            to_int(e.load(st, p.field(g.off['arity_']), 32), 32) == a, to_int(e.load(st, p.field(g.off['num_levels_']), 32), 32) == NL,
            to_int(g.C.size(st, lv), 64) == NL, z3.Implies(z3.And(j >= 0, j < NL), loops.select(sz, j) == SZ(j)),
            to_int(g.C.size(st, ks), 64) == a), kind='pre')
        e.oblige('ExpandSubtree: the round keys are those of the tree', st, z3.Implies(z3.And(k >= 0, k < a), loops.select(g.C.arrays(st, ks, 'aes_key_st')[0], k) == z3.Select(EK, k)), kind='pre')
        W = e.fresh('V', V.sort())
        if values:
            st.pc.append(z3.Implies(z3.And(LS >= 0, LS < NL, CS >= 0, CS < SZ(LS)), at(W, LS, CS) == z3.If(z3.And(LS >= sl, A(sl) == sn), T(LS, CS), at(V, LS, CS))))
        g.C.set_arrays(st, lv, VV, [sz, W])
    g.ex.on(r'GGMTree::ExpandSubtree\(', f)


def keys_vec(g, st, name='keys'):
    p = Ptr(g.ex.new_obj(name))
    nk = I('num_keys')
    K = z3.Const('keys', z3.ArraySort(Int, BV))
    g.C.set_size(st, p, nk)
    g.C.set_arrays(st, p, U, [K])
    return p, nk, K


def create(ctx):
    """Create: the full expansion of the seed, and the rejected arguments"""
    import loops
    g = GGM(ctx, arity=False)
    ex, st, C, L = g.ex, g.st, g.C, g.L
    allocate_contract(g)
    expand_contract(g)
    keys, nk, K = keys_vec(g, st)
    seed = z3.Const('seed', BV)
    st.pc += [nk >= 0, nk < 2 ** 31, n >= -2 ** 63, n < BIG, a == nk, LS >= 0, LS < NL, CS >= 0, CS < SZ(LS), A(LS) == CS]
    k = I('k')
    ex.facts += [T(0, 0) == seed]
    ex.facts.append(z3.ForAll([k], z3.Select(EK, k) == KEYX(z3.Select(K, k)), patterns=[z3.Select(EK, k)]))
    name = [f for f in ctx.module.find(r'GGMTree::Create\(') if 'std::vector' in ctx.module.dem(f)][0]
    r = Ptr(ex.new_obj('result'))
    res = ex.call_fn(name, [r, n, halves(seed)[0], halves(seed)[1], keys], st)
    ctx.cover('Create returns', len(res) > 0)
    good = bad = bad2 = False
    for s, _ in res:
        code = to_int(ex.load(s, r, 32), 32)
        ctx.prove(ex, 'fewer than two keys and a non-positive number of leaves are rejected', s, z3.Implies(z3.Or(nk < 2, n <= 0), code == 3))
        ctx.prove(ex, 'other arguments give a tree or an internal error', s, z3.Implies(z3.And(nk >= 2, n >= 1), z3.Or(code == 0, code == 13)))
        s = s.copy()
        bad |= ex.check(ex.zpc(s) + [nk >= 2, n <= 0]) != z3.unsat
        bad2 |= ex.check(ex.zpc(s) + [nk < 2]) != z3.unsat
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good = True
        p = ex.load(s, r.field(8), 64)
        check_tree(ctx, g, s, p, K)
        V = g.V(s, p.field(g.off['levels_']))
        s.pc += [LS >= 0, LS < NL, CS >= 0, CS < SZ(LS)]
        ctx.prove(ex, 'every node has its PRG value', s, at(V, LS, CS) == T(LS, CS))
    ctx.cover('Create succeeds', good)
    ctx.cover('a non-positive number of leaves is possible', bad)
    ctx.cover('too few keys are possible', bad2)
    ctx.absorb(ex)


def check_tree(ctx, g, s, p, K):
    import loops
    ex, C = g.ex, g.C
    f = lambda nm: p.field(g.off[nm])
    sz, V = C.arrays(s, f('levels_'), VV)
    j, k = I('any_level'), I('any_key')
    ctx.prove(ex, 'arity, number of leaves and number of levels', s, z3.And(to_int(ex.load(s, f('arity_'), 32), 32) == a, to_int(ex.load(s, f('num_leaves_'), 64), 64) == n,
                                                                     to_int(ex.load(s, f('num_levels_'), 32), 32) == NL, to_int(C.size(s, f('levels_')), 64) == NL))
    ctx.prove(ex, 'every level is just large enough to parent the next, with one root and all leaves', s, z3.And(
        z3.Implies(z3.And(j >= 0, j < NL), loops.select(sz, j) == SZ(j)), SZ(0) == 1, SZ(NL - 1) == n,
        z3.Implies(z3.And(j >= 0, j < NL - 1), z3.And(TA(SZ(j)) >= SZ(j + 1), TA(SZ(j)) < SZ(j + 1) + a))))
    ctx.prove(ex, 'the keys and their round keys', s, z3.And(to_int(C.size(s, f('keys_')), 64) == a, to_int(C.size(s, f('expanded_keys_')), 64) == a, z3.Implies(
        z3.And(k >= 0, k < a), z3.And(loops.select(C.arrays(s, f('keys_'), U)[0], k) == z3.Select(K, k), loops.select(C.arrays(s, f('expanded_keys_'), 'aes_key_st')[0], k) == KEYX(z3.Select(K, k))))))


MP = z3.Function('missing_path', Int, Int)
NX, MI = I('num_xor_levels_plus_one'), I('missing_index')


def mp_lemmas(fs):
    out = []
    for t in dedup([x.arg(0) for x in terms(fs, MP)]):
        for m in (z3.simplify(t - 1), t):
            m1 = z3.simplify(m + 1)
            out.append(z3.Implies(z3.And(m >= 0, m < NX - 1), MP(m) == PAR(MP(m1))))
        out.append(z3.Implies(z3.And(t >= 0, t < NX, NX == NL, n >= 1, MI >= 0, MI < n), z3.And(MP(t) >= 0, MP(t) < SZ(t))))
    out.append(MP(z3.simplify(NX - 1)) == MI)
    return out


def fold_lemma(ctx):
    """two arrays that agree at a sibling position in every batch but one, where the first is zero, have folds that differ by the second's block there"""
    ctx_ex = GGM(ctx, chain=False)
    CLOSURES.insert(0, fold_lemmas)
    ex = ctx_ex.ex
    X, Y = z3.Const('X', z3.ArraySort(Int, BV)), z3.Const('Y', z3.ArraySort(Int, BV))
    N, s, P, b, q = I('N'), I('s'), I('P'), I('b'), I('q')
    zero = z3.BitVecVal(0, 128)
    val = lambda b: z3.If(z3.And(P >= 0, P < b, TA(P) + s < N), z3.Select(Y, TA(P) + s), zero)
    st = ctx_ex.st
    st.pc += [N >= 1, s >= 0, s < a, P >= 0, b >= 0]
    ctx.prove(ex, 'lemma: folds of no batches agree', st, FOLD(X, N, s, z3.IntVal(0)) ^ FOLD(Y, N, s, z3.IntVal(0)) == val(z3.IntVal(0)), kind='lemma')
    x = TA(b) + s
    st.pc += [FOLD(X, N, s, b) ^ FOLD(Y, N, s, b) == val(b), z3.Implies(x < N, z3.Select(X, x) == z3.If(b == P, zero, z3.Select(Y, x)))]
    ctx.prove(ex, 'lemma: folds of one batch more', st, FOLD(X, N, s, b + 1) ^ FOLD(Y, N, s, b + 1) == val(b + 1), kind='lemma')
    ctx.absorb(ex)
    CLOSURES.pop(0)


def recon(ctx, values=True):
    """CreateFromSiblingWiseXOR"""
    import loops
    g = GGM(ctx, arity=False)
    CLOSURES[:0] = [mp_lemmas]
    ex, st, C, L = g.ex, g.st, g.C, g.L
    allocate_contract(g)
    expand_contract(g, values)
    keys, nk, K = keys_vec(g, st)
    XO = Ptr(ex.new_obj('xors'))
    XS, XE = z3.Const('XS', z3.ArraySort(Int, Int)), z3.Const('XE', z3.ArraySort(Int, z3.ArraySort(Int, BV)))
    C.set_size(st, XO, NX - 1)
    C.set_arrays(st, XO, VV, [XS, XE])
    j = I('xs_j')
    st.pc += [z3.ForAll([j], z3.And(z3.Select(XS, j) >= 0, z3.Select(XS, j) < 2 ** 31), patterns=[z3.Select(XS, j)])]
    st.pc += [nk >= 0, nk < 2 ** 31, n >= -2 ** 63, n < BIG, a >= -2 ** 31, a < 2 ** 31, MI >= -2 ** 63, MI < 2 ** 63, NX >= 1, NX < 2 ** 30,
              LS >= 0, CS >= 0, z3.Implies(LS < NL, z3.And(CS < SZ(LS), A(LS) == CS))]
    k = I('k')
    ex.facts.append(z3.ForAll([k], z3.Select(EK, k) == KEYX(z3.Select(K, k)), patterns=[z3.Select(EK, k)]))
    name = ctx.module.find(r'GGMTree::CreateFromSiblingWiseXOR\(')[0]
    fn = ctx.module.functions[name]
    ld = lambda s, nm, b=64: to_int(ex.load(s, local(ex, fn, nm), b), b)
    X = z3.Function('fold_of_tree', Int, Int, BV)           # level, sibling position: the XORs of the original tree
    zero = z3.BitVecVal(0, 128)

    def xor_fact(l, s):
        """precondition: off the path, the XORs are those of the tree with the values T"""
        q = MP(l + 1)
        return z3.Implies(z3.And(l >= 0, l < NL - 1, s >= 0, s < a, TA(MP(l)) + s != q), z3.Select(z3.Select(XE, l), s) == X(l + 1, s))

    def xor_contract(e, s, args, d):
        inp, N, out, no = args[0], to_int(args[1], 64), args[2], to_int(args[3], 64)
        ic, i0, cnt = C.rng(s, inp, inp)
        oc, o0, _ = C.rng(s, out, out)
        e.oblige('XORBlocks: the result has one block per child', s, z3.And(no == a, to_int(o0, 64) == 0, to_int(C.size(s, oc), 64) == a), kind='pre')
        e.oblige('XORBlocks: whole level', s, z3.And(to_int(i0, 64) == 0, N == to_int(C.size(s, ic), 64), N >= 1), kind='pre')
        q = I('xb_s')
        O = C.arrays(s, oc, U)[0]
        m = loop_pos(ex, fn, lvl[0])(s)
        P = MP(m - 1)
        e.oblige('the level is that of the tree', s, z3.And(N == SZ(m), P < batches(N)), kind='pre')
        if not values:
            s.pc.append(P < batches(N))
            C.set_arrays(s, oc, U, [e.fresh('xors', O.sort())])
            return
        V = C.arrays(s, ic, U)[0]
        b, t = I('any_batch'), I('any_position')
        x = TA(b) + t
        s.pc.append(z3.Implies(z3.And(a >= 2, b >= 0, t >= 0, t < a), PAR(x) == b))
        e.oblige('the level has the values of the tree outside of the missing children, which are zero', s,
                 z3.Implies(z3.And(b >= 0, t >= 0, t < a, x < N), loops.select(V, x) == z3.If(b == P, zero, T(m, x))), kind='pre')
        C.set_arrays(s, oc, U, [z3.Lambda([q], loops.select(O, q) ^ X(m, q) ^ z3.If(TA(P) + q < N, T(m, TA(P) + q), zero))])
    ex.on(r'XORBlocks\(', xor_contract)
    lvl = [None]
    used = set()

    def hint(auto, fr, bb, s):
        body = fr.fn.loops[bb]
        nested = any(h in body and h != bb for h in fr.fn.loops)
        d = depth(fr.fn, bb)
        var = header_vars(fr.fn, bb)[0]
        if d == 0 and not nested:
            if not mentions(fr.fn, body, 'missing_path'):
                return None

            def inv0(auto, s, k, st0):
                i = ld(s, var, 32)
                M = C.arrays(s, local(ex, fn, 'missing_path'), 'long')[0]
                q = z3.FreshInt('q')
                c = z3.And(q > i, q < NX)
                f = z3.ForAll([q], z3.Implies(c, z3.Select(M, q) == MP(q)), patterns=[z3.Select(M, q)]) if z3.is_const(M) else z3.Implies(c, loops.select(M, q) == MP(q))
                return [('the index is in range', z3.And(i >= -1, i <= NX - 2)), ('the path below is known', f),
                        ('the last node of the path', z3.And(loops.select(M, i + 1) == MP(i + 1), MP(i + 1) >= 0))]

            def carried(nm, auto, s, k, st0):
                i = ld(s, var, 32)
                M = C.arrays(s, local(ex, fn, 'missing_path'), 'long')[0]
                q = z3.FreshInt('q')
                c = z3.And(q > i, q < NX)
                f = z3.ForAll([q], z3.Implies(c, z3.Select(M, q) == MP(q)), patterns=[z3.Select(M, q)]) if z3.is_const(M) else z3.Implies(c, loops.select(M, q) == MP(q))
                return [('the index is in range', z3.And(i >= -1, i <= NX - 1)), ('the path below is known', f), ('the node on the path', z3.Implies(i >= 0, z3.And(ld(s, nm) == MP(i), MP(i) >= 0)))]
            # the node on the path is read from the one below, or kept in a variable
            others = sorted({i.a[1][1] for b in body for i in fr.fn.blocks[b] if i.op == 'store' and i.a[1][0] == 'r' and 'i64' in str(i.ty)} & {v.get('alloca') for v in ex.objs.values() if v.get('fn') == fr.fn.name})
            return dict(inv=[inv0] + [partial(carried, nm) for nm in others], open='all', trip='unknown')
        if d == 0:
            lvl[0] = bb
            tree = ex.load(s, local(ex, fn, 'tree'), 64)
            lv = tree.field(g.off['levels_'])

            def inv1(auto, s, k, st0):
                m = loop_pos(ex, fn, bb)(s)
                sz, V = C.arrays(s, lv, VV)
                q = z3.If(LS < m - 1, LS, m - 1)
                jj = z3.FreshInt('jj')
                r = [('the level index is in range', z3.And(m >= 1, m <= NL))]
                if not values:
                    return r
                first = s is not st0 and z3.is_const(k) and z3.is_const(V) and V.decl().kind() == z3.Z3_OP_UNINTERPRETED and V.decl().name() not in used
                P = lambda q: z3.If(A(q) != MP(q), at(V, LS, CS) == T(LS, CS), at(V, LS, CS) == 0)
                r += [('nodes above this level are right off the path and zero on it', z3.Implies(z3.And(LS < NL, LS <= m - 1), P(LS))),
                      ('nodes below the last level handled are right off the path and zero below it', z3.Implies(z3.And(LS < NL, LS > m - 1), P(m - 1)))]
                if first:
                    # the same for every node of level m (the node (LS, CS) is arbitrary)
                    used.add(V.decl().name())
                    c = z3.FreshInt('c')
                    row = z3.Select(V, m)
                    r.append(('every node of this level', z3.Implies(m < NL, z3.ForAll([c], z3.Implies(z3.And(c >= 0, c < SZ(m)), z3.Select(row, c) == z3.If(PAR(c) == MP(m - 1), zero, T(m, c))), patterns=[z3.Select(row, c)]))))
                return r
            return dict(inv=inv1, open=True, trip='unknown')
        tree = ex.load(s, local(ex, fn, 'tree'), 64)
        lv = tree.field(g.off['levels_'])

        def inv2(node, auto, s, k, st0):
            m, x = loop_pos(ex, fn, lvl[0])(s), loop_pos(ex, fn, bb)(s)
            V, Ve = C.arrays(s, lv, VV)[1], C.arrays(st0, lv, VV)[1]
            P = MP(m - 1)
            sg = x - TA(P) if node else x
            r = [('the sibling index is in range', z3.And(sg >= 0, sg <= a, TA(P) + sg <= SZ(m)))]
            if node:
                r.append(('the path is known', loops.select(C.arrays(s, local(ex, fn, 'missing_path'), 'long')[0], m - 1) == P))
            if values:
                G = z3.And(LS >= m, LS < NL, A(m - 1) == P)
                r += [('nodes below the siblings handled are right, the others zero', z3.Implies(G, at(V, LS, CS) == z3.If(z3.And(A(m) != MP(m), A(m) - TA(P) < sg), T(LS, CS), zero))),
                      ('all other nodes are unchanged', z3.Implies(z3.And(LS < NL, z3.Not(G)), at(V, LS, CS) == at(Ve, LS, CS)))]
                if s is not st0 and (z3.is_const(x) or z3.is_expr(k) and z3.is_const(k)):
                    s.pc.append(xor_fact(m - 1, sg))
            return r
        # the sibling is counted, or the node
        return dict(inv=[partial(inv2, x) for x in (False, True)], open=True, trip='unknown')
    L.hints.append((r'GGMTree::CreateFromSiblingWiseXOR', hint))
    r = Ptr(ex.new_obj('result'))
    span = Ptr(ex.new_obj('keys_span'))         # passed on the stack
    ex.store(st, span, 64, C.elem(st, keys, 0, U))
    ex.store(st, span.field(8), 64, nk)
    res = ex.call_fn(name, [r, a, n, MI, C.elem(st, XO, 0, VV), NX - 1, span], st)
    ctx.cover('CreateFromSiblingWiseXOR returns', len(res) > 0)
    good, bad = False, {}
    for s, _ in res:
        code = to_int(ex.load(s, r, 32), 32)
        jj = I('any_xor')
        rej = [('an arity below two', a < 2), ('a non-positive number of leaves', n <= 0), ('a missing index out of range', z3.Or(MI < 0, MI >= n)), ('a wrong number of keys', nk != a),
               ('a wrong number of XORs on some level', z3.And(jj >= 0, jj < NX - 1, z3.Select(XS, jj) != a))]
        for nm, c in rej:
            ctx.prove(ex, nm + ' is rejected', s, z3.Implies(c, code == 3))
            bad[nm] = bad.get(nm, False) or ex.check(ex.zpc(s) + [c], close=False) != z3.unsat
        ctx.prove(ex, 'a wrong number of levels is rejected', s, z3.Implies(z3.And(code != 13, NX != NL), code == 3))
        ctx.prove(ex, 'the result is a tree, an argument error or an internal error', s, z3.Or(code == 0, code == 3, code == 13))
        s = s.copy()
        s.pc.append(code == 0)
        if ex.check(ex.zpc(s), 10000) == z3.unsat:
            continue
        good = True
        p = ex.load(s, r.field(8), 64)
        check_tree(ctx, g, s, p, K)
        if values:
            V = g.V(s, p.field(g.off['levels_']))
            s.pc += [LS == NL - 1, CS >= 0, CS < SZ(LS), A(LS) == CS]
            ctx.prove(ex, 'every leaf but the missing one is that of the tree', s, z3.Implies(CS != MI, at(V, LS, CS) == T(LS, CS)))
    ctx.cover('CreateFromSiblingWiseXOR succeeds', good)
    for nm, b in bad.items():
        ctx.cover(nm + ' is possible', b)
    ctx.absorb(ex)
    CLOSURES.pop(0)


LJ2 = I('lj2')


def gswx(ctx):
    """GetSiblingWiseXOR: one list per level below the root, of arity folds each, and nothing of the tree is changed"""
    import loops
    g = GGM(ctx, chain=False)
    ex, st, C, L = g.ex, g.st, g.C, g.L
    p = g.tree()
    st.pc += [LJ2 >= 0, LJ2 < NL - 1, SS >= 0, SS < a]
    name = ctx.module.find(r'GGMTree::GetSiblingWiseXOR\(')[0]
    fn = ctx.module.functions[name]
    zero = z3.BitVecVal(0, 128)

    def xor_contract(e, s, args, d):
        inp, N, out, no = args[0], to_int(args[1], 64), args[2], to_int(args[3], 64)
        ic, i0, cnt = C.rng(s, inp, inp)
        oc, o0, _ = C.rng(s, out, out)
        e.oblige('XORBlocks: the result has one block per child', s, z3.And(no == a, to_int(o0, 64) == 0, to_int(C.size(s, oc), 64) == a), kind='pre')
        e.oblige('XORBlocks: whole level', s, z3.And(to_int(i0, 64) == 0, N == to_int(C.size(s, ic), 64), N >= 1), kind='pre')
        O, V = C.arrays(s, oc, U)[0], C.arrays(s, ic, U)[0]
        q = I('xb_s')
        C.set_arrays(s, oc, U, [z3.Lambda([q], loops.select(O, q) ^ FOLD(V, N, q, batches(N)))])
    ex.on(r'XORBlocks\(', xor_contract)
    r = Ptr(ex.new_obj('result'))

    def want(l, s):
        return FOLD(z3.Select(g.V0, l + 1), SZ(l + 1), s, batches(SZ(l + 1)))

    def hint(auto, fr, bb, s):
        pos = loop_pos(ex, fr.fn, bb)
        if fr.fn.name != name or pos is None:
            return None

        def inv(first, auto, s, k, st0):
            i = pos(s) - first
            sz, V = C.arrays(s, r, VV)
            return [('the level index is in range', z3.And(i >= 0, i <= NL - 1)),
                    ('levels handled so far have their folds, the others are zero', z3.Select(z3.Select(V, LJ2), SS) == z3.If(LJ2 < i, want(LJ2, SS), zero)),
                    ('every level has arity elements', loops.select(sz, LJ2) == a)]
        # the position in the result is counted, or the level
        return dict(inv=[partial(inv, f) for f in (0, 1)], open=True, trip='unknown')
    L.hints.append((r'GetSiblingWiseXOR', hint))
    res = ex.call_fn(name, [r, p], st)
    ctx.cover('GetSiblingWiseXOR returns', len(res) > 0)
    for s, _ in res:
        sz, V = C.arrays(s, r, VV)
        ctx.prove(ex, 'one list per level below the root', s, to_int(C.size(s, r), 64) == NL - 1)
        ctx.prove(ex, 'one element per sibling position', s, loops.select(sz, LJ2) == a)
        ctx.prove(ex, 'every element is the XOR of the blocks at its sibling position', s, loops.select(loops.select(V, LJ2), SS) == want(LJ2, SS))
        j, c = I('any_level'), I('any_node')
        ctx.prove(ex, 'the tree is unchanged', s, loops.select(loops.select(g.V(s), j), c) == z3.Select(z3.Select(g.V0, j), c))
    ctx.absorb(ex)


def accessors(ctx):
    """GetValueAtNode, GetValueAtLeaf and level_size: the stored value, or an argument error"""
    import loops
    for nm in (r'GGMTree::GetValueAtNode\(', r'^verif_leaf\('):
        g = GGM(ctx, chain=False)
        ex, st, C = g.ex, g.st, g.C
        p = g.tree()
        leaf = 'leaf' in nm
        l, c = I('level_index'), I('node_index')
        st.pc += [l >= -2 ** 31, l < 2 ** 31, c >= -2 ** 63, c < 2 ** 63]
        if leaf:
            st.pc.append(l == NL - 1)
        r = Ptr(ex.new_obj('result'))
        res = ex.call_fn(ctx.module.find(nm)[0], [r, p] + ([] if leaf else [l]) + [c], st)
        what = 'GetValueAtLeaf' if leaf else 'GetValueAtNode'
        ctx.cover(what + ' returns', len(res) > 0)
        okay = z3.And(l >= 0, l < NL, c >= 0, c < SZ(l))
        for s, _ in res:
            code = to_int(ex.load(s, r, 32), 32)
            ctx.prove(ex, what + ': an index out of range is an argument error, any other is accepted', s, code == z3.If(okay, 0, 3))
            s2 = s.copy()
            s2.pc.append(code == 0)
            if ex.check(ex.zpc(s2), 10000) != z3.unsat:
                ctx.prove(ex, what + ': the value of the node', s2, ex.load(s2, r.field(16), 128) == z3.Select(z3.Select(g.V0, l), c))
        ctx.absorb(ex)


def wrapper(ctx):
    """Create with an arity: passes on as many keys as the arity, none for a negative one"""
    g = GGM(ctx, arity=False, chain=False)
    ex, st, C = g.ex, g.st, g.C
    seed = z3.Const('seed', BV)
    ar = I('requested_arity')
    st.pc += [ar >= -2 ** 31, ar < 2 ** 31, n >= -2 ** 63, n < BIG]
    calls = []
    names = ctx.module.find(r'GGMTree::Create\(')
    body = [f for f in names if 'std::vector' in ctx.module.dem(f)][0]

    def inner(e, s, args, d):
        calls.append(1)
        ks = args[-1]
        e.oblige('as many keys as the arity, none for a negative one', s, to_int(C.size(s, ks), 64) == z3.If(ar < 0, 0, ar), kind='post')
        e.oblige('the number of leaves and the seed are passed on', s, z3.And(to_int(args[1], 64) == n, z3.Concat(bv(args[3]), bv(args[2])) == seed), kind='post')
        e.store(s, args[0], 32, e.fresh('code', Int))
    bv = lambda x: x if not isinstance(x, int) else z3.BitVecVal(x, 64)
    ex.on(r'GGMTree::Create\(long, absl::.*uint128, std::vector', inner)
    r = Ptr(ex.new_obj('result'))
    res = ex.call_fn(ctx.module.find(r'^verif_create\(')[0], [r, ar, n, halves(seed)[0], halves(seed)[1]], st)
    ctx.cover('Create returns', len(res) > 0 and bool(calls))
    ctx.absorb(ex)


GGM_ASSUMPTIONS = ['fewer than 2^50 leaves; XOR lists and key lists of fewer than 2^31 elements', 'allocation never fails',
                   'log x is at least 0 for x >= 1, at least 1/2 for x >= 2 and at most 44 for x < 2^63 (rounding aside); pow is arbitrary',
                   'trees whose level count log() undershoots are an internal error (beyond about 2^46 leaves)']


def ggm_native(ctx, prop, budget=15):
    ctx.native('ggm.cpp', ['ggm_tree.cpp'], ['-DPROP=%d' % prop, '-fopenmp', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined', '-fno-sanitize-recover'], budget, name='ggm', libs=CRYPTO + ABSL,
               env={'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:hard_rss_limit_mb=8000', 'UBSAN_OPTIONS': 'abort_on_error=1:print_stacktrace=1'})
