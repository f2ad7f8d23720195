"""C25: randomizing scalars fills exactly the requested elements."""
from sccommon import *
import containers
from containers import Containers
from loops import LoopAuto
import loops
import ring

FUNCTIONS = ['ScalarHelper<T>::Randomize', 'ScalarHelperImpl<NTL::ZZ_p>::Randomize', 'ScalarHelperImpl<NTL::zz_p>::Randomize', 'gf128::randomize', 'gf128::random_element']
ASSUMPTIONS = ['array lengths are below 2^40']
TRUSTED = containers.TRUSTED + ring.TRUSTED + ['RAND_bytes(buf, n) fills buf[0..n) with fresh uniformly random bytes and nothing else',
                                              'NTL::random_vec_ZZ_p / random_vec_zz_p return a vector of the given length of fresh uniformly random elements',
                                              'NTL::random(x) sets x to a fresh uniformly random element']
TY = [('U8', 'unsigned char', 1), ('U16', 'unsigned short', 2), ('U32', 'unsigned int', 4), ('U64', 'unsigned long', 8), ('au128', 'absl::debian3::uint128', 16),
      ('gf128', 'distributed_vector_ole::gf128', 16), ('ZZp', 'NTL::ZZ_p', 8), ('zzp', 'NTL::zz_p', 8)]
H = PRE + '#include <NTL/vec_lzz_p.h>\n#include <NTL/vec_ZZ_p.h>\nextern "C" {\n' + ''.join('void h_%(T)s(%(T)s* p, long n) { ScalarHelper<%(T)s>::Randomize(absl::Span<%(T)s>(p, n)); }\n' % dict(T=t) for t, _, _ in TY) + '}\n'


class Tape:
    """fresh random values: every call draws new ones"""

    def __init__(self, ex, C):
        self.ex, self.C, self.names = ex, C, []
        ex.on(r'^RAND_bytes$', self.rand_bytes)
        ex.on(r'^NTL::random_vec_(ZZ_p|zz_p)\(long\)', self.vec)
        ex.on(r'^NTL::random\(NTL::(ZZ_p|zz_p)&\)', self.one)
        ex.on(r'^NTL::random_(ZZ_p|zz_p)\(\)', self.ret)

    def fresh(self, s):
        v = self.ex.fresh('rand', s)
        self.names.append(v.decl().name())
        return v

    def rand_bytes(self, e, st, a, d):
        p, n = a[0], to_int(a[1], 32)
        # the count is an int: obligation that the requested length fits
        if not isinstance(p, Ptr) or not p.steps:
            if isinstance(a[1], int):
                e.store(st, p, 8 * a[1], self.fresh(z3.BitVecSort(8 * a[1])))
                return 1
            raise Unsupported('RAND_bytes target')
        if p.off != 0:
            raise Unsupported('RAND_bytes inside an element')
        tag, i, es, b = p.steps[-1]
        n = z3.simplify(n)
        c = Ptr(p.obj, p.steps[:-1], tag)
        i = to_int(i, 64)
        t = [k for k, v in self.C.layouts.items() if k == self.ty] and self.ty
        cells = self.C.cells(t)[1]
        if len(cells) != 1 or cells[0][2] != es:
            raise Unsupported('RAND_bytes on a composite element')
        size = to_int(self.C.size(st, c), 64)
        e.oblige('RAND_bytes stays inside the array', st, z3.And(n >= 0, i >= 0, es * i + n <= es * size), kind='safety')
        tape = self.fresh(z3.ArraySort(z3.IntSort(), cells[0][3]))
        part = e.fresh('partly', z3.ArraySort(z3.IntSort(), cells[0][3]))
        A = self.C.arrays(st, c, t)[0]
        j = z3.Int('rnd_j')
        k = es * (j - i)
        self.C.set_arrays(st, c, t, [z3.Lambda([j], z3.If(z3.And(k >= 0, k + es <= n), z3.Select(tape, j), z3.If(z3.And(k >= 0, k < n), z3.Select(part, j), z3.Select(A, j))))])
        return 1

    def vec(self, e, st, a, d):
        t = 'NTL::' + re.search('(ZZ_p|zz_p)', d).group(1)
        s = self.C.cells(t)[1][0][3]
        self.C.set_size(st, a[0], a[1])
        self.C.set_arrays(st, a[0], t, [self.fresh(z3.ArraySort(z3.IntSort(), s))])
        return None

    def one(self, e, st, a, d):
        t = 'NTL::' + re.search('(ZZ_p|zz_p)', d).group(1)
        self.C.write(st, a[0], t, [self.fresh(self.C.cells(t)[1][0][3])])

    def ret(self, e, st, a, d):
        if 'ZZ_p' not in d:
            return self.fresh(z3.IntSort())
        self.C.write(st, a[0], 'NTL::ZZ_p', [self.fresh(ring.R)])

    def random_terms(self, t):
        """subterms of t that are values of a random tape: (term, index or None)"""
        out, seen, todo = [], set(), [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_select(x) and z3.is_const(x.arg(0)) and x.arg(0).decl().name() in self.names:
                out.append((x, x.arg(1)))
            elif z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name()[2:] in self.names:
                out.append((x, x.arg(0)))
            elif z3.is_const(x) and not z3.is_array(x) and x.decl().name() in self.names:
                out.append((x, None))
            todo += x.children()
        return out


def harness(ctx, T, t, es):
    m = ctx.ir(None, ['-DUSE_ASM', '-DNDEBUG'], name='c25_' + T, text=H)
    ex = ctx.exec(m, 'int')
    C = Containers(ex)
    L = LoopAuto(ex)
    L.debug = bool(os.environ.get('IRV_LOOPS'))
    ex.check_arith = True
    C.layouts[t] = (es, [((), 0, es, z3.BitVecSort(8 * es), z3.BitVecVal(0, 8 * es))])
    if 'NTL' in t:
        ring.Ring(ex, C, (t,))
    tp = Tape(ex, C)
    tp.ty = t
    st = State()
    S = Ptr(ex.new_obj('array'))
    N, o, n, j, j2 = z3.Ints('N off n j j2')
    C.set_size(st, S, N)
    st.pc += [N >= 0, N < 2 ** 26, o >= 0, n >= 0, o + n <= N]   # RAND_bytes takes an int byte count
    A0 = C.arrays(st, S, t)[0]
    p = Ptr(S.obj, ((0, o, es, N),), 0)
    res = ex.call_fn(m.find('^h_%s\\b' % T)[0], [p, n], st)
    ctx.cover(T + ' returns', len(res) > 0)
    for s, _ in res:
        A = C.arrays(s, S, t)[0]
        ctx.prove(ex, T + ': nothing outside the span changes', s, z3.Implies(z3.Or(j < o, j >= o + n), loops.rw(z3.Select(A, j)) == z3.Select(A0, j)))
        ctx.prove(ex, T + ': the array keeps its size', s, to_int(C.size(s, S), 64) == N)
        inside = z3.And(j >= o, j < o + n)
        v = loops.rw(z3.Select(A, j))
        s2 = s.copy() if hasattr(s, 'copy') else s
        s2.pc.append(inside)
        hit = None
        for x, ix in tp.random_terms(v):
            if ex.check(ex.zpc(s2) + [v != x], 5000) == z3.unsat:
                hit = (x, ix)
        if hit is None:
            # which element keeps an old value?
            ctx.prove(ex, T + ': every element of the span is a fresh random value', s2, z3.BoolVal(False))
        else:
            x, ix = hit
            ctx.prove(ex, T + ': every element of the span is a fresh random value', s2, v == x)
            if ix is None:
                ctx.prove(ex, T + ': different elements get different draws', s2, n == 1)
            else:
                ix2 = z3.substitute(ix, (j, j2))
                ctx.prove(ex, T + ': different elements get different draws', s2, z3.Implies(z3.And(j2 >= o, j2 < o + n, ix == ix2), j == j2))
            ctx.feasible(ex, T + ': long spans', s2)
    ctx.absorb(ex)


def single(ctx):
    m = ctx.ir('gf128.cpp', ['-DUSE_ASM', '-DNDEBUG'])
    for nm in ('randomize', 'random_element'):
        ex = ctx.exec(m, 'bv')
        draws = []

        def rb(e, st, a, d):
            if not isinstance(a[1], int):
                raise Unsupported('symbolic count')
            v = e.fresh('rand', z3.BitVecSort(8 * a[1]))
            draws.append(v)
            e.store(st, a[0], 8 * a[1], v)
            return 1
        ex.on(r'^RAND_bytes$', rb)
        st = State()
        f = m.find(r'gf128::%s\(\)' % nm)[0]
        if nm == 'randomize':
            g = Ptr(ex.new_obj('x', 16))
            guard = Ptr(ex.new_obj('y', 16))
            ex.store(st, g, 128, z3.BitVec('old', 128))
            res = ex.call_fn(f, [g], st)
            vals = [(s, bv(ex.load(s, g, 128), 128)) for s, _ in res]
        else:
            fn = m.functions[f].parse()
            if len(fn.params) == 1:
                g = Ptr(ex.new_obj('r', 16))
                res = ex.call_fn(f, [g], st)
                vals = [(s, bv(ex.load(s, g, 128), 128)) for s, _ in res]
            else:
                res = ex.call_fn(f, [], st)
                vals = [(s, r if not isinstance(r, list) else bv(concat([(x, 128 // len(r)) for x in r]), 128)) for s, r in res]
        ctx.cover(nm + ' returns', len(vals) > 0)
        for s, v in vals:
            # a bijective function of one 16-byte draw
            ok = len(draws) > 0 and draws[-1].size() == 128
            ctx.prove(ex, 'gf128::%s: the value is 128 fresh random bits' % nm, s, bv(v, 128) == draws[-1] if ok else z3.BoolVal(False))
        ctx.absorb(ex)


def proof(ctx):
    ctx.parallel([(T, harness, T, t, es) for T, t, es in TY] + [('gf128 members', single)])


def native(ctx):
    sc_native(ctx, 25)
