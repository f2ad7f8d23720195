from aescommon import *
from functools import partial
from ggmcommon import local, header_vars, position, var_width, loop_pos
from loops import select

PROTO_SRC = ['all_but_one_random_ot.cpp', 'spfss_known_index.cpp', 'scalar_vector_gilboa_product.cpp', 'mpfss_known_indices.cpp', 'distributed_vector_ole.cpp', 'ggm_tree.cpp', 'cuckoo_hasher.cpp',
             'aes_uniform_bit_generator.cpp', 'gf128.cpp', 'internal/ntl_helpers.cpp']
USED = {17: [0, 5, 8, 9], 18: [0, 1, 5, 8, 9], 19: [2, 8, 9], 20: [0, 1, 2, 3, 5, 6, 8, 9], 21: range(10), 22: range(10)}
I, RC = z3.Int, z3.Real
RS = z3.RealSort()
SPAN = 'absl::debian3::Span'
VR = 'std::vector<ring::R, std::allocator<ring::R> >'
RING = ['the scalar type is a commutative ring: the templates are instantiated with an abstract ring type whose operators have the ring operations as contracts (as polynomials over the reals: an identity of polynomials with integer '
        'coefficients that holds there holds in every commutative ring)']
OMPASSUME = ['OpenMP runtime: a worksharing loop hands each iteration to exactly one thread, in chunks of consecutive iterations; a region ends when all threads have']


def proto_native(ctx, prop, budget=20, findings=()):
    ctx.native('proto.cpp', [PROTO_SRC[i] for i in USED[prop]], ['-DPROP=%d' % prop, '-DUSE_ASM', '-fopenmp', '-DNDEBUG', '-I/usr/include/eigen3'], budget, name='proto',
               libs=['-lntl', '-lgmp', '-lpthread'] + CRYPTO + ABSL + ['-labsl_raw_hash_set', '-labsl_hash', '-labsl_city', '-labsl_low_level_hash'], findings=findings)


def setup_p(ctx, m):
    """executor with the contracts of the abstract ring and of spans of spans"""
    ex, C, L = setup(ctx, m)
    C.layouts['long'] = (8, [((), 0, 8, z3.IntSort(), z3.IntVal(0))])
    C.layouts.pop('unsigned long', None)
    C.layouts['ring::R'] = (24, [((), 0, 24, RS, z3.RealVal(0))])
    C.layouts[SPAN + '<ring::R>'] = (16, [((), ('sz', 0), 8, z3.IntSort(), z3.IntVal(0)), ((0,), 0, 24, RS, z3.RealVal(0))])
    ld = lambda e, st, p: val(e.load(st, p, 192))
    op = modulus

    def val(v):
        if isinstance(v, int) and v == 0:
            return z3.RealVal(0)
        if not z3.is_expr(v) or v.sort() != RS:
            raise Unsupported('value of the abstract ring')
        return v

    def binop(f):
        def g(e, st, a, d):
            op(e, st)
            e.store(st, a[0], 192, f(ld(e, st, a[1]), ld(e, st, a[2])))
        return g

    def assign(f):
        def g(e, st, a, d):
            op(e, st)
            e.store(st, a[0], 192, f(ld(e, st, a[0]), ld(e, st, a[1])))
            return a[0]
        return g

    def unary(f):
        def g(e, st, a, d):
            op(e, st)
            e.store(st, a[0], 192, f(e, st, a))
        return g
    for o, f in (('\\+', lambda x, y: x + y), ('-', lambda x, y: x - y), ('\\*', lambda x, y: x * y)):
        ex.on(r'^ring::operator%s\(ring::R const&, ring::R const&\)' % o, binop(f))
        ex.on(r'^ring::R::operator%s=\(' % o, assign(f))
    ex.on(r'^ring::operator-\(ring::R const&\)', unary(lambda e, st, a: -ld(e, st, a[1])))
    ex.on(r'^ring::R::R\(int\)', unary(lambda e, st, a: z3.ToReal(to_int(a[1], 32))))
    ex.on(r'^ring::operator==\(', lambda e, st, a, d: ld(e, st, a[0]) == ld(e, st, a[1]))
    ex.on(r'^ring::operator!=\(', lambda e, st, a, d: ld(e, st, a[0]) != ld(e, st, a[1]))
    ex.spans = set()

    def span(e, st, a, d):
        """a span that is itself an element of an array of spans"""
        p = a[0]
        if not isinstance(p, Ptr) or p.obj not in e.spans or not p.steps:
            return NotImplemented
        mm = member(d)
        t, meth = mm[1][0], mm[2]
        if meth in ('size', 'length'):
            return C.size(st, p)
        if meth == 'empty':
            return e.icmp(st, 64, 'eq', C.size(st, p), 0)
        if meth == 'operator[]':
            return C.elem(st, p, a[1], t)
        if meth in ('data', 'begin', 'cbegin'):
            return C.elem(st, p, 0, t)
        if meth in ('end', 'cend'):
            return C.elem(st, p, C.size(st, p), t)
        return NotImplemented
    ex.on('^' + SPAN + r'<.*>::(size|length|empty|operator\[\]|data|c?begin|c?end)\(', span)

    def copy_span(e, st, d, s, n):
        if n != 16 or not s.steps or s.obj not in e.spans or s.off != 0:
            return False
        e.store(st, d, 64, C.elem(st, s, 0, 'ring::R'))
        e.store(st, d.field(8), 64, C.size(st, s))
        return True
    ex.memcpy_hook = copy_span
    # the modulus of modular integers is per thread: the threads of a region start without it
    ex.on(r'NTLContext<ring::R(, int)?>::save\(', lambda e, st, a, d: st.ghost.__setitem__('saved modulus', st.ghost.get('modulus', 1)))

    def restore(e, st, a, d):
        if st.ghost.get('saved modulus', 0) != 1:
            e.oblige('a modulus is saved before it is restored', st, z3.BoolVal(False), kind='pre')
        st.ghost['modulus'] = 1
    ex.on(r'NTLContext<ring::R(, int)?>::restore\(', restore)
    return ex, C, L


def modulus(e, st):
    """scalar operations need the modulus of the thread"""
    if st.ghost.get('modulus', 1) != 1:
        e.oblige('a scalar operation in a parallel region comes after the modulus of the caller is restored on the thread', st, z3.BoolVal(False), kind='pre')


from containers import member, qualified, split_args, INTS


def span_array(ex, C, st, name, n, sizes, vals):
    """an array of n spans of ring elements"""
    S = Ptr(ex.new_obj(name))
    ex.spans.add(S.obj)
    C.set_size(st, S, n)
    C.set_arrays(st, S, SPAN + '<ring::R>', [sizes, vals])
    return S, C.elem(st, S, 0, SPAN + '<ring::R>')


class Par:
    """contracts of the OpenMP runtime: an arbitrary thread runs an arbitrary chunk LB..UB-1 of the N iterations of the
    loop of a region.  The check says what the other threads may have done before (enter), what the chunk must do (post)
    and what the caller then knows (leave)."""

    def __init__(self, ctx, ex, C, n, enter, post, leave, tag=''):
        self.ctx, self.ex, self.C = ctx, ex, C
        self.enter, self.post, self.leave, self.n = enter, post, leave, n
        self.LB, self.UB = I('chunk_begin' + tag), I('chunk_end' + tag)
        self.regions = 0
        ex.on(r'^__kmpc_fork_call$', self.fork)
        ex.on(r'^__kmpc_for_static_init_[48]u?$', self.static_init)
        ex.on(r'^__kmpc_(for_static_fini|barrier|dispatch_fini_\d+u?|push_num_threads)$', lambda e, s, a, d: None)
        ex.on(r'^__kmpc_dispatch_init_[48]u?$', self.dispatch_init)
        ex.on(r'^__kmpc_dispatch_next_[48]u?$', self.dispatch_next)
        ex.on(r'^__kmpc_global_thread_num$', lambda e, s, a, d: e.fresh('gtid', z3.IntSort()))

    def bits(self, d):
        return 64 if '_8' in d else 32

    def static_init(self, e, s, a, d):
        b = self.bits(d)
        sched, plo, pup = a[2], a[4], a[5]
        if sched != 34:
            raise Unsupported('schedule %s of a static loop' % sched)
        e.oblige('the loop runs over all rows', s, z3.And(to_int(e.load(s, plo, b), b) == 0, to_int(e.load(s, pup, b), b) == self.n - 1, to_int(a[7], b) == 1), kind='pre')
        e.store(s, plo, b, self.LB)
        e.store(s, pup, b, z3.simplify(self.UB - 1))
        s.ghost['shared out'] = s.ghost.get('shared out', 0) + 1

    def dispatch_init(self, e, s, a, d):
        b = self.bits(d)
        e.oblige('the loop runs over all rows', s, z3.And(to_int(a[3], b) == 0, to_int(a[4], b) == self.n - 1, to_int(a[5], b) == 1), kind='pre')
        s.ghost['dispatched'] = 0
        s.ghost['shared out'] = s.ghost.get('shared out', 0) + 1

    def private(self, e, s):
        return {(k, o): c for k, reg in s.mem.items() if k[0] is not None and k[0] >= s.ghost['mark'] and e.objs[k[0]].get('alloca') and not e.objs[k[0]]['alloca'].startswith('.omp') for o, c in reg.items()}

    def dispatch_next(self, e, s, a, d):
        b = self.bits(d)
        k = s.ghost.get('dispatched', 0)
        s.ghost['dispatched'] = k + 1
        if k:
            # what is private to the thread is as before the chunk: the next chunk starts in the same state
            new = self.private(e, s)
            for key, (n, v) in s.ghost['private'].items():
                w = new.get(key, (n, None))[1]
                if not (w is v or (z3.is_expr(v) and z3.is_expr(w) and v.eq(w)) or (isinstance(v, Ptr) and isinstance(w, Ptr) and v.same(w)) or (isinstance(v, int) and v == w)):
                    raise Unsupported('private state of a thread changes from chunk to chunk')
            return 0
        s.ghost['private'] = self.private(e, s)
        e.store(s, a[3], b, self.LB)
        e.store(s, a[4], b, z3.simplify(self.UB - 1))
        return 1

    def fork(self, e, s, a, d):
        if not isinstance(a[2], Fn):
            raise Unsupported('parallel region')
        self.regions += 1
        ps = list(a[3:])
        body = s.copy()
        self.enter(e, body, self.LB, self.UB)
        body.pc += [self.LB >= 0, self.LB < self.UB, self.UB <= self.n]
        body.ghost.update({'mark': e.nobj + 1, 'shared out': 0, 'modulus': 0})
        s0 = body.copy()
        tid = Ptr(e.new_obj('tid'))
        e.store(body, tid, 32, e.fresh('gtid', z3.IntSort()))
        out = e.call_fn(a[2].name, [tid, tid] + ps, body)
        self.ctx.cover('the parallel region ends', len(out) > 0 or e.check(e.zpc(body), 10000) == z3.unsat)
        for s2, _ in out:
            e.oblige('the iterations of the region are shared among the threads', s2, z3.BoolVal(s2.ghost.get('shared out') == 1), kind='post')
            for nm, g in self.post(e, s2, s0, self.LB, self.UB):
                e.oblige('a chunk of rows: ' + nm, s2, g, kind='post')
        self.leave(e, s)


def arr_unchanged(a, b):
    return z3.BoolVal(True) if a.eq(b) else a == b


def place(p):
    """container and position of an element pointer"""
    if not isinstance(p, Ptr) or not p.steps or p.off != 0:
        raise Unsupported('element pointer')
    return Ptr(p.obj, p.steps[:-1], p.steps[-1][0]), to_int(p.steps[-1][1], 64)


EIGEN = ['Eigen by contracts on its row vectors (sizes, elements, +, -, product with a scalar, segments); the expression templates are replaced by operations that give a vector at once (stubs/proof/Eigen)']
EFLAGS = ['-I' + VERIF + '/stubs/proof']


def eigen(ex, C):
    """contracts of Eigen's row vectors of ring elements (declared in stubs/proof/Eigen)"""
    t = 'ring::R'
    real = lambda e, s, p: (lambda v: z3.RealVal(v) if isinstance(v, int) else v)(e.load(s, p, 192))
    A = lambda s, p: C.arrays(s, p, t)[0]
    size = lambda s, p: to_int(C.size(s, p), 64)

    def put(s, p, n, arr):
        C.set_size(s, p, norm(n))
        C.set_arrays(s, p, t, [arr])

    def norm(n):
        n = z3.simplify(n) if z3.is_expr(n) else n
        return n

    def view(e, s, p):
        """(size, array) of a Map or Block"""
        q, n = e.load(s, p, 64), e.load(s, p.field(8), 64)
        if isinstance(q, Ptr) and q.obj is None:
            return z3.IntVal(0), e.fresh('none', z3.ArraySort(z3.IntSort(), RS))
        c, i = place(q)
        a = A(s, c)
        i = z3.simplify(i)
        if z3.is_int_value(i) and i.as_long() == 0:
            return to_int(n, 64), a
        j = I('view_j')
        return to_int(n, 64), z3.Lambda([j], select(a, z3.simplify(j + i)))

    def operand(e, s, p, ty):
        return view(e, s, p) if ty.startswith(('Eigen::Map<', 'Eigen::Block<')) else (size(s, p), A(s, p))

    def zip_(e, s, dst, x, y, f, what):
        e.oblige('Eigen: both operands of %s have the same length' % what, s, x[0] == y[0], kind='pre')
        j = I('eig_j')
        put(s, dst, x[0], z3.Lambda([j], f(select(x[1], j), select(y[1], j))))

    def free(e, s, a, d):
        i, depth = len(d) - 1, 0
        while i >= 0:
            depth += {')': 1, '(': -1}.get(d[i], 0)
            if not depth:
                break
            i -= 1
        args = [x.strip() for x in split_args(d[i + 1:-1])]
        op = re.search(r'Eigen::operator(.)', d).group(1)
        if not any('ring::R' in x for x in args):
            return NotImplemented
        if len(args) == 1:
            j, x = I('eig_j'), A(s, a[1])
            put(s, a[0], size(s, a[1]), z3.Lambda([j], -select(x, j)))
            return None
        if op == '*':
            if any('SparseMatrix' in x for x in args):
                return NotImplemented
            i, k = (1, 2) if 'ring::R const' == args[1].rstrip('& ') or args[1].startswith('ring::R') else (2, 1)
            n, x = operand(e, s, a[i], args[i - 1])
            c, j = real(e, s, a[k]), I('eig_j')
            put(s, a[0], n, z3.Lambda([j], select(x, j) * c))
            return None
        zip_(e, s, a[0], operand(e, s, a[1], args[0]), operand(e, s, a[2], args[1]), {'+': lambda x, y: x + y, '-': lambda x, y: x - y}[op], op)
    ex.on(r'(^|\s)Eigen::operator[-+*]<', free)

    def matrix(e, s, a, d):
        m = member(d)
        if m is None or m[0] != 'Eigen::Matrix' or m[1][0] != t:
            return NotImplemented
        meth, args = m[2], [x.strip() for x in split_args(m[3])]
        v = a[0]
        if meth == '~Matrix':
            return None
        if meth == 'Matrix':
            if not args:
                put(s, v, 0, e.fresh('empty', z3.ArraySort(z3.IntSort(), RS)))
            elif args[0] in INTS:
                n = to_int(a[1], 64)
                e.oblige('Eigen: the length of a vector is not negative', s, n >= 0, kind='pre')
                put(s, v, n, e.fresh('uninit', z3.ArraySort(z3.IntSort(), RS)))
            else:
                put(s, v, *operand(e, s, a[1], args[0]))
            return None
        if meth == 'operator=':
            n, x = operand(e, s, a[1], args[0])
            put(s, v, n, x)
            return v
        if meth in ('size', 'cols'):
            return C.size(s, v)
        if meth == 'rows':
            return 1
        if meth in ('data', 'begin'):
            return C.elem(s, v, 0, t)
        if meth == 'end':
            return C.elem(s, v, C.size(s, v), t)
        if meth in ('operator[]', 'operator()', 'coeffRef', 'coeff'):
            return C.elem(s, v, a[1], t)
        if meth in ('resize', 'conservativeResize'):
            n, old = to_int(a[1], 64), size(s, v)
            e.oblige('Eigen: the length of a vector is not negative', s, n >= 0, kind='pre')
            f = e.fresh('uninit', z3.ArraySort(z3.IntSort(), RS))
            if meth == 'conservativeResize':
                x, j = A(s, v), I('cr_j')
                f = z3.Lambda([j], z3.If(j < old, select(x, j), z3.Select(f, j)))
            put(s, v, n, f)
            return None
        if meth in ('setZero', 'setConstant', 'fill'):
            put(s, v, size(s, v), z3.K(z3.IntSort(), z3.RealVal(0) if meth == 'setZero' else real(e, s, a[1])))
            return v
        if meth in ('Zero', 'Constant'):
            put(s, v, to_int(a[1], 64), z3.K(z3.IntSort(), z3.RealVal(0) if meth == 'Zero' else real(e, s, a[2])))
            return None
        if meth == 'swap':
            x, y = (size(s, v), A(s, v)), (size(s, a[1]), A(s, a[1]))
            put(s, v, *y)
            put(s, a[1], *x)
            return None
        if meth in ('head', 'tail', 'segment'):
            r, q = a[0], a[1]
            n = size(s, q)
            f, k = (to_int(a[2], 64), to_int(a[3], 64)) if meth == 'segment' else (z3.IntVal(0), to_int(a[2], 64))
            if meth == 'tail':
                f = n - k
            f = z3.simplify(f)
            e.oblige('Eigen: a segment is part of the vector', s, z3.And(f >= 0, k >= 0, f + k <= n), kind='pre')
            e.store(s, r, 64, Ptr(q.obj, q.steps + ((q.off, f, 24, n),), 0))
            e.store(s, r.field(8), 64, k)
            return None
        if meth in ('operator+=', 'operator-='):
            zip_(e, s, v, (size(s, v), A(s, v)), operand(e, s, a[1], args[0]), (lambda x, y: x + y) if '+' in meth else (lambda x, y: x - y), meth)
            return v
        if meth == 'operator*=':
            x, c, j = A(s, v), real(e, s, a[1]), I('eig_j')
            put(s, v, size(s, v), z3.Lambda([j], select(x, j) * c))
            return v
        raise Unsupported('Eigen::Matrix::' + meth)
    ex.on(r'^Eigen::Matrix<ring::R, 1, -1>::', matrix)

    def map_(e, s, a, d):
        m = member(d)
        if m is None or 'ring::R' not in m[1][0]:
            return NotImplemented
        if m[2] == 'Map':
            e.store(s, a[0], 64, a[1])
            e.store(s, a[0].field(8), 64, a[2])
            return None
        if m[2] == 'size':
            return e.load(s, a[0].field(8), 64)
        if m[2] == 'operator[]':
            q = e.load(s, a[0], 64)
            c, i = place(q)
            e.oblige('Eigen: an index of a map is inside', s, z3.And(to_int(a[1], 64) >= 0, to_int(a[1], 64) < to_int(e.load(s, a[0].field(8), 64), 64)), kind='pre')
            return C.elem(s, c, z3.simplify(i + to_int(a[1], 64)), t)
        raise Unsupported('Eigen::Map::' + m[2])
    ex.on(r'^Eigen::Map<Eigen::Matrix<', map_)

    def block(e, s, a, d):
        m = member(re.sub(r'operator=<1, -1>', 'operator=', re.sub(r'^Eigen::Block<ring::R>& ', '', d)))
        if m is None or m[1][0] != t:
            return NotImplemented
        if m[2] == 'size':
            return e.load(s, a[0].field(8), 64)
        if m[2].startswith('operator='):
            ty = split_args(m[3])[0].strip()
            n, x = operand(e, s, a[1], ty)
            c, i = place(e.load(s, a[0], 64))
            k = to_int(e.load(s, a[0].field(8), 64), 64)
            e.oblige('Eigen: a segment is assigned a vector of its length', s, n == k, kind='pre')
            old, j = A(s, c), I('blk_j')
            C.set_arrays(s, c, t, [z3.Lambda([j], z3.If(z3.And(j >= i, j < i + k), select(x, z3.simplify(j - i)), select(old, j)))])
            return a[0]
        raise Unsupported('Eigen::Block::' + m[2])
    ex.on(r'^(Eigen::Block<\S* ?&? )?Eigen::Block<', block)


def fill_contract(ex, C):
    """std::fill over ring elements"""
    def fill(e, s, a, d):
        c, i, n_ = C.rng(s, a[0], a[1])
        v = e.load(s, a[2], 192)
        v = z3.RealVal(v) if isinstance(v, int) else v
        if c is None:
            return
        j, i, n_ = I('fl_j'), z3.simplify(to_int(i, 64)), to_int(n_, 64)
        if z3.is_int_value(i) and i.as_long() == 0 and z3.is_true(z3.simplify(n_ == to_int(C.size(s, c), 64))):
            C.set_arrays(s, c, 'ring::R', [z3.K(z3.IntSort(), v)])
            return
        old = C.arrays(s, c, 'ring::R')[0]
        C.set_arrays(s, c, 'ring::R', [z3.Lambda([j], z3.If(z3.And(j >= i, j < i + n_), v, z3.Select(old, j)))])
    ex.on(r'^void std::fill<ring::R', fill)
