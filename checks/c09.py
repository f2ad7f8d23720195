"""C09: AESUniformBitGenerator outputs the AES-CTR keystream."""
from aescommon import *

FUNCTIONS = ['AESUniformBitGenerator::operator()', 'AESUniformBitGenerator::seed', 'AESUniformBitGenerator::Create',
             'AESUniformBitGenerator::AESUniformBitGenerator(int64_t)', 'AESUniformBitGenerator::AESUniformBitGenerator(AESUniformBitGenerator&&)']
ASSUMPTIONS = ['buffer and seed sizes are below 2^40']
CLS = 'AESUniformBitGenerator'
KRES = z3.Int('kReseedInterval')
I = z3.Int


class Gen:
    """a generator object in the state described by the class invariant"""

    def __init__(self, ctx, m):
        self.ctx, self.m = ctx, m
        self.ex, self.C, self.L = setup(ctx, m)
        self.mem = m.members(CLS)
        self.st = State()

    def at(self, p):
        return lambda k: p.field(self.mem[k])

    def new(self, name='gen'):
        ex, C, st = self.ex, self.C, self.st
        p = Ptr(ex.new_obj(name))
        F = self.at(p)
        v = dict(B=I('B'), e=I('e'), ctr=I('ctr'), n=z3.BitVec('nonce', 128), key=z3.Const('key', KEY))
        C.set_size(st, F('buffer_'), v['B'])
        ex.store(st, F('elements_used_'), 64, v['e'])
        ex.store(st, F('counter_'), 64, v['ctr'])
        ex.store(st, F('nonce_'), 128, v['n'])
        ex.store(st, F('expanded_key_'), 8 * 244, v['key'])
        v['buf'] = C.arrays(st, F('buffer_'), 'unsigned long')[0]
        return p, v

    def state(self, st, p):
        ex, C, F = self.ex, self.C, self.at(p)
        return dict(B=to_int(C.size(st, F('buffer_')), 64), e=to_int(ex.load(st, F('elements_used_'), 64), 64), ctr=to_int(ex.load(st, F('counter_'), 64), 64),
                    n=bv(ex.load(st, F('nonce_'), 128), 128), key=ex.load(st, F('expanded_key_'), 8 * 244), buf=C.arrays(st, F('buffer_'), 'unsigned long')[0])


def word(v, n0, first, j):
    """output j of the batch whose first block has number `first`"""
    return half(AES(v['key'], n0 + I2B(128)(first + j / 2)), j % 2 == 1)


def shape(v):
    return z3.And(v['B'] >= 2, v['B'] < 2 ** 40, v['B'] % 2 == 0, v['e'] >= 0, v['e'] <= v['B'], v['ctr'] >= 0, v['ctr'] <= 2 ** 48,
                  z3.Implies(v['ctr'] == 0, v['e'] == v['B']), z3.Implies(v['ctr'] > 0, 2 * v['ctr'] >= v['B']))


def position(v):
    """number of outputs handed out since seeding"""
    return z3.If(v['ctr'] == 0, z3.IntVal(0), 2 * v['ctr'] - v['B'] + v['e'])


def buffered(v, n0, j):
    """the unread buffer elements are the keystream: element j is output 2 (counter - B/2) + j"""
    return z3.Implies(z3.And(v['ctr'] > 0, j >= v['e'], j < v['B']), z3.Select(v['buf'], j) == word(v, n0, v['ctr'] - v['B'] / 2, j))


def step(ctx):
    m = ctx.ir('aes_uniform_bit_generator.cpp', ['-DNDEBUG'])
    g = Gen(ctx, m)
    ex, st = g.ex, g.st
    p, v = g.new()
    n0 = z3.BitVec('n0', 128)
    # nonce_ = n0 + counter_ (mod 2^128)
    st.pc += [shape(v), v['n'] == n0 + I2B(128)(v['ctr'])]
    j = I('inv_j')
    st.pc.append(z3.ForAll([j], buffered(v, n0, j)))
    pos = position(v)
    # block number of the next output
    blk = z3.If(v['ctr'] == 0, z3.IntVal(0), z3.If(v['e'] >= v['B'], v['ctr'], v['ctr'] - v['B'] / 2 + v['e'] / 2))
    res = ex.call_fn(m.find(CLS + r'::operator\(\)\(\)')[0], [p], st)
    ctx.cover('operator() returns', len(res) > 0)
    for s, r in res:
        w = g.state(s, p)
        t = dict(timeout=60000)
        # output number pos is half pos mod 2 of block pos div 2
        ctx.prove(ex, 'the result is the next keystream word', s, bv(r, 64) == half(AES(v['key'], n0 + I2B(128)(blk)), v['e'] % 2 == 1), **t)
        ctx.prove(ex, 'block and half of the result are those of the position', s, z3.And(blk == pos / 2, (pos % 2 == 1) == z3.And(v['ctr'] > 0, v['e'] % 2 == 1)), **t)
        ctx.prove(ex, 'class invariant: sizes', s, z3.And(shape(w), w['B'] == v['B'], w['key'] == v['key']), **t)
        ctx.prove(ex, 'the position advances by one', s, position(w) == pos + 1, **t)
        ctx.prove(ex, 'class invariant: nonce_ = first nonce + counter_', s, w['n'] == n0 + I2B(128)(w['ctr']), **t)
        q = I('q')
        s.pc.append(buffered(v, n0, q))
        ctx.prove(ex, 'class invariant: unread elements are keystream', s, buffered(w, n0, q), **t)
        ctx.feasible(ex, 'operator() path', s)
    ctx.absorb(ex)


def lebytes(a, k, n):
    return z3.Concat(*[z3.Select(a, z3.IntVal(k + i)) for i in reversed(range(n))])


def seed(ctx):
    m = ctx.ir('aes_uniform_bit_generator.cpp', ['-DNDEBUG'])
    g = Gen(ctx, m)
    ex, st, C = g.ex, g.st, g.C
    p, v = g.new()
    st.pc.append(shape(v))
    S = Ptr(ex.new_obj('seed'))
    n = I('seed_len')
    C.set_size(st, S, n)
    st.pc += [n >= 0, n < 2 ** 40]
    A = C.arrays(st, S, 'unsigned char')[0]
    res = ex.call_fn(m.find(CLS + r'::seed\(')[0], [p, C.elem(st, S, 0, 'unsigned char'), n], st)
    ctx.cover('seed() returns', len(res) > 0)
    for s, r in res:
        w = g.state(s, p)
        code = to_int(r, 32)
        ctx.prove(ex, 'seed(): rejects exactly the seeds of fewer than 32 bytes', s, (code == 0) == (n >= 32))
        ctx.prove(ex, 'seed(): short seeds give an invalid-argument error', s, z3.Implies(n < 32, code == 3))
        ok = code == 0
        ctx.prove(ex, 'seed(): restarts at position 0', s, z3.Implies(ok, z3.And(shape(w), position(w) == 0, w['B'] == v['B'], w['ctr'] == 0)))
        ctx.prove(ex, 'seed(): key schedule of the first 16 bytes', s, z3.Implies(ok, w['key'] == KEYX(lebytes(A, 0, 16))))
        ctx.prove(ex, 'seed(): nonce is the next 16 bytes', s, z3.Implies(ok, w['n'] == lebytes(A, 16, 16)))
        ctx.feasible(ex, 'seed() accepts', (s.pc.append(ok), s)[1])
    ctx.absorb(ex)


def create(ctx):
    m = ctx.ir('aes_uniform_bit_generator.cpp', ['-DNDEBUG'])
    g = Gen(ctx, m)
    ex, st, C = g.ex, g.st, g.C
    S = Ptr(ex.new_obj('seed'))
    n, bs = I('seed_len'), I('buffer_size')
    C.set_size(st, S, n)
    st.pc += [n >= 0, n < 2 ** 40, bs < 2 ** 40, bs >= -2 ** 63]
    A = C.arrays(st, S, 'unsigned char')[0]
    so = m.members('StatusOr<distributed_vector_ole::AESUniformBitGenerator>')
    r = Ptr(ex.new_obj('result'))
    res = ex.call_fn(m.find(CLS + r'::Create\(')[0], [r, C.elem(st, S, 0, 'unsigned char'), n, bs], st)
    ctx.cover('Create() returns', len(res) > 0)
    done = False
    for s, _ in res:
        code = to_int(ex.load(s, r.field(so['status_']), 32), 32)
        ctx.prove(ex, 'Create(): fails exactly for seeds of fewer than 32 bytes', s, (code == 0) == (n >= 32))
        try:
            w = g.state(s, r.field([o for k, o in so.items() if k != 'status_'][0]))
        except (KeyError, Unsupported, IndexError):
            continue
        done = True
        ok = code == 0
        ctx.prove(ex, 'Create(): class invariant at position 0', s, z3.Implies(ok, z3.And(shape(w), position(w) == 0, w['ctr'] == 0)))
        ctx.prove(ex, 'Create(): key schedule of the first 16 bytes', s, z3.Implies(ok, w['key'] == KEYX(lebytes(A, 0, 16))))
        ctx.prove(ex, 'Create(): nonce is the next 16 bytes', s, z3.Implies(ok, w['n'] == lebytes(A, 16, 16)))
        ctx.feasible(ex, 'Create() accepts', (s.pc.append(ok), s)[1])
    ctx.cover('Create() success path', done)
    ctx.absorb(ex)


def move(ctx):
    m = ctx.ir('aes_uniform_bit_generator.cpp', ['-DNDEBUG'])
    g = Gen(ctx, m)
    ex, st = g.ex, g.st
    p, v = g.new()
    q = Ptr(ex.new_obj('moved'))
    res = ex.call_fn(m.find(CLS + r'::AESUniformBitGenerator\(distributed_vector_ole::AESUniformBitGenerator&&\)')[0], [q, p], st)
    ctx.cover('move constructor returns', len(res) > 0)
    for s, _ in res:
        w = g.state(s, q)
        for k in ('B', 'e', 'ctr', 'n', 'key', 'buf'):
            ctx.prove(ex, 'moving keeps ' + k, s, w[k] == v[k])
    ctx.absorb(ex)


def proof(ctx):
    ctx.parallel([('operator()', step), ('seed', seed), ('Create', create), ('move', move)])


def aes_native(ctx, prop, budget=12, **kw):
    ctx.natives([(('aes.cpp', ['aes_uniform_bit_generator.cpp'], ['-DPROP=%d' % prop], budget), dict(name='aes', libs=CRYPTO + ABSL)),
                 (('aes.cpp', ['aes_uniform_bit_generator.cpp'], ['-DPROP=%d' % prop], budget), dict(name='aes_o2', libs=CRYPTO + ABSL, opt='-O2'))])


def native(ctx):
    aes_native(ctx, 9)
