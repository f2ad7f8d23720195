"""C10: no output past the reseed interval."""
from c09 import *

FUNCTIONS = ['AESUniformBitGenerator::operator()', 'AESUniformBitGenerator::seed', 'AESUniformBitGenerator::Create']
K = 2 ** 48


def limit(ctx):
    """the interval is the value of the public constant kReseedInterval, read from compiled code"""
    m = ctx.ir(None, ['-DNDEBUG'], name='limit', text='#include "distributed_vector_ole/aes_uniform_bit_generator.h"\nextern "C" long h_limit() { return distributed_vector_ole::AESUniformBitGenerator::kReseedInterval; }\n')
    ex = ctx.exec(m, 'int')
    (s, v), = ex.call_fn(m.find(r'^h_limit\b')[0], [], State())
    ctx.check('kReseedInterval is positive and at most 2^48', isinstance(v, int) and 0 < v <= K)
    return v


def step10(ctx):
    R = limit(ctx)
    m = ctx.ir('aes_uniform_bit_generator.cpp', ['-DNDEBUG'])
    g = Gen(ctx, m)
    ex, st = g.ex, g.st
    p, v = g.new()
    st.pc += [shape(v), v['ctr'] <= R]
    pos = position(v)
    res = ex.call_fn(m.find(CLS + r'::operator\(\)\(\)')[0], [p], st)
    ctx.cover('operator() returns', len(res) > 0)
    need = z3.And(v['e'] >= v['B'], v['ctr'] + v['B'] / 2 > R)
    for s, r in res:
        w = g.state(s, p)
        ctx.prove(ex, 'an output comes from one of the first kReseedInterval blocks', s, pos < 2 * R)
        ctx.prove(ex, 'counter_ stays within the reseed interval', s, z3.And(shape(w), w['ctr'] <= R))
        ctx.prove(ex, 'the position advances by one', s, position(w) == pos + 1)
        ctx.prove(ex, 'no output when the refill would pass the interval', s, z3.Not(need))
        ctx.feasible(ex, 'operator() path', s)
    ends = [(k, s) for s, k, _ in ex.ends if k == 'throw']
    ctx.cover('operator() throws', len(ends) > 0)
    for k, s in ends:
        ctx.prove(ex, 'throws only when the refill would pass the interval', s, need)
        w = g.state(s, p)
        ctx.prove(ex, 'a call that throws leaves the generator exhausted', s, z3.And(shape(w), w['ctr'] <= R, w['e'] >= w['B'], w['ctr'] + w['B'] / 2 > R))
    ctx.absorb(ex)


def proof(ctx):
    ctx.parallel([('operator()', step10), ('seed', seed), ('Create', create)])


def native(ctx):
    pat = [('distributed_vector_ole/aes_uniform_bit_generator.h', r'(kReseedInterval\s*=)[^;]*;', r'\1 RESEED;')]
    ctx.natives([(('aes.cpp', ['aes_uniform_bit_generator.cpp'], ['-DPROP=10', '-DRESEED=%d' % r], 6), dict(name='aes_%d' % r, libs=CRYPTO + ABSL, patch=pat)) for r in (64, 100, 1000)])
