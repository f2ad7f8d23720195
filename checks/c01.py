"""C01: GF(2^128) multiplication equals the polynomial product modulo x^128+x^7+x^2+x+1."""
from gfcommon import *

FUNCTIONS = ['gf128::operator*=(const gf128&)', 'gf128::operator*(const gf128&) const', 'gf128::square()', 'gf128::squared() const',
             'gf128::gf128(absl::uint128)', 'gf128::operator absl::uint128() const']
ASSUMPTIONS = ['USE_ASM build: SSE2/PCLMUL intrinsics have the semantics of the Intel manual (as lowered by clang)']
H = PRE + r'''
extern "C" {
// every harness: operands in, result out, operands after the call out
void h_mul(const u128* a, const u128* b, u128* r, u128* a2, u128* b2) { gf128 x = G(a), y = G(b); gf128 z = x * y; *r = U(z); *a2 = U(x); *b2 = U(y); }
void h_muleq(const u128* a, const u128* b, u128* r, u128* a2, u128* b2, bool* same) { gf128 x = G(a), y = G(b); gf128& z = (x *= y); *same = (&z == &x); *r = U(z); *a2 = U(x); *b2 = U(y); }
void h_mulself(const u128* a, u128* r, u128* a2) { gf128 x = G(a); gf128 z = x * x; *r = U(z); *a2 = U(x); }
void h_muleqself(const u128* a, u128* r) { gf128 x = G(a); x *= x; *r = U(x); }
void h_square(const u128* a, u128* r) { gf128 x = G(a); x.square(); *r = U(x); }
void h_squared(const u128* a, u128* r, u128* a2) { gf128 x = G(a); gf128 z = x.squared(); *r = U(z); *a2 = U(x); }
}
'''


def one(ctx, build, flags, fn):
    m = ctx.ir(None, flags, name='c01_%s' % build, text=H)
    ex = ctx.exec(m)
    ex.on(r'RAND_bytes', lambda *a: 1)
    st = State()
    A, B = anf_var(0), anf_var(128)
    a = obj(ex, st, 'a', A)
    b = obj(ex, st, 'b', B)
    r, a2, b2 = (obj(ex, st, n) for n in ('r', 'a2', 'b2'))
    s = obj(ex, st, 'same', None, 8)
    args = {'h_mul': [a, b, r, a2, b2], 'h_muleq': [a, b, r, a2, b2, s], 'h_mulself': [a, r, a2], 'h_muleqself': [a, r],
            'h_square': [a, r], 'h_squared': [a, r, a2]}[fn]
    res = run_h(ex, fn, args, st)
    ctx.cover('%s %s returns' % (build, fn), len(res) > 0)
    spec = mul_spec(A, A if 'self' in fn or 'sq' in fn else B)
    op = {'h_mul': 'mul', 'h_muleq': 'muleq', 'h_mulself': 'mulself', 'h_muleqself': 'muleqself', 'h_square': 'square', 'h_squared': 'squared'}[fn]

    def case(env):
        return ('gf_' + build, op, hexv(env_int(env, 0)), hexv(env_int(env, 128)))
    for st2, _ in res:
        n = '%s/%s' % (build, fn)
        ctx.prove_anf(n + ': result is the reduced product', get(ex, st2, r), spec, 128, st2.pc, 256, case)
        if fn in ('h_mul', 'h_mulself', 'h_squared'):
            ctx.prove_anf(n + ': left operand unchanged', get(ex, st2, a2), A, 128, st2.pc, 256, case)
        if fn == 'h_muleq':
            ctx.prove_anf(n + ': left operand assigned', get(ex, st2, a2), spec, 128, st2.pc, 256, case)
            ctx.check(n + ': returns *this', get(ex, st2, s, 8) == 1)
        if fn in ('h_mul', 'h_muleq'):
            ctx.prove_anf(n + ': right operand unchanged', get(ex, st2, b2), B, 128, st2.pc, 256, case)
    ctx.absorb(ex)


def proof(ctx):
    ctx.parallel([('%s/%s' % (b, fn), one, b, fl, fn) for b, fl in BUILDS
                  for fn in ('h_mul', 'h_muleq', 'h_mulself', 'h_muleqself', 'h_square', 'h_squared')])


def native(ctx):
    gf_native(ctx, 1)
