"""C02: additive and comparison operators of gf128, for all operands (bit-vector proofs)."""
from gfcommon import *

FUNCTIONS = ['gf128::operator+=', 'gf128::operator-=', 'gf128::operator+', 'gf128::operator-', 'gf128::operator-()', 'gf128::operator==',
             'gf128::operator!=', 'gf128::is_zero', 'gf128::gf128(absl::uint128)', 'gf128::operator absl::uint128']
H = PRE + r'''
extern "C" {
#define ARGS const u128* a, const u128* b, u128* r, u128* a2, u128* b2, bool* f
#define POST *a2 = U(x); *b2 = U(y);
void h_add(ARGS) { gf128 x = G(a), y = G(b); gf128 z = x + y; *r = U(z); *f = true; POST }
void h_sub(ARGS) { gf128 x = G(a), y = G(b); gf128 z = x - y; *r = U(z); *f = true; POST }
void h_addeq(ARGS) { gf128 x = G(a), y = G(b); gf128& z = (x += y); *r = U(z); *f = (&z == &x); POST }
void h_subeq(ARGS) { gf128 x = G(a), y = G(b); gf128& z = (x -= y); *r = U(z); *f = (&z == &x); POST }
void h_addself(ARGS) { gf128 x = G(a), y = G(b); gf128 z = x + x; *r = U(z); *f = true; POST }
void h_subself(ARGS) { gf128 x = G(a), y = G(b); gf128 z = x - x; *r = U(z); *f = true; POST }
void h_addeqself(ARGS) { gf128 x = G(a), y = G(b); gf128& z = (x += x); *r = U(z); *f = (&z == &x); POST }
void h_subeqself(ARGS) { gf128 x = G(a), y = G(b); gf128& z = (x -= x); *r = U(z); *f = (&z == &x); POST }
void h_neg(ARGS) { gf128 x = G(a), y = G(b); gf128 z = -x; *r = U(z); *f = true; POST }
void h_eq(ARGS) { gf128 x = G(a), y = G(b); *f = (x == y); *r = 0; POST }
void h_ne(ARGS) { gf128 x = G(a), y = G(b); *f = (x != y); *r = 0; POST }
void h_eqself(ARGS) { gf128 x = G(a), y = G(b); *f = (x == x); *r = 0; POST }
void h_neself(ARGS) { gf128 x = G(a), y = G(b); *f = (x != x); *r = 0; POST }
void h_iszero(ARGS) { gf128 x = G(a), y = G(b); *f = x.is_zero(); *r = 0; POST }
}
'''
A, B = z3.BitVec('a', 128), z3.BitVec('b', 128)
Z = z3.BitVecVal(0, 128)
T, F = z3.BoolVal(True), z3.BoolVal(False)
# harness -> (result, flag, a after, b after)
SPEC = {'h_add': (A ^ B, T, A, B), 'h_sub': (A ^ B, T, A, B), 'h_addeq': (A ^ B, T, A ^ B, B), 'h_subeq': (A ^ B, T, A ^ B, B),
        'h_addself': (Z, T, A, B), 'h_subself': (Z, T, A, B), 'h_addeqself': (Z, T, Z, B), 'h_subeqself': (Z, T, Z, B),
        'h_neg': (A, T, A, B), 'h_eq': (Z, A == B, A, B), 'h_ne': (Z, A != B, A, B), 'h_eqself': (Z, T, A, B), 'h_neself': (Z, F, A, B),
        'h_iszero': (Z, A == 0, A, B)}


def one(ctx, build, flags):
    m = ctx.ir(None, flags, name='c02_' + build, text=H)
    for fn in SPEC:
        ctx.group('%s/%s' % (build, fn), unit, ctx, m, build, fn)


def unit(ctx, m, build, fn):
    ex = ctx.exec(m)
    st = State()
    a, b = obj(ex, st, 'a', A), obj(ex, st, 'b', B)
    r, a2, b2 = (obj(ex, st, n) for n in ('r', 'a2', 'b2'))
    f = obj(ex, st, 'f', None, 8)
    res = run_h(ex, fn, [a, b, r, a2, b2, f], st)
    ctx.cover('%s returns' % fn, len(res) > 0)
    op = 'cmp' if fn in ('h_eq', 'h_ne', 'h_eqself', 'h_neself', 'h_iszero') else 'add'

    def case(m):
        return ('gf_' + build, op, hexv(m.eval(A, model_completion=True).as_long()), hexv(m.eval(B, model_completion=True).as_long()))
    sr, sf, sa, sb = SPEC[fn]
    for s, _ in res:
        ctx.feasible(ex, fn + ' path', s)
        n = '%s/%s: ' % (build, fn)
        fl = get(ex, s, f, 8)
        fl = z3.BoolVal(bool(fl)) if isinstance(fl, int) else fl if is_bool(fl) else z3.Extract(0, 0, bv(fl, 8)) == 1
        ctx.prove(ex, n + 'result', s, bv(get(ex, s, r), 128) == sr, case=case)
        ctx.prove(ex, n + 'flag / returns *this', s, fl == sf, case=case)
        ctx.prove(ex, n + 'left operand afterwards', s, bv(get(ex, s, a2), 128) == sa, case=case)
        ctx.prove(ex, n + 'right operand afterwards', s, bv(get(ex, s, b2), 128) == sb, case=case)
    ctx.absorb(ex, case)


def proof(ctx):
    ctx.parallel([(b, one, b, fl) for b, fl in BUILDS])


def native(ctx):
    gf_native(ctx, 2)
