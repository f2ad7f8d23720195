from framework import *
import containers
from containers import Containers, KEY
from loops import LoopAuto, I2B

AES = z3.Function('AES', KEY, z3.BitVecSort(128), z3.BitVecSort(128))
KEYX = z3.Function('AESKeySchedule128', z3.BitVecSort(128), KEY)
KEYX256 = z3.Function('AESKeySchedule256', z3.BitVecSort(128), z3.BitVecSort(128), KEY)
TRUSTED = containers.TRUSTED + ['BoringSSL AES_encrypt(in, out, key) = AES(key, in), AES_set_encrypt_key(bytes, 128, key) is a function of the 16 bytes and returns 0',
                                'mpc_utils::Status and StatusOr (stubs: code and value only), absl::Span, absl::StrCat (no effect)']


def encrypt(e, st, a, d):
    x = e.load(st, a[0], 128)
    k = e.load(st, a[2], 8 * 244)
    e.store(st, a[1], 128, AES(k, bv(x, 128)))


def set_key(e, st, a, d):
    bits = a[1]
    if bits == 128:
        k = KEYX(bv(e.load(st, a[0], 128), 128))
    elif bits == 256:
        k = KEYX256(bv(e.load(st, a[0], 128), 128), bv(e.load(st, a[0].field(16), 128), 128))
    else:
        raise Unsupported('AES key size')
    e.store(st, a[2], 8 * 244, k)
    return 0


def setup(ctx, m):
    ex = ctx.exec(m, 'int')
    C = Containers(ex)
    L = LoopAuto(ex)
    ex.check_arith = True
    C.layouts['unsigned long'] = (8, [((), 0, 8, z3.BitVecSort(64), z3.BitVecVal(0, 64))])
    C.layouts['unsigned char'] = (1, [((), 0, 1, z3.BitVecSort(8), z3.BitVecVal(0, 8))])
    ex.on('^AES_encrypt$', encrypt)
    ex.on('^AES_set_encrypt_key$', set_key)
    return ex, C, L


def half(b, odd):
    return z3.If(odd, z3.Extract(127, 64, b), z3.Extract(63, 0, b))
