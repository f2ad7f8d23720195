"""C21: every VOLE output satisfies w = u*delta + v."""
from volecommon import *

FINDINGS = ['both U64 ffffffffffffffffffffffffffffff61 3ffffffff 1 431523 10 3000', 'both U64 ffffffffffffffffffffffffffffff61 3ffffffff 1 431523 3000 10']


def proof(ctx):
    ctx.module = ctx.par = ctx.ir(None, PAR, name='vole', text=H)
    ctx.parallel([('lemmas: the relation', relation), ('code generator', generator), ('PrecomputeReceiver without delta', random_delta), ('Create', create)] + GROUPS)


def native(ctx):
    proto_native(ctx, 21, findings=FINDINGS)
