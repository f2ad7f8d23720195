"""C22: no VOLE correlation is handed out or consumed twice, and both parties take the same ones."""
from volecommon import *


def proof(ctx):
    ctx.module = ctx.par = ctx.ir(None, PAR, name='vole', text=H)
    ctx.parallel([('lemmas: once', once)] + GROUPS)


def native(ctx):
    proto_native(ctx, 22)
