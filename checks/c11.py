"""C11: a GGM tree is the full PRG expansion of its seed."""
from ggmcommon import *

FUNCTIONS = ['AllocateLevels', 'GGMTree::Create', 'GGMTree::GGMTree', 'GGMTree::ExpandSubtree', 'ComputePRG', 'GGMTree::level_size']
ASSUMPTIONS = GGM_ASSUMPTIONS


def proof(ctx):
    ctx.module = ctx.ir(None, ['-DNDEBUG'], name='ggm', text=H)
    ctx.parallel([('lemmas', lemmas), ('AllocateLevels', allocate), ('ExpandSubtree', expand), ('Create', create), ('accessors', accessors)])


def native(ctx):
    ggm_native(ctx, 11)
