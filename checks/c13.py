"""C13: GGM tree entry points reject invalid arguments safely."""
from ggmcommon import *

FUNCTIONS = ['GGMTree::Create (both)', 'GGMTree::CreateFromSiblingWiseXOR', 'GGMTree::GetValueAtNode', 'GGMTree::GetValueAtLeaf', 'GGMTree::GetSiblingWiseXOR', 'GGMTree::ExpandSubtree',
             'XORBlocks', 'AllocateLevels', 'GGMTree::GGMTree']
ASSUMPTIONS = GGM_ASSUMPTIONS


def proof(ctx):
    ctx.module = ctx.ir(None, ['-DNDEBUG'], name='ggm', text=H)
    ctx.parallel([('lemmas', lemmas), ('Create with an arity', wrapper), ('Create', create), ('CreateFromSiblingWiseXOR', recon, False), ('accessors', accessors), ('GetSiblingWiseXOR', gswx),
                  ('ExpandSubtree', expand, False), ('XORBlocks', xorblocks), ('AllocateLevels', allocate)])


def native(ctx):
    ggm_native(ctx, 13)
