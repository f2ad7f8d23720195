"""C12: a punctured GGM tree equals the full tree except at one leaf."""
from ggmcommon import *

FUNCTIONS = ['XORBlocks', 'GGMTree::CreateFromSiblingWiseXOR', 'GGMTree::GetSiblingWiseXOR', 'GGMTree::ExpandSubtree', 'ComputePRG', 'AllocateLevels', 'GGMTree::GGMTree']
ASSUMPTIONS = GGM_ASSUMPTIONS + ['that reconstruction from valid XORs succeeds (rather than returning an error) is checked natively']


def proof(ctx):
    ctx.module = ctx.ir(None, ['-DNDEBUG'], name='ggm', text=H)
    ctx.parallel([('lemmas', lemmas), ('fold lemma', fold_lemma), ('XORBlocks', xorblocks), ('CreateFromSiblingWiseXOR', recon), ('GetSiblingWiseXOR', gswx),
                  ('AllocateLevels', allocate), ('ExpandSubtree', expand)])


def native(ctx):
    ggm_native(ctx, 12)
