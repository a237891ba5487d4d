"""C14: concat-then-split packing."""
from vlib.checks import c13
TECHNIQUE = ('TLA+ specification of concat-then-split packing (spec/Pack.tla), model-checked for all small inputs (spec/PackDesign.tla); '
             'rows of the real iterator, with saves and restores, validated by TLC (spec/PackTrace.tla)')
NOTE = ('Random elements (empty, scalar, full-length and longer than a row, trailing dimensions, meta features, BOS replacement, with and '
        'without splitting of full-length features) must give exactly the rows, segment ids and positions of the specification. Bounded '
        'by 14 elements of up to 3 features.')


def run(ctx):
  c13.run(ctx, 'C14')
