"""C27: structures of features, with and without JAX."""
import collections
TECHNIQUE = ('TLA+ specification of trees (spec/Trees.tla), its laws model-checked for all small trees (spec/TreesDesign.tla); results of '
             'tree_lib and of pipelines over structured elements, with and without JAX, validated by TLC (spec/TreesTrace.tla)')
NOTE = ('Random nested dicts, ordered and default dicts, lists, tuples and named tuples whose keys are inserted in different orders go '
        'through the functions of tree_lib, batching, rebatching, padding and packing; half of the processes run without JAX. Structures '
        'that differ in a name or number of features must be rejected. None and containers of different types are not mixed.')


def run(ctx):
  k = 12 if ctx.thorough else 1
  ctx.model_check('TreesDesign', None, 'laws of all trees of depth 2')
  ctx.model_check('TreesDesign', 'TreesDesignWide', 'laws of all trees of width 3')
  ts = ctx.harness('c27', shards=8, N=50 * k, timeout=800)
  ctx.samples = ts[:2]
  ctx.validate(ts, module='TreesTrace')
  ctx.cov.update(traces_without_jax=sum(not t['jax'] for t in ts),
                 events=dict(collections.Counter(e['e'] + ('' if e['res'] == 'ok' else ' rejected') for t in ts for e in t['ev'])))
