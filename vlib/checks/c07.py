"""C07: shuffles are permutations, new per epoch, determined by seed and epoch."""
TECHNIQUE = ('TLA+ design model of cycle-walking index permutations (spec/CycleWalk.tla) model-checked with TLC; recorded orders of all '
             'shuffles validated as permutations and as a random function of seed and epoch (spec/Obs.tla)')
NOTE = ('Orders of shuffle(), WindowShuffleMapDataset, WindowShuffleIterDataset, IndexSampler and the index_shuffle extension for many '
        'lengths (all up to 70, around powers of two, up to 65537, injectivity samples up to 2**32), seeds (including 2**32-1), epochs, '
        'windows and access paths. Independence of orders is only required for lengths of at least 20.')


def run(ctx):
  ctx.model_check('CycleWalk', what='cycle walking over any permutation of a superset is a permutation of the range')
  ts = ctx.harness('c07', shards=8, N=60 if ctx.thorough else 10, timeout=800)
  ctx.samples = ts[:2]
  ctx.validate(ts, module='Obs', timeout=800)
  ctx.cov.update(permutations=sum(e['e'] == 'perm' for t in ts for e in t['ev']),
                 largest=max(e.get('n', 0) for t in ts for e in t['ev'] if e['e'] == 'perm'),
                 observations=sum(len(t['ev']) for t in ts))
