"""C10: mixtures and concatenations."""
TECHNIQUE = ('TLA+ design model of mixture selection (spec/Mix.tla) model-checked with TLC for all small weights and lengths; '
             'recorded selections, random accesses and mixing iterators validated against the obligations (spec/Obs.tla, spec/MixOps.tla)')
NOTE = ('Selections are observed as (component, key) for many weights, component counts and lengths, over several epochs, by single '
        'and batched access, on slices and by mixing iterators with restores; each must be in order, in proportion, not repeat a '
        'component within its length and stop where the selected component ends. Weights that are not multiples of the smallest are '
        'resolved by grain to 1% of the smallest weight, which the specification allows for.')


def run(ctx):
  ctx.model_check('Mix', what='ceil-share selection: in order, proportional, no repeat within the exact length (weights<=4, <=4 components)')
  ts = ctx.harness('c10', shards=8, N=120 if ctx.thorough else 24, timeout=800)
  ctx.samples = ts[:2]
  ctx.validate(ts, module='Obs')
  ctx.cov.update(mixtures=sum('w' in t for t in ts), concatenations=sum(t['id'].endswith('cat') for t in ts),
                 observations=sum(len(t['ev']) for t in ts))
