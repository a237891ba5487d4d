"""C08: slices and shards partition the data."""
TECHNIQUE = ('TLA+ design model of even splitting and strided worker slices (spec/Split.tla) model-checked with TLC; recorded slices, shards '
             'and worker partitions validated by TLC (spec/Obs.tla)')
NOTE = ('Slices of slices against list slices; even_split, samplers, strided and sequential worker slices of pipelines (also with a '
        'dataset used in several branches), thread and process workers: parts are disjoint, complete, ordered, even and put together '
        'round-robin.')


def run(ctx):
  ctx.model_check('Split', what='even_split and strided slices partition 0..n-1 for all n<=24, k<=6')
  ts = ctx.harness('c08', shards=8, N=160 if ctx.thorough else 30, timeout=800)
  ctx.samples = ts[:2]
  ctx.validate(ts, module='Obs', timeout=800)
  ctx.cov.update(partitions=sum(e['e'] == 'parts' for t in ts for e in t['ev']),
                 slices=sum(e['e'] == 'slice' for t in ts for e in t['ev']),
                 observations=sum(len(t['ev']) for t in ts))
