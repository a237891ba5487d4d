"""C13: first-fit and best-fit packing."""
TECHNIQUE = ('TLA+ specification of first-fit and best-fit packing (spec/Pack.tla), model-checked for all small inputs (spec/PackDesign.tla); '
             'rows of the real iterators, with saves and restores, validated by TLC (spec/PackTrace.tla)')
NOTE = ('Random elements (empty, scalar, full-length and too long features, trailing dimensions, alignment, padding, limits per row, meta '
        'features, grouping, shuffled rows) packed by both strategies must give exactly the rows of the specification; shuffled batches '
        'are permutations that repeat after restores. Bounded by 14 elements of up to 3 features.')


def run(ctx, pid='C13'):
  ctx.model_check('PackDesign', 'PackDesignBig' if ctx.thorough else None,
                  what='packing keeps every sequence once, whole and within capacity; batches end only when full; concat-then-split conserves tokens',
                  workers=8, timeout=800)
  ts = ctx.harness('c13', shards=8, PID=pid, N=1500 if ctx.thorough else 120, timeout=800)
  ctx.samples = ts[:2]
  ctx.validate(ts, module='PackTrace', timeout=800)
  ctx.cov.update(packings=len(ts), rows=sum(e['e'] == 'row' for t in ts for e in t['ev']),
                 restores=sum(e['e'] == 'restore' for t in ts for e in t['ev']))
