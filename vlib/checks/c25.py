"""C25: datasets are immutable and their iterators independent."""
TECHNIQUE = 'TLA+ denotation; interleaved uses of families of datasets with common parts recorded, one trace per dataset validated by TLC (IterTrace, MapTrace)'
NOTE = ('Several random-access and iterator datasets that share their parts, with up to four iterators each, are used in random interleavings with '
        'unrelated derivations (slices, options, copies, worker slicing, prefetching); every dataset must yield what its own denotation '
        'says, whatever happened to the others.')


def run(ctx):
  k = 12 if ctx.thorough else 1
  ts = ctx.harness('c25', shards=8, N=14 * k, NPROC=1 * k, timeout=850)
  ctx.samples = ts[:2]
  it = [t for t in ts if t.get('kind') != 'm']
  mp = [t for t in ts if t.get('kind') == 'm']
  ctx.validate(it)
  ctx.validate(mp, module='MapTrace')
  ctx.cov.update(datasets=len(ts), events=sum(len(t['ev']) for t in ts),
                 iterators=sum(e['e'] == 'new' for t in ts for e in t['ev']))
