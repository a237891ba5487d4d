"""C09: random access agrees with iteration, length and epochs."""
TECHNIQUE = 'TLA+ denotation of random-access pipelines; recorded access histories validated by TLC (spec/MapTrace.tla)'
NOTE = ('Random compositions of all random-access operators, read in random orders, batched, from several threads, from rebuilt '
        'datasets and over three epochs, must return spec/Pipe.tla MAt(index) and MLen. Permutations, random draws and mixture '
        'selections are tables observed on stand-alone datasets (their legality is decided by C07, C10 and C18).')


def run(ctx):
  ts = ctx.harness('c09', shards=8, N=600 if ctx.thorough else 90, timeout=800)
  ctx.samples = ts[:2]
  ctx.validate(ts, module='MapTrace')
  ctx.cov.update(pipelines=len(ts), accesses=sum(len(t['ev']) for t in ts),
                 operators=sorted({o for t in ts for o in t['ops'].split('>')}))
