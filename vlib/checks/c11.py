"""C11: filter, limit, repeat, zip, flat-map and cache have list semantics."""
TECHNIQUE = 'TLA+ denotation of every operator (spec/Pipe.tla); recorded iterations of random compositions validated by TLC (IterTrace, MapTrace)'
NOTE = ('Random compositions around each of the operators, as iterators (including strict zips, endless repeats below a limit and inputs that '
        'change when read twice below a cache) and as random-access datasets, must yield exactly the sequence that spec/Pipe.tla denotes.')


def run(ctx):
  k = 10 if ctx.thorough else 1
  ts = ctx.harness('c11', shards=8, N=60 * k, timeout=800)
  ctx.samples = ts[:2]
  ctx.validate(ts)
  ms = ctx.harness('c09', shards=8, PID='C11', TOPS='filter repeat zip flatmap', N=30 * k, timeout=800)
  ctx.validate(ms, module='MapTrace')
  ctx.cov.update(pipelines=len(ts) + len(ms), elements=sum(e['e'] == 'next' for t in ts for e in t['ev']),
                 operators=sorted({o for t in ts + ms for o in t['ops'].split('>')}))
