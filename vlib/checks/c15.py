"""C15: records of data loaders and samplers."""
TECHNIQUE = ('TLA+ specification of samplers, sharding, workers and operations of a data loader (spec/Loader.tla), design model checked by TLC '
             '(spec/LoaderDesign.tla); elements read from random real loaders validated by TLC (spec/IterTrace.tla)')
NOTE = ('Loaders with random samplers (sequential, index, custom with and without length), shards, epochs, 0 to 4 worker processes, threads, '
        'buffers, sources of uneven speed and operations must yield exactly the sequence of the specification; samplers are checked for '
        'per-epoch coverage. Bounded by 20 records per source and 4 operations.')


def run(ctx):
  ctx.model_check('LoaderDesign', 'LoaderDesignBig' if ctx.thorough else None,
                  what='records per shard and worker, coverage, and the state conversion of data loaders', workers=8, timeout=800)
  ts = ctx.harness('c15', shards=8, PID='C15', N=260 if ctx.thorough else 45, timeout=800)
  ctx.samples = ts[:2]
  ctx.validate(ts, timeout=800)
  ctx.cov.update(loaders=len(ts), with_processes=sum('wk0' not in t['ops'] for t in ts),
                 elements=sum(e['e'] == 'next' for t in ts for e in t['ev']))
