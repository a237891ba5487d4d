"""C12: batching and rebatching regroup the stream without loss."""
TECHNIQUE = 'TLA+ denotation of grouping (Pipe.tla); recorded iterations of chains of batching operators validated by TLC (IterTrace, MapTrace)'
NOTE = ('Atoms travel through chains of batch, batch_and_pad, batches of random sizes and rebatch in nested structures of arrays; the encoder '
        'checks that all leaves agree, shapes and dtypes included, and TLC that the groups are those of the specification. With and without '
        'parallel batching and, in part, through a worker process with shared memory output.')


def run(ctx):
  k = 12 if ctx.thorough else 1
  ts = ctx.harness('c12', shards=8, N=70 * k, NPROC=2 * k, timeout=800)
  ctx.samples = ts[:2]
  ctx.validate(ts)
  ms = ctx.harness('c09', shards=8, PID='C12', TOPS='batch', N=20 * k, timeout=800)
  ctx.validate(ms, module='MapTrace')
  ctx.cov.update(pipelines=len(ts) + len(ms), batches=sum(e['e'] == 'next' for t in ts for e in t['ev']),
                 operators=sorted({o for t in ts + ms for o in t['ops'].split('>')}))
