"""C21: errors surface at their position and do not corrupt the stream."""
from vlib.checks import c01

TECHNIQUE = 'TLA+ denotation with failures (Pipe.tla); TLC-generated histories replayed on pipelines with failing user functions, traces validated by TLC'
NOTE = ('The position and identity of the error are computed by the error semantics of spec/Pipe.tla for the very pipeline; after the '
        'error its cause is removed and every state saved before it must resume exactly. Bounded by generated pipelines and histories.')


def run(ctx):
  hs, f = c01.histories(ctx, 3000 if ctx.thorough else 500, 14, seed=21)
  n = 150 if ctx.thorough else 30
  ts = ctx.harness('c21', shards=8, HISTS=f, N=n, PER=4, NPROC=8 if ctx.thorough else 2, timeout=800)
  ctx.samples = ts[:2]
  ctx.validate(ts)
  ctx.cov.update(histories=len(hs), failures=sum(e['e'] == 'err' for t in ts for e in t['ev']),
                 restores=sum(e['e'] == 'set' for t in ts for e in t['ev']))
