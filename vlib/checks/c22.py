"""C22: seeking to an index equals iterating to it."""
from vlib.checks import c01

TECHNIQUE = 'TLA+ iterator state machine with seek and next index; TLC-generated histories replayed, traces validated by TLC'
NOTE = ('Seeks, next-index reads, saves and restores in any order must leave the trace a behaviour of spec/IterTrace.tla over the '
        'denotation of the pipeline; CanSeek (Pipe.tla) says which pipelines may not refuse. Bounded by generated pipelines.')


def run(ctx):
  hs, f = c01.histories(ctx, 3000 if ctx.thorough else 600, 16, kinds='seek', seed=22)
  n = 150 if ctx.thorough else 32
  ts = ctx.harness('c22', shards=8, HISTS=f, N=n, PER=4, NPROC=6 if ctx.thorough else 1, timeout=800)
  ctx.samples = ts[:2]
  ctx.validate(ts)
  ctx.cov.update(histories=len(hs), seeks=sum(e['e'] == 'seek' for t in ts for e in t['ev']),
                 refused=sum(e['e'] == 'refused' for t in ts for e in t['ev']),
                 index_reads=sum(e['e'] == 'index' for t in ts for e in t['ev']))
