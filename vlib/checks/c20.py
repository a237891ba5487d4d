"""C20: closing an iterator is idempotent, final and releases its resources."""
from vlib.checks import c01

TECHNIQUE = 'TLA+ iterator state machine with close; TLC-generated histories replayed, threads and processes counted after closing'
NOTE = ('Traces of random pipelines (also slow, nested and with worker processes) under histories with closes at any point must be '
        'behaviours of spec/IterTrace.tla: ValueError after close, no hang (watchdog), no thread or child process left.')


def run(ctx):
  hs, f = c01.histories(ctx, 3000 if ctx.thorough else 500, 14, kinds='close', seed=20)
  n = 120 if ctx.thorough else 24
  ts = ctx.harness('c20', shards=8, HISTS=f, N=n, PER=4, NPROC=8 if ctx.thorough else 2, timeout=800)
  ctx.samples = ts[:2]
  ctx.validate(ts)
  ctx.cov.update(histories=len(hs), closes=sum(e['e'] == 'close' for t in ts for e in t['ev']),
                 process_pipelines=sum('proc' in t['ops'] or 'mp' in t['ops'].split('>') for t in ts))
