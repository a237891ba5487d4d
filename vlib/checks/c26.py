"""C26: observability options never change the data."""
from vlib.checks import c01

TECHNIQUE = 'TLA+ iterator state machine; TLC-generated histories replayed with a different option set per iterator, traces validated by TLC'
NOTE = ('The iterators of one trace use the same random pipeline with different options (execution tracking, debug mode, visualisation, exported metrics, '
        'filter thresholds, traceback filtering) and exchange saved states; all must follow the one denotation, failures included.')


def run(ctx):
  k = 10 if ctx.thorough else 1
  hs, f = c01.histories(ctx, 3000 if ctx.thorough else 400, 16, seed=26)
  ts = ctx.harness('c26', shards=8, HISTS=f, N=22 * k, PER=3, NPROC=2 * k, timeout=850)
  ctx.samples = ts[:2]
  ctx.validate(ts)
  ctx.cov.update(traces=len(ts), elements=sum(e['e'] == 'next' for t in ts for e in t['ev']),
                 variants=sorted({v for t in ts for v in t.get('variants', ())}))
