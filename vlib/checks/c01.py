"""C01: resuming from a saved state."""
import json
import os

from vlib import core


TECHNIQUE = 'TLA+ iterator state machine; TLC-generated save/restore histories replayed into random pipelines, traces validated by TLC'
NOTE = ('Every recorded API trace (save, restore into the same and into fresh iterators, dirty histories, states at the end) '
        'must be a behaviour of spec/IterTrace.tla for the uninterrupted run as reference. Bounded by the generated '
        'pipelines and histories; trusts the element encoding of harness/pipes.py.')


def histories(ctx, num, depth, kinds='', seed=0):
  hs = core.gen_histories(ctx, num, depth, kinds, seed)
  f = os.path.join(ctx.dir, 'hists-%s-%d.json' % (kinds, seed))
  json.dump(hs, open(f, 'w'))
  return hs, f


def run(ctx):
  hs, f = histories(ctx, 3000 if ctx.thorough else 500, 16)
  n = 150 if ctx.thorough else 24
  ts = ctx.harness('c01', shards=8, HISTS=f, N=n, PER=6 if ctx.thorough else 4, timeout=700)
  ctx.samples = ts[:2]
  acc, bad = ctx.validate(ts)
  ctx.cov.update(histories=len(hs), pipelines=len({json.dumps(t['pipeline']) for t in ts}),
                 operators=sorted({o for t in ts for o in t['ops'].split('>')}),
                 restores=sum(e['e'] == 'set' for t in ts for e in t['ev']))
