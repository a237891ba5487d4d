"""C17: changing the number of shards."""
import json
import os

from vlib import core

TECHNIQUE = ('TLA+ design models of elastic random-access and shard iterators checked by TLC over all re-shardings; TLC-generated job '
             'histories (uneven progress, checkpoints, restores with other process counts) replayed, traces validated by TLC')
NOTE = ('All processes of a job are driven in one process; every element, batch, end and saved state is judged by '
        'spec/ElasticTrace.tla from the inputs alone. Bounded by the generated datasets and histories (1 to 4 processes, up to 13 '
        'shards). Restores go through set_state, set_shard_states, shard files and CheckpointHandler.')


def run(ctx):
  ctx.model_check('ElasticMap', 'ElasticMapBig' if ctx.thorough else None, workers=4, what='global batches over re-shardings')
  ctx.model_check('ElasticIter', 'ElasticIterBig' if ctx.thorough else None, workers=8, timeout=800,
                  what='shard states over re-shardings: exactly once, nothing lost')
  num = 3000 if ctx.thorough else 600
  r = ctx.tlc('ElasticGen', args=['-simulate', 'num=%d' % num, '-depth', '19', '-seed', str(ctx.seed * 1000 + 17)], workers=1, DEPTH=16)
  hs = r.json_lines('HIST')
  if len(hs) < num // 2:
    raise core.MachineryError('history generation failed: ' + r.out[-2000:])
  f = os.path.join(ctx.dir, 'hists.json')
  json.dump(hs, open(f, 'w'))
  ts = ctx.harness('c17', shards=8, HISTS=f, N=200 if ctx.thorough else 40, PER=4, NPROC=4 if ctx.thorough else 1, timeout=800)
  ctx.samples = ts[:2]
  ctx.validate(ts, 'ElasticTrace')
  ctx.cov.update(histories=len(hs), reshardings=sum(e['e'] == 'restore' for t in ts for e in t['ev']),
                 random_access=sum(t['kind'] == 'map' for t in ts), shard_iterators=sum(t['kind'] == 'iter' for t in ts))
