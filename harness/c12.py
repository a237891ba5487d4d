"""Batching, padding and rebatching structures of arrays.

The atoms of the specification travel in nested structures of arrays; the
encoder checks that all leaves of a batch tell the same story.
"""
import os

import common
import pipes
from carry import build, encs
import grain
from grain import experimental as gex
from grain._src.python.dataset.transformations import batch as batch_lib

out = common.Out()
PID = os.environ.get('PID', 'C12')
r = common.rng(PID)
g = pipes.Gen(r, maxlen=30, maxn=20)
N = int(os.environ.get('N', '40'))
NPROC = int(os.environ.get('NPROC', '0'))


def cand(proc=False):
  g.mops = ['map', 'shuffle', 'slice', 'repeat', 'filter', 'flatmap']
  g.iops = ['map', 'filter', 'limit', 'repeat', 'thr']
  p, _ = g.itree(r.choice([0, 1, 1]), kind='a')
  kind = r.choice([0, 1, 1, 2, 3])
  uniform = True                 # all batches have the same size
  if r.random() < .35:
    p = {'op': 'varb', 'p': p, 'k': r.choice([1, 2, 4, 6]), 'kind': kind}
    uniform = p['k'] == 1
  else:
    p = {'op': 'carry', 'p': p, 'kind': kind}
    if r.random() < .25:
      p = {'op': 'padbatch', 'p': p, 'b': r.choice([1, 2, 3, 5])}
    else:
      drop = r.random() < .4
      p = {'op': 'batch', 'p': p, 'b': r.choice([1, 2, 3, 4, 6]), 'drop': drop}
      uniform = drop
  depth = 1
  for _ in range(r.choice([0, 1, 1, 2, 3])):
    c = r.choice(['rebatch', 'rebatch', 'rebatch', 'batch', 'limit', 'repeat', 'thr'])
    if c == 'rebatch':
      drop = r.random() < .4
      p = {'op': c, 'p': p, 'b': r.choice([1, 2, 3, 4, 5, 7]), 'drop': drop}
      uniform = drop
    elif c == 'batch' and uniform and depth < 3:
      drop = r.random() < .5
      p = {'op': c, 'p': p, 'b': r.choice([1, 2, 3]), 'drop': drop}
      uniform = drop
      depth += 1
    elif c == 'limit':
      p = {'op': c, 'p': p, 'n': r.randrange(1, 8)}
    elif c == 'repeat':
      p = {'op': c, 'p': p, 'n': 2}
    elif c == 'thr':
      p = {'op': c, 'p': p, 'bs': r.choice([0, 1, 3])}
  if proc:
    p = {'op': 'proc', 'p': p}
  return p, kind


def resolve(p):
  if p['op'] in ('carry', 'varb'):
    return {**p, 'p': pipes.iresolve(p['p'])}
  return {**p, 'p': resolve(p['p'])}


# Experiments that must not change results.
EXP = (common.SHARD % 4)
if EXP in (1, 3) and hasattr(batch_lib, '_is_parallel_batch_experiment_enabled'):
  batch_lib._is_parallel_batch_experiment_enabled = lambda: True
  if EXP == 3 and hasattr(batch_lib, '_PARALLEL_BATCHING_MIN_TOTAL_BYTES'):
    batch_lib._PARALLEL_BATCHING_MIN_TOTAL_BYTES = 0

for n in range(N + NPROC):
  proc = n >= N
  t = out.begin({'id': '%s/%d/%d' % (PID, common.SHARD, n), 'ops': '', 'ref': [], 'ev': []}, 90)
  try:
    p, kind = cand(proc)
    p = resolve(p)
  except pipes.BadTable:
    out.cancel()
    continue
  except Exception as e:  # pylint: disable=broad-except
    t['ev'].append(common.raised('building', e))
    out.end(t)
    continue
  t['ops'], t['pipeline'], t['ast'] = '>'.join(pipes.ops_of(p)), p, pipes.clean(p)
  del t['ref']
  c = common.Client(lambda: build(p), encs(kind), t)
  try:
    c.new(0)
    while c.next(0):
      if len(t['ev']) > 300:
        t['ev'].append({'e': 'raise', 'op': 'iteration does not end'})
        raise common.Stop()
    if t['ev'][-1]['e'] == 'stop':
      c.next(0)
  except common.Stop:
    pass
  finally:
    c.close_all()
  out.end(t)

# Invalid arguments are refused.
d = grain.MapDataset.range(5)
for k, mk in enumerate([lambda: d.batch(0), lambda: d.batch(-1), lambda: d.to_iter_dataset().batch(0),
                        lambda: gex.RebatchIterDataset(d.to_iter_dataset().batch(2), 0),
                        lambda: d.filter(pipes.Keep(2, 0)).batch(2),
                        lambda: batch_lib.batch_and_pad([1, 2, 3], batch_size=2),
                        lambda: gex.FlatMapMapDataset(d, pipes.Fan(2)).map(pipes.Affine(1, 1)).batch(2)]):
  t = out.begin({'id': '%s/%d/refuse%d' % (PID, common.SHARD, k), 'ops': 'batch', 'ref': [], 'ev': [], 'pipeline': 'refused argument %d' % k})
  try:
    mk()
    ok = 0
  except ValueError:
    ok = 1
  t['ev'].append({'e': 'count', 'v': ok, 'n': 1, 'what': 'invalid batching was not refused'})
  out.end(t)
