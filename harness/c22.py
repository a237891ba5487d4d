"""Seeking: histories with set_next_index / get_next_index."""
import json
import os

import common
import pipes

hists = json.load(open(os.environ['HISTS']))
out = common.Out()
r = common.rng('c22')
N = int(os.environ.get('N', '20'))
PER = int(os.environ.get('PER', '4'))
NPROC = int(os.environ.get('NPROC', '1'))
DENSE = ['map', 'mapidx', 'rmap', 'shuffle', 'wshufm', 'slice', 'reindex', 'repeat', 'seed', 'concat', 'select', 'zip', 'batch']
SEEK = ['map', 'mapidx', 'rmap', 'batch', 'limit', 'thr']
TOPS = ['map', 'mapidx', 'rmap', 'batch', 'limit', 'thr', 'inter1', 'any', 'any']


def one(p):
  """An interleave of a single dataset."""
  return {'op': 'inter', 'ps': [p], 'c': r.choice([1, 2]), 'mt': 1, 'mb': 1, 'ib': r.choice([1, 2])}


h = common.SHARD
for n in range(N + NPROC):
  proc = n >= N
  top = TOPS[(common.SHARD * N + n) % len(TOPS)]
  def cand():
    if top == 'any' and not proc:
      g = pipes.Gen(r, maxlen=16, maxn=8, mops=DENSE)
      return g.itree(r.choice([1, 2]))[0]
    g = pipes.Gen(r, maxlen=16, maxn=8, mops=DENSE, iops=SEEK)
    p, _ = g.itree(r.choice([0, 1, 1, 2]))
    if top == 'inter1':
      p, _ = g.iop(one(p), 'b')
      if p['op'] == 'rebatch':
        return None
    elif not proc:
      p, _ = g.iop(p, 'b' if pipes.has(p, ('batch',)) else 'a', top)
    return {'op': 'proc', 'p': p, 'bs': r.choice([1, 2])} if proc else p
  got = common.draw(out, 'C22', n, cand)
  if not got or not got[1]:
    continue
  p, nref = got
  t0 = {'ast': pipes.clean(p), 'nref': nref, 'ops': '>'.join(pipes.ops_of(p)), 'pipeline': p}
  for _ in range(1 if proc else PER):
    t = out.begin({'id': 'C22/%d/%d/%d' % (common.SHARD, n, h), 'ev': [], **t0}, 90)
    common.Client(lambda: pipes.ibuild(p), pipes.enc, t).run(hists[h % len(hists)][:(8 if proc else 99)])
    h += common.NSHARDS
    out.end(t)
