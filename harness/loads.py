"""Data loaders built from descriptions (importable by worker processes)."""
import time

import numpy as np

import grain
from grain import python as gp
from grain._src.python import operations as legacy


class Src:
  """Random access to keys; slow=k delays some reads."""

  def __init__(self, n, slow=0, name='src'):
    self.n, self.slow, self.name = n, slow, name

  def __len__(self):
    return self.n

  def __getitem__(self, i):
    i = int(i)
    if self.slow and (i * 7919 + self.slow) % 5 == 0:
      time.sleep(0.003 * ((i * 31 + self.slow) % 4))
    return np.array(i, np.int64)

  def __repr__(self):
    return 'Src(%d, %r)' % (self.n, self.name)


class Custom:
  """A sampler given by a list of keys; has no length if bare."""

  def __init__(self, keys, seed):
    self.keys, self.seed = keys, seed

  def __getitem__(self, i):
    if i < 0 or i >= len(self.keys):
      raise IndexError('%d' % i)
    return gp.RecordMetadata(index=i, record_key=self.keys[i], rng=np.random.default_rng([self.seed, i]))

  def __repr__(self):
    return 'Custom(%s, %s)' % (self.keys, self.seed)


class CustomLen(Custom):

  def __len__(self):
    return len(self.keys)


class Map(grain.transforms.Map):

  def __init__(self, k):
    self.k = k

  def map(self, x):
    return x + self.k


class RMap(grain.transforms.RandomMap):

  def random_map(self, x, rng):
    return x + int(rng.integers(1, 10**6))


class Filter(grain.transforms.Filter):

  def __init__(self, m, r):
    self.m, self.r = m, r

  def filter(self, x):
    return int(np.asarray(x).reshape(-1)[0]) % self.m != self.r


class Flat(grain.experimental.FlatMapTransform):

  def __init__(self, k):
    self.k = k
    self.max_fan_out = k

  def flat_map(self, x):
    return [x + 1000 * i for i in range(1, int(np.asarray(x).reshape(-1)[0]) % (self.k + 1) + 1)]


class LMap:

  def __init__(self, k):
    self.k = k

  def __call__(self, x, *rng):
    return x + (int(rng[0].integers(1, 10**6)) if rng else self.k)


class LFilter(Filter):

  def __call__(self, x):
    return self.filter(x)


def op(o):
  k = o['op']
  old = o.get('old')
  if k == 'map':
    return legacy.MapOperation(LMap(o['k'])) if old else Map(o['k'])
  if k == 'rmap':
    return legacy.RandomMapOperation(LMap(0)) if old else RMap()
  if k == 'filter':
    return legacy.FilterOperation(LFilter(o['m'], o['r'])) if old else Filter(o['m'], o['r'])
  if k == 'flat':
    return Flat(o['k'])
  if old:
    return legacy.BatchOperation(o['b'], drop_remainder=bool(o['drop']))
  return grain.transforms.Batch(o['b'], drop_remainder=bool(o['drop']))


def source(d):
  k = d['src']
  if k == 'list':
    return list(range(d['n']))
  if k == 'array':
    return np.arange(d['n'])
  if k == 'range':
    return gp.RangeDataSource(0, d['n'], 1)
  return Src(d['n'], d['slow'], d.get('name', 'src'))


def shards(d):
  if d['nosh']:
    return gp.NoSharding()
  return gp.ShardOptions(d['s'], d['c'], bool(d['drop']))


def sampler(d):
  k = d['kind']
  if k == 'seq':
    return gp.SequentialSampler(d['n'], shard_options=shards(d), seed=d['seed'])
  if k == 'index':
    return gp.IndexSampler(d['n'], shard_options=shards(d), shuffle=bool(d['shuffle']), num_epochs=d['epochs'] or None,
                           seed=d['seed'])
  return (CustomLen if k == 'customlen' else Custom)(d['keys'], d['seed'])


def loader(d):
  ro = None if d['threads'] is None else grain.ReadOptions(num_threads=d['threads'], prefetch_buffer_size=d['buf'])
  if d.get('viaload'):
    ops = list(d['ops'])
    kw = {}
    if ops and ops[-1]['op'] == 'batch':
      kw = dict(batch_size=ops[-1]['b'], drop_remainder=bool(ops[-1]['drop']))
      ops.pop()
    return gp.load(source(d), num_epochs=d['epochs'] or None, shuffle=bool(d['shuffle']), seed=d['seed'],
                   shard_options=shards(d), transformations=[op(o) for o in ops], worker_count=d['wk'],
                   read_options=ro, **kw)
  kw = {}
  if d['kind'].startswith('custom') or d.get('explicit'):
    kw = dict(shard_options=gp.ShardOptions(d['ls'], d['lc'], bool(d['ldrop'])))
  return gp.DataLoader(data_source=source(d), sampler=sampler(d), operations=[op(o) for o in d['ops']],
                       worker_count=d['wk'], worker_buffer_size=d['wbuf'], read_options=ro, **kw)
