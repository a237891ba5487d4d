"""Pipelines whose elements are structures of arrays (packing, batching with
padding, ...): random factories for the properties that are decided against a
recorded reference."""
import zlib

import numpy as np

import grain
from grain import experimental as gex
from grain._src.python.dataset import dataset

import pipes


def encd(x):
  """Encodes any nested element by a digest of structure, dtypes and values."""
  h = [1, 1]

  def add(b):
    h[0] = zlib.crc32(b, h[0])
    h[1] = zlib.adler32(b, h[1])

  def go(x):
    if isinstance(x, dict):
      add(b'd%d' % len(x))
      for k in sorted(x):
        add(repr(k).encode())
        go(x[k])
    elif isinstance(x, (list, tuple)):
      add(b'l%d' % len(x))
      for y in x:
        go(y)
    elif isinstance(x, np.ndarray):
      add(b'a%s%r' % (str(x.dtype).encode(), x.shape))
      if x.dtype == object:
        for y in x.reshape(-1):
          go(y)
      else:
        add(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, np.generic):
      add(b'g%s' % str(x.dtype).encode() + x.tobytes())
    elif hasattr(x, '__array__') and not isinstance(x, (int, float, str)):
      go(np.asarray(x))
    else:
      add(repr(x).encode())
  go(x)
  return [h[0] & 0x3fffffff, h[1] & 0x3fffffff]


class Seqs:
  """int -> {'a': ids, 'b': ids, 'm': scalar} of pseudo-random lengths."""

  def __init__(self, maxa, maxb, k):
    self.maxa, self.maxb, self.k = maxa, maxb, k

  def __call__(self, x):
    la = (x * 7 + self.k) % (self.maxa + 1)
    lb = (x * 5 + 3 * self.k) % (self.maxb + 1)
    return {'a': np.arange(1, la + 1, dtype=np.int64) + 100 * x, 'b': np.full((lb,), x + 1, dtype=np.int32),
            'm': np.int64(x)}


class OnlyAB:
  def __call__(self, e):
    return {'a': e['a'], 'b': e['b']}


class Struct:
  """int -> nested structure of arrays of fixed shapes."""
  def __call__(self, x):
    return {'x': np.full((2, 3), x, dtype=np.float32), 'y': (np.int32(x), {'z': np.array([x, x + 1], dtype=np.int16)})}


class Var:
  """int -> structure with one leading batch dimension of varying size."""
  def __init__(self, k):
    self.k = k
  def __call__(self, x):
    n = (x * 3 + self.k) % 4 + 1
    return {'x': np.arange(n * 2, dtype=np.int32).reshape(n, 2) + x, 'y': np.full((n,), x % 250, dtype=np.uint8)}


class PadBatch:
  def __init__(self, b):
    self.b = b
  def __call__(self, values):
    return gex.batch_and_pad(values, batch_size=self.b, pad_value=7)


class SumAll:
  def __call__(self, x):
    return x


def upstream(r, maxn=14):
  """An iterator of distinct-ish small integers, possibly with stateful stages."""
  n = r.randrange(0, maxn)
  d = dataset.MapDataset.range(n)
  c = r.randrange(5)
  if c == 1 and n:
    d = d.shuffle(seed=r.randrange(99))
  if c == 2:
    d = d.filter(pipes.Keep(3, 1))
  it = d.to_iter_dataset(grain.ReadOptions(num_threads=r.choice([0, 1, 3]), prefetch_buffer_size=r.choice([1, 4])))
  c = r.randrange(7)
  if c == 1:
    it = gex.WindowShuffleIterDataset(it, window_size=3, seed=r.randrange(99))
  elif c == 2:
    it = gex.ThreadPrefetchIterDataset(it, prefetch_buffer_size=r.choice([1, 3]))
  elif c == 3:
    it = gex.RepeatIterDataset(it, 2)
  elif c == 4:
    it = gex.FlatMapIterDataset(it, pipes.Fan(2))
  elif c == 5:
    it = gex.InterleaveIterDataset([it, dataset.MapDataset.range(50, 55).to_iter_dataset()], cycle_length=r.choice([1, 2]))
  return it


class Elastic:
  """The part of one of several processes."""
  def __init__(self, *args, **kw):
    self.args, self.kw = args, kw

  def __iter__(self):
    return gex.ElasticIterator(*self.args, **self.kw)


KINDS = ['first', 'best', 'cts', 'pad', 'batch', 'rebatch', 'device', 'limitpack', 'ctsb', 'elastic', 'devput']


def make(r, kind=None):
  """Returns (kind, mk) where mk() builds a fresh dataset."""
  kind = kind or r.choice(KINDS)
  st = r.getrandbits(48)
  import random

  def mk():
    q = random.Random(st)
    it = upstream(q)
    if kind in ('first', 'best', 'limitpack'):
      ca, cb = q.choice([3, 4, 6]), q.choice([2, 4, 5])
      it = it.map(Seqs(ca, cb, q.randrange(9)))
      meta = ('m',) if q.random() < .5 else ()
      ls = {'a': ca, 'b': cb}
      if not meta or q.random() < .3:
        ls['m'] = q.choice([2, 5])
      cls = gex.BestFitPackIterDataset if kind == 'best' else gex.FirstFitPackIterDataset
      kw = {}
      if q.random() < .3:
        kw['max_sequences_per_bin'] = q.choice([1, 2])
      it = cls(it, length_struct=ls, num_packing_bins=q.choice([1, 2, 3, 5]), seed=q.randrange(99),
               shuffle_bins=q.random() < .5, meta_features=meta, **kw)
      if kind == 'limitpack':
        it = gex.LimitIterDataset(it, 4)
      return it
    if kind in ('cts', 'ctsb'):
      ca, cb = q.choice([3, 4, 6]), q.choice([4, 5])
      it = it.map(Seqs(q.choice([3, 9]), q.choice([2, 4]), q.randrange(9))).map(OnlyAB())
      kw = {}
      if q.random() < .5:
        kw = dict(bos_handling=gex.BOSHandling.REPLACE_FIRST_TOKEN_WITH_BOS, bos_features=('a',), bos_token_id=9)
      it = gex.ConcatThenSplitIterDataset(it, length_struct={'a': ca, 'b': cb},
                                          split_full_length_features=q.random() < .5,
                                          meta_features=('b',) if q.random() < .3 and not kw else (), **kw)
      return it.batch(2) if kind == 'ctsb' else it
    if kind == 'pad':
      b = q.choice([2, 3])
      return it.map(Struct()).batch(b, batch_fn=PadBatch(b))
    if kind == 'batch':
      return it.map(Struct()).batch(q.choice([1, 2, 4]), drop_remainder=q.random() < .4)
    if kind == 'rebatch':
      return gex.RebatchIterDataset(it.map(Var(q.randrange(4))), q.choice([1, 2, 3, 5]), drop_remainder=q.random() < .4)
    if kind == 'device':
      return gex.ThreadPrefetchIterDataset(gex.ThreadPrefetchIterDataset(it, prefetch_buffer_size=2).map(Struct()),
                                           prefetch_buffer_size=q.choice([0, 1, 2]))
    if kind == 'devput':
      import jax
      return gex.device_put(it.map(Struct()), jax.devices()[0], cpu_buffer_size=q.choice([1, 2]), device_buffer_size=q.choice([1, 2]))
    if kind == 'elastic':
      so = grain.sharding.ShardOptions(*q.choice([(0, 1), (0, 2), (1, 2)]))
      ro = grain.ReadOptions(num_threads=q.choice([0, 1, 3]), prefetch_buffer_size=2)
      d = dataset.MapDataset.range(q.randrange(4, 15)).shuffle(seed=q.randrange(99)).map(Struct())
      if q.random() < .5:
        return Elastic(d, q.choice([2, 4]), so, read_options=ro)
      d = gex.InterleaveIterDataset([d[i::3].to_iter_dataset() for i in range(3)], cycle_length=q.choice([1, 2, 3]))
      return Elastic(d, q.choice([2, 4]), so, read_options=ro)
    raise ValueError(kind)
  return kind, mk
