"""Builds real Grain pipelines from the syntax trees of spec/Pipe.tla.

The same tree is evaluated by TLC (spec/Pipe.tla) and built here, so that the
elements, lengths, states ... observed on the real pipeline can be compared
with the specification. Everything is picklable (worker processes import this
module).
"""
import atexit
import hashlib
import os
import random
import struct
import time

import numpy as np

import grain
from grain import experimental as gex
from grain._src.core import transforms
from grain._src.python.dataset import dataset
from grain._src.python.dataset.transformations import process_prefetch as _pp
from grain._src.python.dataset.transformations import interleave as _il

M = 9973
NOARG = 99999


def enc(x):
  """Encodes an element as a list of integers (see Pipe.tla)."""
  if x is None:
    return [-2]
  if isinstance(x, (bool, np.bool_)):
    return [int(x)]
  if isinstance(x, (int, np.integer)):
    return [int(x)]
  if isinstance(x, np.ndarray) and x.ndim == 0:
    return [int(x)]
  if isinstance(x, (list, tuple, np.ndarray)):
    out = [-1000 - len(x)]
    for y in x:
      out += enc(y)
    return out
  if isinstance(x, dict):
    out = [-1000 - len(x)]
    for k in sorted(x):
      out += enc(x[k])
    return out
  return [-77]  # not a legal element: never equal to anything in the spec


class Affine:
  def __init__(self, a, b):
    self.a, self.b = a, b
  def __call__(self, x):
    return (self.a * x + self.b) % M


class AffineT(Affine, transforms.Map):
  def map(self, x):
    return self(x)


class WithIndex:
  def __init__(self, a):
    self.a = a
  def __call__(self, i, x):
    return (x + self.a * i) % M


class WithRandom:
  def __call__(self, x, rng):
    return (x + int(rng.integers(0, 5000))) % M


class Draw:
  """Appends a draw to the element; leaves the generator in various states."""
  def __init__(self, tag='', flaky=0):
    self.tag, self.flaky, self.seen = tag, flaky, set()
  def __call__(self, x, rng):
    if self.flaky and x[0] % self.flaky == 1 and x[0] not in self.seen:
      self.seen.add(x[0])
      rng.integers(0, 9)
      raise Boom(1)
    # all accesses to the same position draw the same
    a, b = int(rng.integers(0, 2**30)), int(rng.integers(0, 2**30))
    # what is drawn afterwards must not matter to other positions
    for _ in range(self.n(x)):
      rng.integers(0, 2**32, dtype=np.uint32)
      rng.random(3)
    return x + [(self.tag, a, b)]
  def n(self, x):
    self.k = getattr(self, 'k', 0) + 1
    return self.k % 4


class DrawT(Draw, transforms.RandomMap):
  def random_map(self, x, rng):
    return self(x, rng)


def tolist(x):
  return [int(x)]


class Keep:
  def __init__(self, m, r):
    self.m, self.r = m, r
  def __call__(self, x):
    return bool(x % self.m != self.r)


class KeepT(Keep, transforms.Filter):
  def filter(self, x):
    return self(x)


class WithIndexT(WithIndex, transforms.MapWithIndex):
  def map_with_index(self, i, x):
    return self(i, x)


class Fan(transforms.FlatMap):
  def __init__(self, f):
    self.f = f
    self.max_fan_out = f
  def flat_map(self, x):
    return [(x * 10 + j + 1) % M for j in range(x % (self.f + 1))]


class Boom(RuntimeError):
  """The failure of a user function; code k."""
  def __init__(self, k):
    super().__init__(k)
    self.k = k


class FailIf:
  """Fails on some elements while the flag file exists (seen by all processes)."""
  def __init__(self, m, r, k, flag):
    self.m, self.r, self.k, self.flag = m, r, k, flag
  def __call__(self, x):
    if x is not None and x % self.m == self.r and os.path.exists(self.flag):
      raise Boom(self.k)
    return x


class Slow:
  def __init__(self, m):
    self.m = m
  def __call__(self, x):
    if x is not None and x % self.m == 0:
      time.sleep(0.004)
    return x


class Combine:
  def __call__(self, t):
    acc = 7
    for x in t:
      acc = (acc * 31 + x + 1) % M
    return acc


def yes(x):
  return True


def neg(x):
  return -x


def pair(t):
  """-1 for elements of the two branches that do not belong together."""
  a, b = t
  return int(a) if a == -b else -1


class Source:
  """A random access source of small integers."""
  def __init__(self, xs):
    self._xs = list(xs)
  def __len__(self):
    return len(self._xs)
  def __getitem__(self, i):
    return self._xs[i]
  def __repr__(self):
    return f'Source({self._xs})'


class FromBytes:
  """A record of a file -> an integer."""
  def __call__(self, x):
    return int(bytes(x).decode())


class FromRow:
  """A row of a parquet file -> an integer; all columns belong together."""
  def __call__(self, x):
    v = int(x['v'])
    assert x['s'] == 's%d' % v and int(x['w']) == 2 * v, x
    return v


class UserIterator(grain.DatasetIterator):
  """A source written by a user; its state is falsy at the beginning or the end."""
  def __init__(self, xs, kind):
    super().__init__()
    self._xs, self._kind, self._i = xs, kind, 0
  def __next__(self):
    if self._i >= len(self._xs):
      raise StopIteration
    self._i += 1
    return self._xs[self._i - 1]
  def get_state(self):
    return {'i': self._i, 'l': [7] * self._i, 'd': {'n': self._i} if self._i else {},
            'r': len(self._xs) - self._i}[self._kind]
  def set_state(self, state):
    self._i = (state if self._kind == 'i' else state.get('n', 0) if self._kind == 'd'
               else len(self._xs) - state if self._kind == 'r' else len(state))


class UserDataset(grain.IterDataset):
  def __init__(self, xs, kind):
    super().__init__()
    self._xs, self._kind = xs, kind
  def __iter__(self):
    return UserIterator(self._xs, self._kind)
  def __str__(self):
    return 'UserDataset(%r)' % (self._xs,)


def _path(*key):
  """A file that depends on what it contains only (and whether it exists)."""
  d = os.path.join(os.environ.get('SCRATCH', '/tmp'), 'files')
  os.makedirs(d, exist_ok=True)
  f = os.path.join(d, hashlib.sha1(repr(key).encode()).hexdigest()[:16])
  return f, os.path.exists(f)


def _record(xs):
  """TFRecord file; the checksums are not looked at."""
  f, there = _path('tfrecord', xs)
  if not there:
    tmp = '%s.%d' % (f, os.getpid())
    with open(tmp, 'wb') as o:
      for x in xs:
        b = str(x).encode()
        o.write(struct.pack('<QI', len(b), 0) + b + struct.pack('<I', 0))
    os.rename(tmp, f)
  return f


def _parquet(groups):
  f, there = _path('parquet', groups)
  if not there:
    import pyarrow as pa
    import pyarrow.parquet as pq
    sch = pa.schema([('v', pa.int64()), ('s', pa.string()), ('w', pa.int32())])
    tmp = '%s.%d' % (f, os.getpid())
    with pq.ParquetWriter(tmp, sch) as w:
      for g in groups:
        w.write_table(pa.table({'v': g, 's': ['s%d' % x for x in g], 'w': [2 * x for x in g]}, schema=sch),
                      row_group_size=max(len(g), 1))
    os.rename(tmp, f)
  return f


def _arecord(xs):
  f, there = _path('array_record', xs)
  if not there:
    from array_record.python import array_record_module
    tmp = '%s.%d' % (f, os.getpid())
    w = array_record_module.ArrayRecordWriter(tmp, 'group_size:%d' % (1 + len(xs) % 3))
    for x in xs:
      w.write(str(x).encode())
    w.close()
    os.rename(tmp, f)
  return f


def _source(xs, kind):
  """A random access source of one of the types that are part of Grain."""
  if kind == 'ar':
    k = len(xs) // 2
    return dataset.MapDataset.source(grain.sources.ArrayRecordDataSource(
        [_arecord(x) for x in (xs[:k], xs[k:]) if x])).map(FromBytes())
  if kind == 'shm':
    d = grain.sources.SharedMemoryDataSource(xs)
    atexit.register(_unlink, d.shm)
    return dataset.MapDataset.source(d)
  return dataset.MapDataset.source(Source(xs) if kind else xs)


def _unlink(shm):
  try:
    shm.unlink()
  except OSError:
    pass


def _sl(v):
  return None if v == NOARG else v


SHARED = {}   # datasets that several pipelines have in common


def mbuild(p):
  """Builds the MapDataset of a random-access tree."""
  if 'share' in p:
    if p['share'] not in SHARED:
      SHARED[p['share']] = mbuild({k: v for k, v in p.items() if k != 'share'})
    return SHARED[p['share']]
  op = p['op']
  if op == 'src':
    xs = [x[0] for x in p['xs']]
    return _source(xs, p.get('cls'))
  if op == 'range':
    if p.get('cls'):
      return dataset.MapDataset.source(grain.sources.RangeDataSource(p['start'], p['stop'], p['step']))
    return dataset.MapDataset.range(p['start'], p['stop'], p['step'])
  if op == 'concat':
    return dataset.MapDataset.concatenate([mbuild(q) for q in p['ps']])
  if op == 'select':
    if 'w' in p:
      return dataset.MapDataset.mix([mbuild(q) for q in p['ps']], p['w'])
    return dataset.MapDataset.select_from_datasets([mbuild(q) for q in p['ps']], SelMap(p['ds'], p['ks']))
  if op == 'zip':
    return gex.ZipMapDataset([mbuild(q) for q in p['ps']]).map(Combine())
  ts, q = chain(p)
  if len(ts) > 1 or ts and op != 'map':
    return mbuild(q).apply(ts if len(ts) > 1 else ts[0])
  d = mbuild(p['p'])
  if op == 'map':
    return d.map(AffineT(p['a'], p['b']) if p.get('cls') else Affine(p['a'], p['b']))
  if op == 'mapidx':
    return d.map_with_index(WithIndex(p['a']))
  if op == 'rmap':
    return d.random_map(WithRandom(), seed=p['seed'])
  if op == 'filter':
    return d.filter(Keep(p['m'], p['r']))
  if op == 'shuffle':
    return d.shuffle(seed=p['seed'])
  if op == 'wshufm':
    return gex.WindowShuffleMapDataset(d, window_size=p['w'], seed=p['seed'])
  if op == 'slice':
    return d.slice(slice(_sl(p['start']), _sl(p['stop']), _sl(p['step'])))
  if op == 'reindex':
    return d.slice(p['idx'])
  if op == 'repeat':
    return d.repeat(None if p.get('inf') else p['n'], reseed_each_epoch=p['reseed'])
  if op == 'flatmap':
    return gex.FlatMapMapDataset(d, Fan(p['f']))
  if op == 'batch':
    return d.batch(p['b'], drop_remainder=p['drop'])
  if op == 'seed':
    return d.seed(p['s'])
  if op == 'fail':
    return d.map(FailIf(p['m'], p['r'], p['k'], p['flag']))
  if op == 'slow':
    return d.map(Slow(p['m']))
  raise ValueError(op)


class Drift:
  """Changes what it returns when the same position is read again."""
  def __init__(self):
    self.seen = {}
  def __call__(self, i, x):
    k = self.seen[i] = self.seen.get(i, -1) + 1
    return (x + k) % M if k else x


class SelMap(grain.DatasetSelectionMap if hasattr(grain, 'DatasetSelectionMap') else object):
  def __init__(self, ds, ks):
    self.ds, self.ks = ds, ks
  def __len__(self):
    return len(self.ds)
  def __getitem__(self, i):
    return self.ds[i], self.ks[i]


def transform(p):
  """Transformation of some of the nodes."""
  op = p['op']
  if op == 'map' and p.get('cls'):
    return AffineT(p['a'], p['b'])
  if op == 'filter' and (p['m'] + p['r']) % 2:
    return KeepT(p['m'], p['r'])
  if op == 'mapidx' and p['a'] % 2:
    return WithIndexT(p['a'])
  if op == 'flatmap' and p['f'] % 2:
    return Fan(p['f'])
  if op == 'batch' and p['b'] % 2 == 0:
    return transforms.Batch(p['b'], p['drop'])
  return None


def chain(p):
  """Transformations at the top (that are applied together) and what is below."""
  ts, q = [], p
  while not (ts and 'share' in q):
    t = transform(q)
    if t is None:
      break
    ts.insert(0, t)
    q = q['p']
  return ts, q


class Make:
  """An input of an interleave; 'bare' ones are random-access datasets."""
  def __init__(self, p):
    self.p = p


def made(m):
  p = m.p
  return mbuild(p['p']) if p.get('bare') and p['op'] == 'iter' and 't' not in p and not p['nones'] else ibuild(p)


def ibuild(p):
  """Builds the IterDataset of an iterator tree."""
  if 'share' in p:
    if p['share'] not in SHARED:
      SHARED[p['share']] = ibuild({k: v for k, v in p.items() if k != 'share'})
    return SHARED[p['share']]
  op = p['op']
  if op == 'file':
    fs = [[[x[0] for x in g] for g in f] for f in p['files']]
    if p['fmt'] == 'tfrecord':
      fs = [gex.TFRecordIterDataset(_record(sum(f, []))) for f in fs]
      return (fs[0] if len(fs) == 1 else gex.InterleaveIterDataset(fs, cycle_length=16)).map(FromBytes())
    if p['fmt'] == 'user':
      fs = [UserDataset(sum(f, []), p['st']) for f in fs]
      return fs[0] if len(fs) == 1 else gex.InterleaveIterDataset(fs, cycle_length=16)
    fs = [_parquet(f) for f in fs]
    return gex.ParquetIterDataset(fs[0] if len(fs) == 1 and p.get('cls') else fs).map(FromRow())
  if op == 'iter':
    d = mbuild(p['p'])
    ro = None
    if 't' in p:
      ro = grain.ReadOptions(num_threads=p['t'], prefetch_buffer_size=p['bs'])
    return d.to_iter_dataset(ro, allow_nones=p['nones'])
  if op == 'zip':
    return gex.ZipIterDataset([ibuild(q) for q in p['ps']], strict=bool(p.get('strict'))).map(Combine())
  if op == 'mix':
    return dataset.IterDataset.mix([ibuild(q) for q in p['ps']], p['w'])
  if op == 'inter':
    ps = [Make(q) for q in p['ps']]
    ps = (dataset.MapDataset.source(ps).map(made) if p.get('lazy') and ps else [made(q) for q in ps])
    return gex.InterleaveIterDataset(
        ps, cycle_length=p['c'],
        num_make_iter_threads=p.get('mt', 1), make_iter_buffer_size=p.get('mb', 1),
        iter_buffer_size=p.get('ib', 1))
  ts, q = chain(p)
  if len(ts) > 1 or ts and op != 'map':
    return ibuild(q).apply(ts if len(ts) > 1 else ts[0])
  d = ibuild(p['p'])
  if op == 'map':
    return d.map(AffineT(p['a'], p['b']) if p.get('cls') else Affine(p['a'], p['b']))
  if op == 'mapidx':
    return d.map_with_index(WithIndex(p['a']))
  if op == 'rmap':
    return d.random_map(WithRandom(), seed=p['seed'])
  if op == 'filter':
    return d.filter(Keep(p['m'], p['r']))
  if op == 'flatmap':
    return gex.FlatMapIterDataset(d, Fan(p['f']))
  if op == 'limit':
    return gex.LimitIterDataset(d, p['n'])
  if op == 'repeat':
    return gex.RepeatIterDataset(d, None if p.get('inf') else p['n'])
  if op == 'batch':
    return d.batch(p['b'], drop_remainder=p['drop'])
  if op == 'rebatch':
    return gex.RebatchIterDataset(d, p['b'], drop_remainder=p['drop'])
  if op == 'wshuf':
    return gex.WindowShuffleIterDataset(d, window_size=p['w'], seed=p['seed'])
  if op == 'cache':
    return gex.CacheIterDataset(d)
  if op == 'thr':
    return gex.ThreadPrefetchIterDataset(d, prefetch_buffer_size=p['bs'])
  if op == 'proc':
    return _pp.ProcessPrefetchIterDataset(d, buffer_size=p['bs'])
  if op == 'opts':
    return dataset.WithOptionsIterDataset(d, grain.experimental.DatasetOptions(**p.get('kw', {}))) \
        if hasattr(gex, 'DatasetOptions') else d
  if op == 'seed':
    return d.seed(p['s'])
  if op == 'mp':
    return d.mp_prefetch(grain.MultiprocessingOptions(num_workers=p['n'], per_worker_buffer_size=p.get('bs', 1)))
  if op == 'mt':
    return gex.multithread_prefetch(d, num_threads=p['n'], buffer_size=p.get('bs', 1))
  if op == 'fail':
    return d.map(FailIf(p['m'], p['r'], p['k'], p['flag']))
  if op == 'slow':
    return d.map(Slow(p['m']))
  if op == 'drift':
    return d.map_with_index(Drift())
  raise ValueError(op)


# --------------------------------------------------------------------------
# Tables for operators that the specification leaves open (permutations,
# random draws, selections). They are observed on stand-alone datasets and
# checked by the specification; in a pipeline they must be reproduced exactly.
# --------------------------------------------------------------------------
def shuffle_tabs(n, seed, epochs):
  d = dataset.MapDataset.range(n).map_with_index(lambda i, x: x).shuffle(seed=seed)
  return [perm([int(d[e * n + i]) for i in range(n)], n) for e in range(epochs)]


def wshufm_tabs(n, w, seed, epochs):
  d = gex.WindowShuffleMapDataset(dataset.MapDataset.range(n), window_size=w, seed=seed)
  return [perm([int(d[e * n + i]) for i in range(n)], n) for e in range(epochs)]


def wshuf_tabs(n, w, seed):
  """tabs[k][s-1]: the permutation of the k-th window if it has s elements."""
  tabs = []
  for k in range(-(-n // w) + 2):
    row = []
    for s in range(1, w + 1):
      row.append(_window(k, s, w, seed))
    tabs.append(row)
  return tabs


_windows = {}


def _window(k, s, w, seed):
  if (k, s, w, seed) not in _windows:
    d = gex.WindowShuffleIterDataset(dataset.MapDataset.range(k * w + s).to_iter_dataset(
        grain.ReadOptions(num_threads=0, prefetch_buffer_size=0)), window_size=w, seed=seed)
    _windows[k, s, w, seed] = perm([int(x) - k * w for x in d][k * w:], s)
  return _windows[k, s, w, seed]


def rmap_tab(n, seed):
  d = dataset.MapDataset.source([0] * n).random_map(lambda x, rng: int(rng.integers(0, 5000)), seed=seed)
  return [int(d[i]) for i in range(n)]


def irmap_tab(n, seed):
  d = dataset.MapDataset.source([0] * n).to_iter_dataset().random_map(lambda x, rng: int(rng.integers(0, 5000)), seed=seed)
  return [int(x) for x in d]


def mix_table(lens, w, n):
  """First n selections of a mixture: component and key."""
  big = 10**6
  ds = dataset.MapDataset.mix([dataset.MapDataset.range(i * big, (i + 1) * big) for i in range(len(lens))], w)
  sel = [divmod(int(ds[i]), big) for i in range(n)]
  if any(not 0 <= a < len(lens) for a, _ in sel):
    raise BadTable(sel)
  return [a for a, _ in sel], [b for _, b in sel]


class BadTable(Exception):
  """An observed table is not even of the right kind: decided by C07, C10."""


def perm(t, n):
  if sorted(t) != list(range(n)):
    raise BadTable(t)
  return t


class Unusable(Exception):
  """The real pipeline cannot be built or iterated."""
  def __init__(self, p, e):
    super().__init__(repr(e))
    self.p, self.e = p, e


def draw(mk, big=60, tries=300):
  """A random iterator pipeline with its tables; mk() makes a candidate tree."""
  for _ in range(tries):
    p = mk()
    if p is None:
      continue
    try:
      p = iresolve(p)
      n = icount(p)
    except BadTable:
      continue
    except Exception as e:
      raise Unusable(p, e) from e
    if n <= big:
      return p, n
  raise BadTable('no usable pipeline')


# --------------------------------------------------------------------------
# Lengths (mirror of MLen in Pipe.tla, only used to size the tables).
# --------------------------------------------------------------------------
def plen(p):
  op = p['op']
  if op == 'src':
    return len(p['xs'])
  if op == 'range':
    return len(range(p['start'], p['stop'], p['step']))
  if op == 'concat':
    return sum(plen(q) for q in p['ps'])
  if op == 'select':
    return p['len']
  if op == 'zip':
    return plen(p['ps'][0])
  n = plen(p['p'])
  if op == 'slice':
    return len(range(n)[slice(_sl(p['start']), _sl(p['stop']), _sl(p['step']))])
  if op == 'reindex':
    return len(p['idx'])
  if op == 'repeat':
    return n * p['n']
  if op == 'flatmap':
    return n * p['f']
  if op == 'batch':
    return n // p['b'] if p['drop'] else -(-n // p['b'])
  return n


def resolve(p, need=None):
  """Fills the tables of a random-access tree for indices below `need`."""
  op = p['op']
  n = plen(p)
  need = n if need is None else need
  if op in ('src', 'range'):
    return p
  if op == 'concat':
    ep = -(-need // n)
    return {**p, 'ps': [resolve(q, ep * plen(q)) for q in p['ps']]}
  if op == 'zip':
    return {**p, 'ps': [resolve(q, need) for q in p['ps']]}
  if op == 'select':
    lens = [plen(q) for q in p['ps']]
    ds, ks = mix_table(lens, p['w'], max(need, n))
    return {**p, 'ds': ds, 'ks': ks, 'w': p['w'],
            'ps': [resolve(q, max([k for d, k in zip(ds, ks) if d == j], default=-1) + 1)
                   for j, q in enumerate(p['ps'])]}
  m = plen(p['p'])
  ep = -(-need // n) if n else 0
  if op == 'rmap':
    return {**p, 'p': resolve(p['p'], need), 'tab': rmap_tab(max(need, 1), p['seed'])}
  if op == 'shuffle':
    return {**p, 'p': resolve(p['p'], ep * m), 'tabs': shuffle_tabs(m, p['seed'], ep)}
  if op == 'wshufm':
    return {**p, 'p': resolve(p['p'], ep * m), 'tabs': wshufm_tabs(m, p['w'], p['seed'], ep)}
  if op in ('slice', 'reindex', 'batch'):
    return {**p, 'p': resolve(p['p'], ep * m)}
  if op == 'repeat':
    return {**p, 'p': resolve(p['p'], need if p['reseed'] else m)}
  if op == 'flatmap':
    return {**p, 'p': resolve(p['p'], -(-need // p['f']))}
  return {**p, 'p': resolve(p['p'], need)}


def strip_proc(p):
  """The same pipeline without worker processes."""
  if p['op'] == 'proc':
    return strip_proc(p['p'])
  if p['op'] == 'mp':
    return {**p, 'op': 'mt', 'p': strip_proc(p['p'])}
  if 'ps' in p:
    return {**p, 'ps': [strip_proc(q) for q in p['ps']]}
  if 'p' in p and p['op'] != 'iter':
    return {**p, 'p': strip_proc(p['p'])}
  return p


def icount(p):
  return len(list(ibuild(strip_proc(p))))


def iresolve(p):
  """Fills the tables of an iterator tree."""
  op = p['op']
  if op == 'file':
    return p
  if op == 'iter':
    return {**p, 'p': resolve(p['p'])}
  if 'ps' in p:
    ps = [iresolve(q) for q in p['ps']]
    if op == 'mix':
      tot = sum(icount(q) for q in p['ps']) + 2 * len(ps) + 200
      return {**p, 'ps': ps, 'sel': mix_table([1] * len(ps), p['w'], tot)[0]}
    return {**p, 'ps': ps}
  q = iresolve(p['p'])
  if op == 'rmap':
    # (workers use every n-th draw)
    return {**p, 'p': q, 'tab': irmap_tab(3 * icount(p['p']) + 12, p['seed'])}
  if op == 'wshuf':
    return {**p, 'p': q, 'tabs': wshuf_tabs(icount(p['p']), p['w'], p['seed'])}
  return {**p, 'p': q}


# --------------------------------------------------------------------------
# Random trees.
# --------------------------------------------------------------------------
class Gen:
  """Generates random trees; size limits keep the specification cheap.

  Kinds of elements: 'a' atoms, 's' atoms or None, 'b' batches.
  """

  def __init__(self, rng, maxlen=24, mops=None, iops=None, maxn=10, files=False):
    self.files = files
    self.r = rng
    self.maxlen = maxlen
    self.mops = mops
    self.iops = iops
    self.maxn = maxn

  def src(self, n=None):
    r = self.r
    n = r.randrange(1, self.maxn + 1) if n is None else n
    k = r.randrange(3)
    if k == 0 and n > 0:
      st = r.choice([1, 2, 3])
      a = r.randrange(5)
      return {'op': 'range', 'start': a, 'stop': a + n * st - r.randrange(st), 'step': st, 'cls': self.files and r.random() < .4}
    xs = [[r.randrange(500)] for _ in range(n)]
    return {'op': 'src', 'xs': xs, 'cls': r.choice(['ar', 'shm', True]) if self.files and k == 2 else k == 2}

  def file(self):
    r = self.r
    many = r.random() < .15   # more than are open at the same time
    fmt = r.choice(['tfrecord', 'parquet'] + ['user'] * (self.files != 'closable'))

    def group(k):
      return [[r.randrange(500)] for _ in range(r.randrange(k))]

    def one():
      if many:
        return [[[r.randrange(500)] for _ in range(r.choice([1, 1, 2]))]]
      return [group(5) or [[r.randrange(500)]]] + [group(5) for _ in range(r.randrange(3))]
    fs = [one() for _ in range(r.randrange(17, 20) if many else r.choice([1, 1, 1, 2, 3]))]
    return {'op': 'file', 'fmt': fmt, 'files': fs, 'cls': r.random() < .5, 'st': r.choice('ildr')}

  def mtree(self, depth, n=None, dense=False, top=None):
    p, kind = self.src(n), 'a'
    for d in range(depth):
      p, kind = self.mop(p, kind, dense, top if d == depth - 1 else None)
    return p, kind

  def atoms(self, depth, n=None):
    while True:
      p, kind = self.mtree(depth, n, dense=True)
      if kind == 'a' and (n is None or plen(p) == n):
        return p

  def mop(self, p, kind, dense=False, op=None):
    r = self.r
    n = plen(p)
    ops = ['map', 'map', 'mapidx', 'rmap', 'shuffle', 'wshufm', 'slice', 'reindex', 'repeat', 'seed']
    if kind != 'b':
      ops += ['concat', 'select']
    if kind == 'a':
      ops += ['zip', 'batch']
    if kind in 'as' and not dense:
      ops += ['filter', 'flatmap']
    if self.mops:
      ops = [o for o in ops if o in self.mops] or ['map']
    if op not in ops:
      op = r.choice(ops)
    if n == 0:
      op = 'map'
    if n > self.maxlen:
      op = 'slice'
    if op == 'map':
      return {'op': op, 'p': p, 'a': r.randrange(1, 50), 'b': r.randrange(99), 'cls': r.random() < .3}, kind
    if op == 'mapidx':
      return {'op': op, 'p': p, 'a': r.randrange(1, 20)}, kind
    if op == 'rmap':
      return {'op': op, 'p': p, 'seed': r.randrange(1000)}, kind
    if op == 'shuffle':
      return {'op': op, 'p': p, 'seed': r.choice([r.randrange(1000), 2**32 - 1 - r.randrange(3)])}, kind
    if op == 'wshufm':
      return {'op': op, 'p': p, 'seed': r.randrange(1000), 'w': r.randrange(1, n + 2)}, kind
    if op == 'slice':
      while True:
        st = r.choice([NOARG, 1, 1, 2, 3, -1, -2])
        a, b = (r.choice([NOARG, r.randrange(-n - 1, n + 2)]) for _ in range(2))
        if 0 < len(range(n)[slice(_sl(a), _sl(b), _sl(st))]) <= self.maxlen:
          return {'op': op, 'p': p, 'start': a, 'stop': b, 'step': st}, kind
    if op == 'reindex':
      return {'op': op, 'p': p, 'idx': [r.randrange(n) for _ in range(r.randrange(1, n + 1))]}, kind
    if op == 'repeat':
      return {'op': op, 'p': p, 'n': r.choice([1, 2, 3]), 'reseed': r.random() < .6}, kind
    if op in ('concat', 'select'):
      ps = [p] + [self.atoms(r.randrange(2)) for _ in range(r.choice([1, 1, 2]))]
      r.shuffle(ps)
      if op == 'concat':
        return {'op': op, 'ps': ps}, kind
      w = [r.choice([1, 1, 2, 3, 5, 0.3, 0.7]) for _ in ps]
      ln = len(dataset.MapDataset.mix([dataset.MapDataset.range(plen(q)) for q in ps], w))
      if ln == 0:
        return {'op': 'map', 'p': p, 'a': 3, 'b': 1, 'cls': False}, kind
      return {'op': op, 'ps': ps, 'w': w, 'len': ln}, kind
    if op == 'zip':
      ps = [p, self.atoms(0, n)]
      r.shuffle(ps)
      return {'op': op, 'ps': ps}, kind
    if op == 'filter':
      m = r.choice([2, 3])
      return {'op': op, 'p': p, 'm': m, 'r': r.randrange(m)}, 's'
    if op == 'flatmap':
      return {'op': op, 'p': p, 'f': r.choice([1, 2, 3])}, 's'
    if op == 'batch':
      b = r.randrange(1, n + 2)
      return {'op': op, 'p': p, 'b': b, 'drop': r.random() < .3 and n >= b}, 'b'
    return {'op': 'seed', 'p': p, 's': r.randrange(99)}, kind

  # ---- iterator trees; kinds 'a', 'b' and 'n' (None allowed) ----
  def leaf(self, mdepth=None, kind=None):
    r = self.r
    if self.files and kind in (None, 'a') and r.random() < .2:
      return self.file(), 'a'
    while True:
      p, k = self.mtree(r.choice([0, 0, 1, 2]) if mdepth is None else mdepth)
      if plen(p) <= self.maxlen and (kind is None or (k in 'as') == (kind == 'a')):
        break
    q = {'op': 'iter', 'p': p, 'nones': k == 's' and kind is None and r.random() < .2}
    if r.random() < .7:
      q['t'], q['bs'] = r.choice([(0, 0), (1, 1), (2, 3), (4, 2), (3, 20)])
    return q, ('n' if q['nones'] else 'a' if k in 'as' else 'b')

  def itree(self, depth, top=None, kind=None):
    p, k = self.leaf(kind=kind)
    for d in range(depth):
      p, k = self.iop(p, k, top if d == depth - 1 else None)
    return p, k

  IOPS = {'a': ['map', 'mapidx', 'rmap', 'filter', 'flatmap', 'batch', 'batch', 'limit', 'repeat', 'wshuf',
                'cache', 'thr', 'zip', 'mix', 'inter', 'inter', 'mt'],
          'b': ['map', 'mapidx', 'rmap', 'rebatch', 'rebatch', 'limit', 'repeat', 'wshuf', 'cache', 'thr',
                'inter', 'mt', 'mix'],
          'n': ['map', 'mapidx', 'limit', 'repeat', 'wshuf', 'cache', 'thr']}

  def iop(self, p, kind, op=None):
    r = self.r
    ops = [o for o in self.IOPS[kind] if not self.iops or o in self.iops] or ['map']
    if op is None or (op not in self.IOPS[kind] and op not in ('proc', 'mp', 'opts')):
      op = r.choice(ops)
    if op in ('mt', 'mp') and not sliceable(p):
      op = 'thr'
    if op == 'rmap' and has(p, ('mt', 'mp', 'inter')):
      pass
    if op == 'map':
      return {'op': op, 'p': p, 'a': r.randrange(1, 50), 'b': r.randrange(99), 'cls': r.random() < .3}, kind
    if op == 'mapidx':
      return {'op': op, 'p': p, 'a': r.randrange(1, 20)}, kind
    if op == 'rmap':
      return {'op': op, 'p': p, 'seed': r.randrange(1000)}, kind
    if op == 'filter':
      m = r.choice([2, 3])
      return {'op': op, 'p': p, 'm': m, 'r': r.randrange(m)}, kind
    if op == 'flatmap':
      return {'op': op, 'p': p, 'f': r.choice([1, 2, 3])}, kind
    if op == 'batch':
      return {'op': op, 'p': p, 'b': r.choice([1, 2, 3, 4, 7]), 'drop': r.random() < .3}, 'b'
    if op == 'rebatch':
      return {'op': op, 'p': p, 'b': r.choice([1, 2, 3, 4, 5]), 'drop': r.random() < .3}, kind
    if op == 'limit':
      return {'op': op, 'p': p, 'n': r.randrange(1, 12)}, kind
    if op == 'repeat':
      return {'op': op, 'p': p, 'n': r.choice([1, 2, 3])}, kind
    if op == 'wshuf':
      return {'op': op, 'p': p, 'w': r.choice([1, 2, 3, 5]), 'seed': r.choice([r.randrange(1000), 2**32 - 2])}, kind
    if op in ('cache', 'opts'):
      return {'op': op, 'p': p}, kind
    if op in ('thr', 'proc'):
      return {'op': op, 'p': p, 'bs': r.choice([1, 2, 3]) if op == 'proc' else r.choice([0, 1, 2, 5])}, kind
    if op in ('mp', 'mt'):
      return {'op': op, 'p': p, 'n': r.choice([1, 2, 3]), 'bs': r.choice([1, 2])}, kind
    k = r.choice([1, 1, 2, 3]) if op == 'inter' else 1
    ps = [p]
    for _ in range(k):
      for _ in range(50):
        q, kk = self.itree(r.choice([0, 0, 1]), kind='a' if kind == 'a' else None)
        if kk == kind:
          ps.append(q)
          break
    r.shuffle(ps)
    if op == 'zip':
      return {'op': op, 'ps': ps}, kind
    if op == 'mix':
      return {'op': op, 'ps': ps, 'w': [r.choice([1, 1, 2, 3, 0.5]) for _ in ps]}, kind
    return {'op': 'inter', 'ps': ps, 'c': r.randrange(1, len(ps) + 2), 'mt': r.choice([1, 2]),
            'mb': r.choice([1, 2]), 'ib': r.choice([1, 2, 3])}, kind


def has(p, ops):
  return p['op'] in ops or ('p' in p and has(p['p'], ops)) or any(has(q, ops) for q in p.get('ps', ()))


def sliceable(p):
  """Whether workers can read slices of the iterator pipeline."""
  if p['op'] in ('mp', 'mt', 'proc'):
    return False
  if p['op'] == 'file':   # slices of the list of files
    return p['fmt'] == 'parquet' or len(p['files']) > 1
  if p['op'] == 'iter':
    return True
  if p['op'] == 'inter':
    return True
  if 'ps' in p:
    return all(sliceable(q) for q in p['ps'])
  return sliceable(p['p'])


def ops_of(p, acc=None):
  acc = [] if acc is None else acc
  acc.append(p['op'])
  for q in ([p['p']] if 'p' in p else []) + list(p.get('ps', ())):
    ops_of(q, acc)
  return acc


def clean(p, healthy=True):
  """The tree as TLC reads it (no floats, no big integers)."""
  d = {k: v for k, v in p.items() if k not in ('w', 'seed', 'cls', 't', 'bs', 'mt', 'mb', 'ib', 'kw', 'flag', 'inf', 'share', 'lazy', 'bare')}
  if p['op'] in ('slow', 'drift') or (p['op'] == 'fail' and healthy):
    d = {'op': 'seed', 'p': p['p']}
  if p['op'] in ('wshuf', 'wshufm'):
    d['w'] = p['w']
  if 'p' in d:
    d['p'] = clean(d['p'], healthy)
  if 'ps' in d:
    d['ps'] = [clean(q, healthy) for q in d['ps']]
  return d


def rewrite(p, f):
  """Applies f to every node, bottom up."""
  q = dict(p)
  if 'p' in q:
    q['p'] = rewrite(q['p'], f)
  if 'ps' in q:
    q['ps'] = [rewrite(x, f) for x in q['ps']]
  return f(q)


def insert(p, r, prob, mk):
  """Puts mk(child) above a random selection of the sources (and at least one)."""
  n = sum(o in ('src', 'range', 'file') for o in ops_of(p))
  must = r.randrange(n)
  c = [-1]

  def f(q):
    if q['op'] in ('src', 'range', 'file'):
      c[0] += 1
      if c[0] == must or r.random() < prob:
        return mk(q)
    return q
  return rewrite(p, f)


class ListOp(transforms.Map):
  def map(self, x):
    return [int(x)]
