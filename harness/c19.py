"""Arrays in shared memory (C19): the operations themselves, and pipelines with workers."""
import copy
import gc
import json
import os
import pickle
import time

import numpy as np

import grain
from grain import experimental as gex
from grain._src.core import tree_lib
from grain._src.python.dataset.transformations import batch as batch_lib
from grain._src.python.dataset.transformations import process_prefetch as pp
from grain._src.python.ipc import shared_memory_array as sma

import common
import shmsrc

out = common.Out()
common.fast_workers(['shmsrc', 'grain', 'grain._src.python.dataset.transformations.process_prefetch'])
hists = json.load(open(os.environ['HISTS']))
N = int(os.environ.get('N', '20'))
NP = int(os.environ.get('NP', '10'))
TAG = shmsrc.tag(os.getpid())
shmsrc.prefix(TAG)
SHM = sma.SharedMemoryArray


STUCK = []         # traces with blocks that are not released


class Stuck(Exception):
  pass


class World:
  """Slots, messages and the blocks that exist."""

  def __init__(self, r, trace):
    self.r, self.t, self.ev = r, trace, trace['ev']
    self.a = {}          # slot -> array
    self.mirror = {}     # slot -> what it should look like, an array that is never shared
    self.msg = {}
    self.names = {}
    self.free = set()    # names of blocks nobody has to release
    self.held_msg = set()
    self.spare = 0

  def num(self, name):
    return self.names.setdefault(name.lstrip('/'), len(self.names) + 1)

  def files(self):
    return {f for f in os.listdir('/dev/shm') if f.startswith(TAG)}

  def block(self, x):
    """The block of an array that is all of it, else 0."""
    if isinstance(x, sma.SharedMemoryArrayMetadata):
      return self.num(x.name)
    if isinstance(x, SHM) and not x._is_view():  # pylint: disable=protected-access
      return self.num(x.shm.name)
    return 0

  def root(self, x, releases=False):
    while x is not None:
      if isinstance(x, SHM) and not x._is_view():  # pylint: disable=protected-access
        return x.shm.name.lstrip('/') if not (releases and hasattr(x, 'other')) else None
      x = getattr(x, 'base', None)

  def needed(self):
    s = set(self.free) | set(self.t.get('basenames', ()))
    for x in self.a.values():
      n = self.root(x, True)
      if n:
        s.add(n)
    return s | self.sent()

  def sent(self):
    return {n for names in self.msg.values() for n in names[1]}

  def settle(self):
    """Blocks are released in the background, some once the garbage collector has been there."""
    start = time.monotonic()
    n = 0
    while True:
      f = self.files()
      if len(f - self.needed()) <= self.spare:
        return f
      if time.monotonic() > start + 4:
        STUCK.append(self.t['id'])
        return f
      time.sleep(0.002)
      n += 1
      if n % 20 == 0:
        gc.collect()

  def log(self, **e):
    f = self.settle()
    e['live'] = sorted(self.num(n) for n in f)
    e['vals'] = [[s, shmsrc.digest(x)] for s, x in sorted(self.a.items())]
    self.ev.append(e)
    if STUCK.count(self.t['id']) > 1:
      raise Stuck()         # the verdict is clear

  def drop(self, ss):
    for s in ss:
      del self.a[s]
      self.mirror.pop(s, None)

  def clean(self):
    for data, _, _ in self.msg.values():
      try:
        sma.unlink_shm(pickle.loads(data))
      except FileNotFoundError:
        pass
    self.a.clear()
    self.mirror.clear()
    self.msg.clear()
    gc.collect()
    end = time.monotonic() + 2
    while not self.files() <= self.free and time.monotonic() < end:
      time.sleep(0.002)
    for n in self.files():
      try:
        os.unlink('/dev/shm/' + n)
      except FileNotFoundError:
        pass


VIEWS = [lambda a: a[...], lambda a: a[1:] if a.ndim else a[...], lambda a: a.T, lambda a: a[::-1] if a.ndim else a[...],
         lambda a: a[None], lambda a: a[..., :1] if a.ndim else a[...], lambda a: a.view()]
PLAIN = [lambda a: np.asarray(a) if not isinstance(a, np.ma.MaskedArray) else a[...],
         lambda a: a.view(np.ndarray) if not isinstance(a, np.ma.MaskedArray) else a[...]]


SLOTS = range(1, 13)
DEFAULTS = {}


class Ops:
  """The operations on arrays; nothing here keeps references to them."""

  def __init__(self, r, w):
    self.r, self.w = r, w

  def can(self, o):
    """Operations on empty slots are left out (an earlier one could not be done)."""
    a = self.w.a
    op = o['op']
    if op in ('view', 'copy', 'pickle', 'batch'):
      return o['s'] in a and o['t'] not in a
    if op == 'new':
      return o['t'] not in a
    if op in ('write', 'drop'):
      return o['s'] in a
    if op == 'send':
      return o['m'] not in self.w.msg and all(s in a for s in o['ss'])
    if op in ('recv', 'discard'):
      return o['m'] in self.w.msg
    return True

  def new(self, o):
    r, w = self.r, self.w
    x = shmsrc.leaf(r)
    if o['k'] == 'plain':
      w.mirror[o['t']] = copy.deepcopy(x)
    else:
      if x.dtype.hasobject or isinstance(x, np.ma.MaskedArray):
        x = np.arange(6.)
      y = SHM(x.shape, x.dtype)
      np.copyto(y, x, casting='no')
      if o['k'] == 'ownrel':
        y.unlink_on_del()
      else:
        w.free.add(y.shm.name.lstrip('/'))
      w.mirror[o['t']] = np.array(x)
      x = y
    w.a[o['t']] = x
    return dict(t=o['t'], k=o['k'], b=w.block(x), d=shmsrc.digest(w.mirror[o['t']]))

  def view(self, o):
    w = self.w
    f = self.r.choice(VIEWS + PLAIN)
    w.a[o['t']] = f(w.a[o['s']])
    w.mirror[o['t']] = f(w.mirror[o['s']])
    return dict(s=o['s'], t=o['t'], d=shmsrc.digest(w.mirror[o['t']]))

  def copy(self, o):
    w = self.w
    f = self.r.choice([lambda a: a.copy(), copy.deepcopy, lambda a: np.array(a, subok=True)])
    w.a[o['t']] = f(w.a[o['s']])
    w.mirror[o['t']] = copy.deepcopy(w.mirror[o['s']])
    return dict(s=o['s'], t=o['t'])

  def pickle(self, o):
    w = self.w
    n1 = w.root(w.a[o['s']])
    if n1 is not None and n1 not in w.files():
      return None            # its block has a new owner who has released it
    x = w.a[o['t']] = pickle.loads(pickle.dumps(w.a[o['s']]))
    b = w.block(x)
    if b:
      x.other = True          # somebody else releases it
    w.mirror[o['t']] = w.mirror[o['s']] if b else copy.deepcopy(w.mirror[o['s']])
    return dict(s=o['s'], t=o['t'], b=b)

  def write(self, o):
    r, w = self.r, self.w
    a, c = w.a[o['s']], w.mirror[o['s']]
    if isinstance(a, np.ma.MaskedArray) or not a.flags.writeable or not c.flags.writeable or a.dtype.hasobject or w.root(a) in w.sent():
      return None
    v = shmsrc.fill(r, a.shape, 'rec') if a.dtype.names else np.array([r.randint(0, 99) for _ in range(a.size)], dtype=np.int64).reshape(a.shape)
    if a.dtype.kind == 'M':
      v = v.astype('datetime64[s]')
    v = v.astype(a.dtype)
    a[...] = v
    c[...] = v
    return dict(s=o['s'], w=[shmsrc.digest(w.mirror[s]) if s in w.mirror else '' for s in SLOTS])

  def send(self, o):
    r, w = self.r, self.w
    struct = {'k%d' % j: w.a[s] for j, s in enumerate(o['ss'])}
    if r.random() < .3:
      struct = {'q': struct, 'z': 5}
    low = r.choice([0, 0, 0, 20, 10**6])
    m = sma.copy_to_shm(struct, low) if low else sma.copy_to_shm(struct)
    inner = m.get('q', m)
    ls = [inner['k%d' % j] for j in range(len(o['ss']))]
    metas = [isinstance(x, sma.SharedMemoryArrayMetadata) for x in ls]
    names = {x.name.lstrip('/') for x, y in zip(ls, metas) if y}
    w.free -= names
    for s in o['ss']:
      x = w.a[s]
      if isinstance(x, SHM) and w.block(x) and x.shm.name.lstrip('/') in names:
        x.other = True
    w.msg[o['m']] = (pickle.dumps(m), names,
                     [w.mirror[s] if y and w.root(w.a[s]) == x.name.lstrip('/') else copy.deepcopy(w.mirror[s])
                      for s, x, y in zip(o['ss'], ls, metas)])
    return dict(m=o['m'], ss=o['ss'], out=[{'b': w.block(x) if y else 0} for x, y in zip(ls, metas)])

  def recv(self, o):
    w = self.w
    data, _, mirrors = w.msg.pop(o['m'])
    m = sma.open_from_shm(pickle.loads(data))
    m = m.get('q', m)
    ts = [s for s in list(o['ts']) + list(SLOTS) if s not in w.a]
    ts = list(dict.fromkeys(ts))[:len(mirrors)]
    for j, s in enumerate(ts):
      w.a[s] = m['k%d' % j]
      w.mirror[s] = mirrors[j]
    return dict(m=o['m'], ts=ts)

  def discard(self, o):
    sma.unlink_shm(pickle.loads(self.w.msg.pop(o['m'])[0]))
    return dict(m=o['m'])

  def drop(self, o):
    w = self.w
    if self.r.random() < .2:
      # a reference cycle, which the garbage collector finds
      c = [w.a[o['s']]]
      c.append(c)
      w.drop([o['s']])
      del c
      gc.collect()
    else:
      w.drop([o['s']])
    return dict(ss=[o['s']])

  def batch(self, o):
    r, w = self.r, self.w
    a = w.a[o['s']]
    if isinstance(a, np.ma.MaskedArray):
      return None             # a stack of masked arrays has no mask
    if r.random() < .6:
      # small batches are stacked in parallel, too
      for k in ('_PARALLEL_BATCHING_MIN_TOTAL_BYTES', '_PARALLEL_BATCHING_MIN_BATCH_SIZE'):
        if hasattr(batch_lib, k):
          DEFAULTS.setdefault(k, getattr(batch_lib, k))
          setattr(batch_lib, k, 1 if r.random() < .7 else DEFAULTS[k])
      mk = batch_lib._MakeBatchParallel()  # pylint: disable=protected-access
      mk.enable_shared_memory_output()
      args = {}
    else:
      mk = batch_lib.make_batch
      args = {'output_to_shared_memory': True}
    other = w.mirror[o['s']].copy()
    if r.random() < .3 and other.dtype.kind in 'biuf' and other.dtype.isnative:
      other = other.astype(r.choice(['int64', 'float64', 'int16']))
    want = np.array(np.stack([w.mirror[o['s']], other, w.mirror[o['s']]]))
    if o['bad']:
      structs = [{'p': x, 'q': np.zeros(j + 1)} for j, x in enumerate([a, other, a])]
    else:
      structs = [{'p': x} for x in [a, other, a]]
    try:
      b = mk(structs, **args)['p']
    except ValueError:
      if not o['bad']:
        raise
      return dict(t=o['t'], failed=True, b=0, d='')
    if o['bad']:
      raise RuntimeError('a batch of different shapes')
    w.a[o['t']] = b
    w.mirror[o['t']] = want
    return dict(t=o['t'], failed=False, b=w.block(b), d=shmsrc.digest(want))

  def many(self, o):
    for _ in range(self.r.choice([5, 70])):
      SHM((4,), np.int64).unlink_on_del()
    return {}

  def end(self, o):
    self.w.drop(list(self.w.a))
    return dict(e='drop', ss=list(SLOTS))


def heap(r, n, hist):
  """One history of array operations."""
  t = {'id': 'C19/%d/%d' % (common.SHARD, n), 'base': [], 'len': 0, 'fails': False, 'want': [], 'ev': []}
  w = World(r, t)
  SHM._disable_async_del()  # pylint: disable=protected-access
  if r.random() < .6:
    SHM.enable_async_del(r.randint(1, 2), r.choice([1, 3, 50]))
  out.begin(t, 90)
  ops = Ops(r, w)
  for o in hist:
    if not ops.can(o):
      continue
    try:
      e = getattr(ops, o['op'])(o)
      if e is not None:
        w.log(**{'e': o['op'], **e})
    except Stuck:
      break
    except Exception as e:  # pylint: disable=broad-except
      w.ev.append(common.raised(o['op'], e))
      break
  out.end(t)
  w.clean()


def flat(x):
  return [y for y in tree_lib.flatten(x)]


def robin(its):
  """Shards in turns."""
  its = list(its)
  while its:
    for i in list(its):
      try:
        yield next(i)
      except StopIteration:
        its.remove(i)


def pipeline(r, n):
  """One pipeline with workers, and a random client."""
  t = {'id': 'C19/%d/p%d' % (common.SHARD, n), 'base': [], 'len': 0, 'fails': False, 'want': [], 'ev': []}
  w = World(r, t)
  SHM._disable_async_del()
  kind = r.choice(['copied', 'copied', 'batched', 'batched', 'kept', 'loader', 'failing'])
  size = r.randint(2, 9)
  seed = r.random()
  uniform = kind not in ('copied', 'kept') or r.random() < .3
  src = shmsrc.Source(seed, size, uniform, r.randrange(size) if kind == 'failing' else -1, TAG)
  workers = r.randint(1, 3)
  buf = r.randint(1, 3)
  b = r.randint(2, 3)
  low = r.choice([0, 0, 0, 30])
  opts = gex.DatasetOptions(min_shm_size=low)
  rep = r.randint(1, 2)
  hold = []
  if kind == 'kept':
    # the source keeps arrays that it has received from workers
    first = [x for x in grain.MapDataset.source(src).to_iter_dataset().mp_prefetch(grain.MultiprocessingOptions(num_workers=1))]
    hold = first
    src = shmsrc.Kept(first, TAG)
  def base(sl):
    ds = grain.MapDataset.source(src)
    if kind == 'kept':
      ds = ds.repeat(rep)
    return ds[sl]
  def build():
    if kind == 'loader':
      return grain.DataLoader(data_source=src, sampler=grain.samplers.SequentialSampler(size, shard_options=grain.sharding.NoSharding()),
                              operations=[grain.transforms.Batch(b)], worker_count=workers, worker_buffer_size=buf)
    ds = base(slice(None)).to_iter_dataset()
    if kind in ('batched', 'failing'):
      ds = ds.batch(b)
    ds = gex.WithOptionsIterDataset(ds, opts)  if low and hasattr(gex, 'WithOptionsIterDataset') else ds
    if kind == 'copied' and workers == 1:
      return pp.ProcessPrefetchIterDataset(ds, buffer_size=buf)
    return ds.mp_prefetch(grain.MultiprocessingOptions(num_workers=workers, per_worker_buffer_size=buf))
  def shard(i):
    if kind == 'loader':
      ds = grain.MapDataset.source(src)[i::workers].to_iter_dataset().batch(b)
    else:
      ds = base(slice(i, None, workers)).to_iter_dataset()
      if kind in ('batched', 'failing'):
        ds = ds.batch(b)
    return iter(ds)
  fails = False
  wanted = []
  try:
    for x in robin(shard(i) for i in range(workers)):
      wanted.append([shmsrc.digest(y) for y in flat(x)])
  except ValueError:
    fails = True
  x = None  # pylint: disable=unused-variable
  t.update(want=wanted, len=len(wanted), fails=fails, kind=kind, workers=workers, buf=buf,
           spare=workers * (buf + 4) * 3, keep=workers * 6)
  for x in flat(hold):
    if w.root(x):
      t['base'].append(w.num(w.root(x)))
      t.setdefault('basenames', []).append(w.root(x))
  x = None
  out.begin(t, 120)
  it = iter(build())
  state = None
  ended = False
  order = list(range(1, 13))
  w.spare = t['spare']
  try:
    for _ in range(r.choice([3, 8, 25, 60])):
      op = r.choice(['next'] * 6 + ['drop', 'drop', 'view', 'save', 'restore', 'write'])
      if op == 'next':
        if ended:
          continue
        try:
          x = next(it)
        except StopIteration:
          w.spare = t['keep']          # prefetching threads refer to their last elements
          w.log(e='stop')
          ended = True
          continue
        except ValueError as e:
          if 'same structure' not in str(e):
            raise
          w.log(e='err')
          break
        ls = flat(x)
        x = None
        room = [s for s in order if s not in w.a]
        if len(room) < len(ls) + 1:
          gone = r.sample(sorted(w.a), 6)
          w.drop(gone)
          w.log(e='drop', ss=gone)
          room = [s for s in order if s not in w.a]
        ts = room[:len(ls)]
        for s, y in zip(ts, ls):
          w.a[s] = y
        fs = [{'b': w.block(y), 'd': shmsrc.digest(y)} for y in ls]
        ls = y = None
        w.log(e='next', ts=ts, fs=fs)
        if r.random() < .5:
          w.drop(ts)
          w.log(e='drop', ss=ts)
      elif op == 'drop' and w.a:
        gone = r.sample(sorted(w.a), r.randint(1, min(3, len(w.a))))
        w.drop(gone)
        w.log(e='drop', ss=gone)
      elif op == 'view' and w.a and len(w.a) < 12:
        s = r.choice(sorted(w.a))
        if not isinstance(w.a[s], np.ndarray):
          continue
        to = [q for q in order if q not in w.a][0]
        f = r.choice(VIEWS + PLAIN)
        w.a[to] = f(w.a[s])
        w.log(e='view', s=s, t=to, d=shmsrc.digest(f(copy.deepcopy(np.array(w.a[s], subok=True)))))
        w.drop([s])
        w.log(e='drop', ss=[s])
      elif op == 'write' and w.a:
        s = r.choice(sorted(w.a))
        a = w.a[s]
        if not isinstance(a, np.ndarray) or isinstance(a, np.ma.MaskedArray) or not a.flags.writeable or a.dtype.kind not in 'iuf' or not w.root(a):
          a = None
          continue
        a[...] = a // 2 + 1
        a = None
        w.log(e='write', s=s, w=[shmsrc.digest(w.a[q]) if q in w.a else '' for q in range(1, 13)])
      elif op == 'save':
        state = it.get_state()
        w.log(e='save')
      elif op == 'restore' and state is not None and not fails:
        it.set_state(state)
        ended = False
        w.spare = t['spare']
        w.log(e='restore')
    way = r.choice(['close', 'close', 'close', 'forget'])
    if way == 'close' and hasattr(it, 'close'):
      it.close()
    it = None
    gc.collect()
    w.spare = 0
    w.log(e='close')
    gone = sorted(w.a)
    w.drop(gone)
    w.log(e='drop', ss=gone)
  except Stuck:
    pass
  except Exception as e:  # pylint: disable=broad-except
    w.ev.append(common.raised('pipeline', e))
  x = it = None
  t.pop('basenames', None)
  out.end(t)
  hold = first = src = None  # pylint: disable=unused-variable
  gc.collect()
  w.clean()


def main():
  mine = hists[common.SHARD::common.NSHARDS][:N]
  for n, h in enumerate(mine):
    heap(common.rng('h%d' % n), n, h)
    if len(STUCK) > 5:
      return
  for n in range(NP):
    pipeline(common.rng('p%d' % n), n)
    if len(STUCK) > 5:
      return


if __name__ == '__main__' or os.environ.get('OUT'):
  main()
