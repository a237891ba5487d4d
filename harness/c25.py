"""Many datasets derived from common ones, used in random interleavings."""
import copy
import os
import pickle

import common
import pipes
from pipes import enc
import grain
from grain import experimental as gex
from grain._src.python.dataset import dataset

out = common.Out()
PID = os.environ.get('PID', 'C25')
r = common.rng(PID)
N = int(os.environ.get('N', '8'))
NPROC = int(os.environ.get('NPROC', '0'))


def fits(t, n=40):
  try:
    return pipes.plen(t) <= n
  except Exception:  # pylint: disable=broad-except
    return False


def family(g):
  """Random-access and iterator trees over shared ones: [(kind, tree)]."""
  base, bk = g.mtree(r.choice([0, 1, 2]))
  while not 0 < pipes.plen(base) <= 12:
    base, bk = g.mtree(r.choice([0, 1, 2]))
  pool = [({**base, 'share': 's0'}, bk)]
  fam = [('m', pool[0][0])]
  k = 0
  for _ in range(r.choice([2, 3, 4])):
    p, kind = r.choice(pool)
    q, kk = g.mop(p, kind)
    if not fits(q) or not pipes.plen(q):
      continue
    k += 1
    q = {**q, 'share': 's%d' % k}
    pool.append((q, kk))
    fam.append(('m', q))
  ipool = []
  for _ in range(r.choice([2, 3, 4])):
    p, kind = r.choice(pool)
    if not fits(p, 24):
      continue
    q = {'op': 'iter', 'p': p, 'nones': False}
    if r.random() < .6:
      q['t'], q['bs'] = r.choice([(0, 0), (1, 1), (2, 3), (4, 20)])
    k += 1
    q = {**q, 'share': 's%d' % k}
    ipool.append((q, 'b' if kind == 'b' else 'a'))
    fam.append(('i', q))
  for _ in range(r.choice([2, 3, 4])):
    if not ipool:
      break
    p, kind = r.choice(ipool)
    q, kk = g.iop(p, kind)
    k += 1
    q = {**q, 'share': 's%d' % k}
    ipool.append((q, kk))
    fam.append(('i', q))
  return fam


def untag(p, f):
  """The tree without sharing marks (for sizing and tables)."""
  return pipes.rewrite(p, lambda q: {k: v for k, v in q.items() if k != 'share'})


class Member:
  """One dataset of the family, its trace and its open iterators."""

  def __init__(self, kind, tree, tid):
    self.kind = kind
    if kind == 'm':
      plain = pipes.resolve(untag(tree, None), pipes.plen(tree) * 2)
    else:
      plain = pipes.iresolve(untag(tree, None))
      if pipes.icount(plain) > 60:
        raise pipes.BadTable('big')
    self.t = {'id': tid, 'ops': '>'.join(pipes.ops_of(plain)), 'pipeline': tree, 'ast': pipes.clean(plain), 'ev': []}
    self.tree = tree
    self.ds = None
    self.its = {}
    self.done = set()
    self.c = None

  def build(self):
    try:
      self.ds = pipes.mbuild(self.tree) if self.kind == 'm' else pipes.ibuild(self.tree)
    except Exception as e:  # pylint: disable=broad-except
      self.t['ev'].append(common.raised('build', e))
      raise common.Stop() from e
    self.c = common.Client(lambda: self.ds, enc, self.t)
    self.c.ds = self.ds

  def step(self):
    if self.ds is None:
      self.build()
    ev = self.t['ev']
    if self.kind == 'm':
      try:
        n = len(self.ds)
        c = r.randrange(8)
        if c == 0:
          ev.append({'e': 'len', 'v': n})
        elif c == 1:
          ev.append({'e': 'pass', 'v': [enc(x) for x in self.ds]})
        else:
          j = r.randrange(max(1, 2 * n))
          ev.append({'e': 'at', 'i': j, 'v': enc(self.ds[j])})
      except Exception as e:  # pylint: disable=broad-except
        ev.append(common.raised('access', e))
        raise common.Stop() from e
      return
    i = r.randrange(4)
    if i not in self.c.its or (i in self.done and r.random() < .5):
      self.c.new(i)
      self.done.discard(i)
    elif r.random() < .15:
      s = r.randrange(3)
      if s in self.c.snaps and r.random() < .5:
        self.c.set(i, s)
        self.done.discard(i)
      elif i not in self.done:
        self.c.get(i, s)
    elif i not in self.done:
      for _ in range(r.choice([1, 1, 2, 5])):
        if not self.c.next(i):
          self.done.add(i)
          break

  def finish(self):
    if self.ds is None or self.kind == 'm':
      return
    for i in list(self.c.its):
      while i not in self.done:
        if not self.c.next(i):
          self.done.add(i)
        if len(self.t['ev']) > 2000:
          self.t['ev'].append({'e': 'raise', 'op': 'iteration does not end'})
          return


def interfere(ms, proc):
  """Something done with a dataset that must not change any other."""
  m = r.choice(ms)
  if m.ds is None:
    return None
  d = m.ds
  c = r.randrange(14)
  if m.kind == 'm':
    n = len(d)
    if c == 0:
      x = d.slice(slice(r.randrange(n), None, 2))
      list(x)
    elif c == 1:
      [x for x in d[:r.randrange(1, n + 1)]]
    elif c == 2:
      list(d.shuffle(seed=5))
    elif c == 3:
      list(d.to_iter_dataset(grain.ReadOptions(num_threads=2, prefetch_buffer_size=2)))
    elif c == 4:
      x = d.seed(77)
      x.repeat(2)
      len(x)
    elif c == 5:
      copy.copy(d)
      x = copy.deepcopy(d)
      list(x.map(pipes.Affine(2, 2)))
    elif c == 6:
      str(d), repr(d)
    elif c == 7:
      iter(d)
    elif c == 8:
      gex.multithread_prefetch(d.to_iter_dataset(), num_threads=2, buffer_size=1)
    elif c == 9:
      dataset.MapDataset.concatenate([d, d])
      list(dataset.MapDataset.mix([d, d], [1, 2]))
    elif c == 10:
      list(d.repeat(2, reseed_each_epoch=False))
    else:
      d.filter(lambda x: True)
    return c
  if c == 0:
    it = iter(d)
    next(it, None)
    it.close()
  elif c == 1:
    x = gex.LimitIterDataset(d, 1)
    list(x)
  elif c == 2:
    x = dataset.WithOptionsIterDataset(d, grain.experimental.DatasetOptions(filter_warn_threshold_ratio=0.5,
                                       execution_tracking_mode=gex.ExecutionTrackingMode.STAGE_TIMING))
    list(x)
  elif c == 3 and pipes.sliceable(m.tree):
    it = iter(gex.multithread_prefetch(d, num_threads=r.choice([1, 2, 3]), buffer_size=r.choice([1, 2])))
    for _ in range(r.randrange(4)):
      next(it, None)
    it.close()
  elif c == 4 and pipes.sliceable(m.tree):
    x = copy.deepcopy(d)
    list(x)
  elif c == 5:
    str(d), repr(d)
  elif c == 6:
    d.seed(3)
  elif c == 7:
    it = iter(gex.ThreadPrefetchIterDataset(d, prefetch_buffer_size=2))
    next(it, None)
    it.close()
  elif c == 8:
    it = iter(dataset.IterDataset.mix([d, d], [1, 1]))
    next(it, None)
    next(it, None)
    it.close()
  elif c == 9:
    it = iter(gex.InterleaveIterDataset([d, d], cycle_length=2))
    next(it, None)
    it.close()
  elif c == 10:
    gex.pick_performance_config(d, ram_budget_mb=10, max_workers=2, max_buffer_size=5)
  elif c == 11 and proc and pipes.sliceable(m.tree):
    it = iter(d.mp_prefetch(grain.MultiprocessingOptions(num_workers=r.choice([1, 2]))))
    for _ in range(3):
      next(it, None)
    it.close()
  elif c == 12:
    list(gex.RepeatIterDataset(d, 2))
  else:
    d.map(pipes.Affine(3, 3))
  return c


for n in range(N + NPROC):
  out.begin({'id': '%s/%d/%d' % (PID, common.SHARD, n), 'ops': '', 'ref': [], 'ev': []}, 120)
  pipes.SHARED.clear()
  g = pipes.Gen(r, maxlen=14, maxn=8, files=True)
  try:
    fam = family(g)
    ms = []
    for j, (kind, tree) in enumerate(fam):
      try:
        ms.append(Member(kind, tree, '%s/%d/%d/%d' % (PID, common.SHARD, n, j)))
      except pipes.BadTable:
        pass
  except pipes.BadTable:
    out.cancel()
    continue
  except Exception as e:  # pylint: disable=broad-except
    out.end({'id': '%s/%d/%d' % (PID, common.SHARD, n), 'ops': '', 'ref': [], 'ev': [common.raised('building', e)], 'pipeline': ''})
    continue
  log = []
  acting = 0
  proc = n >= N
  procs = 1 if proc else 0
  try:
    for _ in range(r.choice([40, 80, 160])):
      if r.random() < .15:
        try:
          k = interfere(ms, procs > 0)
          procs -= k == 11
          log.append(str(k))
        except Exception as e:  # pylint: disable=broad-except
          ms[0].t['ev'].append(common.raised('use of another dataset', e))
          raise common.Stop() from e
      else:
        r.choice(ms).step()
    for m in ms:
      m.finish()
  except common.Stop:
    pass
  for m in ms:
    if m.c is not None and m.kind == 'i':
      m.c.close_all()
  out.cancel()
  for m in ms:
    m.t['interference'] = log
    m.t['kind'] = m.kind
    out.end(m.t)
