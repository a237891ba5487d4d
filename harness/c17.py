"""Jobs whose number of processes changes between checkpoints."""
import json
import os
import shutil
import tempfile

import numpy as np
from etils import epath

import common
import pipes
import grain
from grain import experimental as gex
from grain._src.core import sharding
from grain._src.python.checkpoint import elastic_checkpoint, handler
from grain._src.python.dataset import dataset, elastic_iterator

hists = json.load(open(os.environ['HISTS']))
out = common.Out()
r = common.rng('c17')
N = int(os.environ.get('N', '20'))
PER = int(os.environ.get('PER', '4'))
NPROC = int(os.environ.get('NPROC', '1'))
common.fast_workers(['grain', 'pipes', 'grain._src.python.dataset.transformations.process_prefetch'])
g = pipes.Gen(r, maxlen=24, maxn=12)
WHO = [0, 1]
real = sharding.get_process_index_and_count
sharding.get_process_index_and_count = lambda: tuple(WHO)


def batch_size(q, zero):
  return 0 if zero and r.random() < .25 else q * r.choice([1, 1, 2, 3])


class Job:
  """The processes of a job, all in this process."""

  def __init__(self, kind, mk, t):
    self.kind, self.mk, self.t, self.ev = kind, mk, t, t['ev']
    self.its, self.snaps, self.steps, self.ended = [], {}, [], []
    self.B = 0
    self.dir = tempfile.mkdtemp(dir=common.SCRATCH)

  def guard(self, op, fn):
    try:
      return fn()
    except Exception as e:  # pylint: disable=broad-except
      self.ev.append(common.raised(op, e))
      raise common.Stop() from e

  def processes(self, q):
    for it in self.its:
      self.guard('close', it.close)
    self.P = q
    self.B = batch_size(q, self.kind == 'iter')
    self.its = [self.guard('create', lambda p=p: self.mk(p, q, self.B)) for p in range(q)]
    self.steps, self.ended = [0] * q, [False] * q

  def start(self, q):
    self.processes(q)
    self.ev.append({'e': 'start', 'q': q, 'b': self.B})

  def next(self, p):
    try:
      x = next(self.its[p])
    except StopIteration:
      self.ev.append({'e': 'stop', 'p': p})
      self.ended[p] = True
      return False
    except Exception as e:  # pylint: disable=broad-except
      self.ev.append(common.raised('next', e))
      raise common.Stop() from e
    v = np.asarray(x)
    ok = v.dtype.kind in 'iu' and v.ndim == (1 if self.B else 0)
    self.ev.append({'e': 'next', 'p': p, 'v': [int(y) for y in v.reshape(-1)] if ok else [-77]})
    self.steps[p] += 1
    return True

  def read(self, p, k):
    for _ in range(k):
      if self.ended[p % self.P] or not self.next(p % self.P):
        break

  def save(self, s):
    if self.kind == 'map':
      # a checkpoint is made when all processes are at the same step
      most = max(self.steps)
      for p in range(self.P):
        while self.steps[p] < most:
          if not self.next(p):
            break
      states = [json.dumps(self.guard('get_state', it.get_state), sort_keys=True) for it in self.its]
      self.snaps[s] = states
      self.ev.append({'e': 'save', 's': s, 'same': all(x == states[0] for x in states)})
      return
    d = epath.Path(tempfile.mkdtemp(dir=self.dir))
    shards = {}
    for p, it in enumerate(self.its):
      WHO[:] = [p, self.P]
      self.guard('save', lambda: handler.CheckpointHandler().save(d, it))
      shards.update(self.guard('get_shard_states', it.get_shard_states))
    if r.random() < .5:
      elastic = epath.Path(tempfile.mkdtemp(dir=self.dir))
      for it in self.its:
        self.guard('save_elastic', lambda: elastic_checkpoint.save_elastic_iterator(elastic, it))
    else:
      elastic = d
    self.snaps[s] = (self.P, self.B, d, elastic, self.guard('json', lambda: json.loads(json.dumps(shards))))
    self.ev.append({'e': 'save', 's': s, 'same': True})

  def restore(self, s, q, how):
    snap = self.snaps[s]
    if self.kind == 'map':
      if not (q == self.P and how == 3):     # else: into the used iterators
        self.processes(q)
      self.steps, self.ended = [0] * q, [False] * q
      for it in self.its:
        self.guard('set_state', lambda: it.set_state(json.loads(r.choice(snap))))
      self.ev.append({'e': 'restore', 's': s, 'q': q, 'b': self.B, 'elastic': True})
      return
    P, B, d, elastic, shards = snap
    if how == 0 and q == P:     # the same processes: exactly where they were
      self.processes(q)
      if self.B != B:
        self.B = B
        for it in self.its:
          it.close()
        self.its = [self.guard('create', lambda p=p: self.mk(p, q, B)) for p in range(q)]
    elif not (q == self.P and how == 3):
      self.processes(q)
    self.steps, self.ended = [0] * q, [False] * q
    exact = False
    for p, it in enumerate(self.its):
      WHO[:] = [p, q]
      if how == 0 and q == P or how == 1 and q != P:
        back = self.guard('restore', lambda: handler.CheckpointHandler().restore(d, it))
        exact = q == P
        if back is not it:
          self.ev.append({'e': 'raise', 'op': 'restore returned another iterator'})
          raise common.Stop()
      elif how in (1, 2):
        self.guard('restore_elastic', lambda: elastic_checkpoint.restore_elastic_iterator(elastic, it))
      else:
        own = {j: v for j, v in shards.items() if int(j) % q == p}
        self.guard('set_shard_states', lambda: it.set_shard_states(own))
    self.ev.append({'e': 'restore', 's': s, 'q': q, 'b': self.B, 'elastic': not exact})

  def run(self, hist):
    try:
      for h in hist:
        op = h['op']
        if op == 'start':
          self.start(h['q'])
        elif op == 'read':
          self.read(h['p'], h['k'])
        elif op == 'all':
          for p in range(self.P):
            self.read(p, h['k'])
        elif op == 'save':
          self.save(h['s'])
        elif op == 'restore':
          self.restore(h['s'], h['q'], h['how'])
      while not all(self.ended):
        p = r.randrange(self.P)
        if not self.ended[p]:
          self.next(p)
        if len(self.ev) > 2500:
          self.ev.append({'e': 'raise', 'op': 'iteration does not end'})
          break
      else:
        self.ev.append({'e': 'done'})
    except common.Stop:
      pass
    finally:
      for it in self.its:
        try:
          it.close()
        except Exception as e:  # pylint: disable=broad-except
          self.ev.append(common.raised('close', e))
      shutil.rmtree(self.dir, ignore_errors=True)


def ro():
  return grain.ReadOptions(num_threads=r.choice([0, 1, 3]), prefetch_buffer_size=r.choice([0, 1, 2, 8])) if r.random() < .8 else None


def readopts():
  t = r.choice([0, 1, 1, 3])
  return grain.ReadOptions(num_threads=t, prefetch_buffer_size=0 if t == 0 else r.choice([1, 2, 8]))


def maps(proc):
  """A random-access dataset."""
  while True:
    g.mops = ['map', 'mapidx', 'rmap', 'shuffle', 'wshufm', 'slice', 'reindex', 'repeat', 'seed', 'concat', 'select', 'zip']
    try:
      if r.random() < .1:
        p = {'op': 'src', 'xs': []}
      else:
        p, kind = g.mtree(r.choice([0, 1, 2, 3]), r.randrange(1, 20))
        if kind != 'a' or pipes.plen(p) > 50:
          continue
        p = pipes.resolve(p)
    except pipes.BadTable:
      continue
    break
  opts = {}
  if r.random() < .7:
    opts['read_options'] = readopts()
  if proc:
    opts['multiprocessing_options'] = grain.MultiprocessingOptions(num_workers=r.choice([1, 2, 3]), per_worker_buffer_size=r.choice([1, 2]))
  ds = pipes.mbuild(p)
  mk = lambda i, q, b: elastic_iterator.ElasticIterator(ds, b, sharding.ShardOptions(shard_index=i, shard_count=q), **opts)
  return {'kind': 'map', 'ast': pipes.clean(p)}, p, mk


def shard(i):
  n = r.choice([0, 1, 1, 2, 3, 5, 7])
  p = {'op': 'src', 'xs': [[100 * i + 3 * j] for j in range(n)]}
  if n and r.random() < .4:
    p = {'op': 'shuffle', 'p': p, 'seed': r.randrange(99)}
  q = {'op': 'iter', 'p': p, 'nones': False}
  if r.random() < .6:
    q['t'], q['bs'] = r.choice([(0, 0), (1, 1), (2, 3)])
  elif r.random() < .5:
    q['bare'] = True
  for _ in range(r.choice([0, 0, 1, 2])):
    op = r.choice(['filter', 'limit', 'wshuf', 'thr', 'map'])
    q.pop('bare', None)
    if op == 'map':
      q = {'op': 'map', 'p': q, 'a': 1, 'b': 1, 'cls': False}
    else:
      q, _ = g.iop(q, 'a', op)
  return q


def above(p, ops):
  """The same transformations above all shards (spec) or their interleave."""
  for o in ops:
    p = {**o, 'p': p}
  return p


def iters(flat=False):
  while True:
    try:
      shards = [pipes.iresolve(shard(i)) for i in range(r.choice([1, 2, 3, 4, 5, 6, 8, 11, 13]))]
    except pipes.BadTable:
      continue
    break
  ops = []
  for _ in range(r.choice([0, 0, 1, 2])):
    ops.append(r.choice([{'op': 'map', 'a': 7, 'b': 5, 'cls': False}, {'op': 'filter', 'm': 3, 'r': 1}, {'op': 'filter', 'm': 2, 'r': 0}]))
  if flat:
    shards = [{'op': 'iter', 'p': {'op': 'src', 'xs': [[100 * i + 9 + 10 * j] for j in range(4)]}, 'nones': False} for i in range(3)]
    ops = [{'op': 'flatmap', 'f': 9}]
  tree = {'op': 'inter', 'ps': shards, 'c': r.choice([1, 2, 2, 3, 5]), 'mt': r.choice([1, 2]), 'mb': r.choice([1, 2]),
          'ib': r.choice([0, 1, 1, 3]), 'lazy': r.random() < .3}
  ds = pipes.ibuild(above(tree, ops))
  opts = {'read_options': grain.ReadOptions(num_threads=r.choice([0, 1, 4]), prefetch_buffer_size=4)} if r.random() < .4 else {}
  mk = lambda i, q, b: elastic_iterator.ElasticIterator(ds, b, sharding.ShardOptions(shard_index=i, shard_count=q), **opts)
  return {'kind': 'iter', 'shards': [pipes.clean(above(q, ops)) for q in shards], 'tree': pipes.clean(above(tree, ops))}, above(tree, ops), mk


h = common.SHARD
for n in range(N + NPROC):
  t = out.begin({'id': 'C17/%d/%d' % (common.SHARD, n), 'kind': 'map', 'ast': {'op': 'src', 'xs': []}, 'ev': [], 'ops': ''}, 90)
  try:
    head, desc, mk = maps(n >= N) if n % 3 == 0 or n >= N else iters()
  except Exception as e:  # pylint: disable=broad-except
    t['ev'].append(common.raised('building', e))
    out.end(t)
    continue
  out.cancel()
  for _ in range(PER if n < N else 1):
    t = out.begin({'id': 'C17/%d/%d/%d' % (common.SHARD, n, h), **head, 'ev': [], 'ops': '>'.join(pipes.ops_of(desc)), 'pipeline': desc}, 120)
    Job(head['kind'], mk, t).run(hists[h % len(hists)][:(7 if n >= N else 99)])
    h += common.NSHARDS
    out.end(t)

if common.SHARD == 0:
  # A transformation with a buffer above the interleave loses it.
  head, desc, mk = iters(flat=True)
  t = out.begin({'id': 'C17/flat', **head, 'ev': [], 'ops': 'flatmap>inter', 'pipeline': desc, 'fingerprint': 'elastic-state-above-interleave'}, 60)
  Job('iter', mk, t).run([{'op': 'start', 'q': 2}] + [{'op': 'read', 'p': p, 'k': 1} for p in (0, 1, 0, 1, 0)] +
                         [{'op': 'save', 's': 0}, {'op': 'restore', 's': 0, 'q': 3, 'how': 2}])
  out.end(t)
