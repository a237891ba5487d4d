"""Options and filter limits against spec/OptionsTrace.tla: pipelines with
filters and options at random places, read in pieces by several iterators."""
import copy
import os
import re

import common
import grain
from grain import experimental as gex
from keeps import Keep, KeepT, first, same

out = common.Out()
r = common.rng('C31')
N = int(os.environ.get('N', '40'))
W = 1000
UNSET, OFF = -1, -2


def keep(much=False):
  """A predicate; the shares of the phases are on both sides of most limits."""
  def share():
    b = r.choice([1, 2, 3, 7, 10, 97])
    c = r.choice([0, 1, 1, b // 2, b - 1, b, b]) if not much else r.choice([b, b, b - 1])
    return b, c
  (b, c), (bb, cc) = share(), share()
  return {'ph': r.choice([200, 500, 1000, 1300, 10000]), 'b': b, 'c': c, 'bb': bb, 'cc': cc}


def limits(vals, k):
  """What the windows skip, to put limits next to it."""
  f = Keep(k)
  return [sum(not f(v) for v in vals[w:w + W]) for w in range(0, len(vals) - W + 1, W)]


class Gen:
  def __init__(self):
    self.near = []
    self.chain = True
    self.procs = 0

  def source(self):
    n = r.choice([999, 1000, 1001, 1500, 2000, 2400, 3100, 4100])
    reps = r.choice([1, 1, 1, 2])
    if reps > 1:
      self.chain = False
      n = min(n, 2000)
    k = keep(r.random() < .5)
    self.near += limits(list(range(n)) * reps, k)
    return {'op': 'range', 'n': n, 'reps': reps, 'keep': k, 'threads': r.choice([0, 0, 1, 4])}

  def opt(self, c):
    lim = UNSET if r.random() < .3 else OFF if r.random() < .15 else None
    return {'op': 'opt', 'cs': [c], 'limit': lim, 'warn': r.choice([UNSET, UNSET, OFF, 100, 900])}

  def tree(self, d, opts=True, procs=True):
    if d == 0:
      return self.source()
    x = r.random()
    if x < .34:
      k = keep(r.random() < .4)
      return {'op': 'filter', 'cs': [self.tree(d - 1, opts, procs)], 'keep': k}
    if x < .64 and opts:
      return self.opt(self.tree(d - 1, opts, procs))
    if x < .72:
      return {'op': r.choice(['map', 'thread']), 'cs': [self.tree(d - 1, opts, procs)]}
    if x < .78 and procs and self.procs == 0:
      self.procs = 1
      return {'op': 'mp', 'cs': [self.tree(d - 1, opts, False)]}
    if x < .84:
      return {'op': 'threads', 'cs': [self.tree(d - 1, opts, procs)]}
    self.chain = False
    if x < .93:
      first = r.random() < .5
      return {'op': 'zip', 'cs': [self.tree(d - 1, opts and first, procs), self.tree(max(0, d - 2), opts and not first, procs)]}
    return {'op': 'cat', 'cs': [self.tree(r.randrange(d), opts, procs) for _ in range(r.choice([1, 2, 3]))]}


def settle(t, near):
  """Limits close to what filters skip."""
  if t['op'] == 'opt' and t['limit'] is None:
    x = r.choice(near) if near and r.random() < .7 else r.randrange(1000)
    t['limit'] = min(998, max(0, x + r.choice([-1, 0, 0, 1])))
  for c in t.get('cs', ()):
    settle(c, near)


def seen(t):
  """What filters see when nothing fails (to choose limits)."""
  if t['op'] == 'range':
    f = Keep(t['keep'])
    return [v for v in list(range(t['n'])) * t['reps'] if f(v)], []
  rs = [seen(c) for c in t['cs']]
  near = [x for s in rs for x in s[1]]
  if t['op'] == 'filter':
    vals = rs[0][0]
    f = Keep(t['keep'])
    return [v for v in vals if f(v)], near + limits(vals, t['keep'])
  if t['op'] == 'cat':
    return [v for s in rs for v in s[0]], near
  if t['op'] == 'zip':
    return rs[0][0][:len(rs[1][0])], near
  return rs[0][0], near


def ratio(x):
  # Never equal to the share of a window.
  return None if x == OFF else (2 * x + 1) / (2 * W)


def build(t):
  if t['op'] == 'range':
    ds = grain.MapDataset.range(t['n'])
    ds = ds.filter(KeepT(t['keep']) if r.random() < .3 else Keep(t['keep']))
    if t['reps'] > 1:
      ds = ds.repeat(t['reps'])
    return ds.to_iter_dataset(grain.ReadOptions(num_threads=t['threads'], prefetch_buffer_size=20 if t['threads'] else 0))
  cs = [build(c) for c in t['cs']]
  if t['op'] == 'filter':
    return cs[0].filter(KeepT(t['keep']) if r.random() < .3 else Keep(t['keep']))
  if t['op'] == 'opt':
    kw = {}
    if t['limit'] != UNSET:
      kw['filter_raise_threshold_ratio'] = ratio(t['limit'])
    if t['warn'] != UNSET:
      kw['filter_warn_threshold_ratio'] = ratio(t['warn'])
    return gex.WithOptionsIterDataset(cs[0], gex.DatasetOptions(**kw))
  if t['op'] == 'map':
    return cs[0].map(same)
  if t['op'] == 'thread':
    return gex.ThreadPrefetchIterDataset(cs[0], prefetch_buffer_size=r.choice([1, 30]))
  if t['op'] == 'threads':
    return gex.multithread_prefetch(cs[0], num_threads=1, buffer_size=r.choice([1, 30]))
  if t['op'] == 'mp':
    return cs[0].mp_prefetch(grain.MultiprocessingOptions(num_workers=1, per_worker_buffer_size=50))
  if t['op'] == 'zip':
    return gex.ZipIterDataset(cs, strict=False).map(first)
  return gex.InterleaveIterDataset(cs, cycle_length=1)


def read(t, k, it, n):
  """Up to n elements."""
  e = {'e': 'read', 'it': k, 'n': n, 'vals': [], 'end': 'no', 'skipped': -1}
  try:
    while len(e['vals']) < n:
      e['vals'].append(int(next(it)))
  except StopIteration:
    e['end'] = 'end'
  except ValueError as x:
    if 'filter' not in str(x):
      raise
    e['end'] = 'over'
    m = re.search(r'skipped ([\d.]+) % of the last seen (\d+) ', str(x))
    if m:
      e['skipped'] = int(round(float(m[1]) * int(m[2]) / 100))
  t['ev'].append(e)
  return e['end'] == 'no'


for i in range(N):
  g = Gen()
  tree = g.tree(r.choice([1, 2, 3, 3, 4, 5]), procs=i % 8 == 3)
  settle(tree, g.near + seen(tree)[1])
  t = out.begin({'id': 'C31/%d/%d' % (common.SHARD, i), 'tree': tree, 'ev': []}, 120)
  step = 'build'
  its = []
  try:
    ds = build(tree)
    for _ in range(r.choice([3, 5, 8])):
      live = [k for k, x in enumerate(its) if x[1]]
      x = r.random()
      if not its or (x < .15 and not g.procs):
        step = 'new'
        its.append([iter(ds), True])
        t['ev'].append({'e': 'new'})
      elif x < .3 and g.chain and live and not (g.procs and len(its) > 1):
        step = 'restore'
        k = r.choice(live)
        s = copy.deepcopy(its[k][0].get_state())
        it = iter(ds)
        it.set_state(s)
        its.append([it, True])
        t['ev'].append({'e': 'restored', 'of': k + 1})
      elif live:
        step = 'next'
        k = r.choice(live)
        its[k][1] = read(t, k + 1, its[k][0], r.choice([1, 7, 300, 900, 1000, 2500]))
    for k, x in enumerate(its):
      if x[1]:
        step = 'next'
        read(t, k + 1, x[0], 10000)
  except Exception as e:  # pylint: disable=broad-except
    t['ev'].append(common.raised(step, e))
  for x in its:
    try:
      x[0].close()
    except Exception as e:  # pylint: disable=broad-except
      t['ev'].append(common.raised('close', e))
  out.end(t)
