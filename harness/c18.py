"""Draws of random transformations."""
import os
from concurrent import futures

import common
import pipes
from pipes import Draw, DrawT
from grain._src.python import data_loader
from grain._src.python import operations
from grain._src.python import samplers
from grain._src.python.dataset import dataset
from grain import experimental as gex
import grain

out = common.Out()
r = common.rng('C18')
N = int(os.environ.get('N', '10'))
MD = dataset.MapDataset
NOPF = grain.ReadOptions(num_threads=0, prefetch_buffer_size=0)


def seeds(r):
  return r.choice([0, 1, r.randrange(1000), r.randrange(2**32), 2**32 - 1, 2**31])


def src(n):
  c = r.randrange(3)
  d = MD.range(n) if c == 0 else MD.source(pipes.Source(range(n))) if c == 1 else MD.source(list(range(n)))
  return d.map(pipes.tolist)


def draws(ev, x, pos, g='g', pre=''):
  """Records the draws of one element; x = [source index, (tag, a, b), ...]."""
  for tag, a, b in x[1:]:
    ev.append({'e': 'draw', 'g': g, 'k': '%s%s@%s' % (pre, tag, pos), 'v': [a, b]})


def tr(tag):
  return DrawT(tag) if r.random() < .4 else Draw(tag)


def access(i):
  """A random-access pipeline with several random transformations."""
  n = r.randrange(1, 14)
  s = seeds(r)
  shuf = r.random() < .4
  k = r.choice([1, 2, 3])
  t = out.begin({'id': 'C18/%d/%d/access' % (common.SHARD, i), 'n': n, 'seed': str(s), 'ev': []})
  ev = t['ev']

  def mk():
    d = src(n).seed(s)
    for j in range(k):
      if shuf and j == 1:
        d = d.shuffle()
      d = d.random_map(tr('t%d' % j))
    return d

  def see(j, x):
    # below the shuffle the position of a draw is the source index of the epoch
    ep = j // n
    for q, (tag, a, b) in enumerate(x[1:]):
      pos = '%d' % (x[0] + ep * n) if shuf and k > 1 and q == 0 else '%d' % j
      ev.append({'e': 'draw', 'g': 'g', 'k': '%s@%s' % (tag, pos), 'v': [a, b]})
  try:
    d = mk()
    for _ in range(r.choice([6, 10])):
      c = r.randrange(9)
      if c == 0:
        d = mk()
      elif c == 1:
        js = [r.randrange(3 * n) for _ in range(r.randrange(1, 8))]
        for j, x in zip(js, d._getitems(js)):
          see(j, x)
      elif c == 2:
        with futures.ThreadPoolExecutor(4) as ex:
          js = [r.randrange(2 * n) for _ in range(16)]
          for j, x in zip(js, ex.map(lambda j: d[j], js)):
            see(j, x)
      elif c == 3:
        for j, x in enumerate(d):
          see(j, x)
      elif c == 4:
        it = iter(d.to_iter_dataset(grain.ReadOptions(num_threads=r.choice([1, 3]), prefetch_buffer_size=r.choice([1, 4]))))
        st, j, sj = it.get_state(), 0, 0
        for _ in range(n + 3):
          if r.random() < .2:
            it.set_state(st)
            j = sj
          if r.random() < .2:
            st, sj = it.get_state(), j
          try:
            x = next(it)
          except StopIteration:
            break
          see(j, x)
          j += 1
        it.close()
      elif c == 5:
        for j, x in enumerate(d.repeat(2)):
          see(j, x)
      elif c == 6:
        xs = list(d.repeat(2, reseed_each_epoch=False))
        for j, x in enumerate(xs):
          see(j % n, x)
      elif c == 7:
        for j, x in enumerate(gex.multithread_prefetch(d.to_iter_dataset(), num_threads=r.choice([2, 3]), buffer_size=2)):
          see(j, x)
      else:
        for j in [r.randrange(3 * n) for _ in range(4)]:
          see(j, d[j])
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('access', e))
  out.end(t)


def iterators(i):
  """Random transformations of iterators: the position is the number of elements before."""
  n = r.randrange(1, 20)
  s = seeds(r)
  flaky = r.random() < .25
  two = r.random() < .5
  t = out.begin({'id': 'C18/%d/%d/iter' % (common.SHARD, i), 'n': n, 'seed': str(s), 'flaky': int(flaky), 'ev': []})
  ev = t['ev']
  inner = src(n)

  def mk(flaky=0):
    d = inner.to_iter_dataset(r.choice([None, NOPF])).seed(s).random_map(Draw('i0', flaky))
    if r.random() < .3:
      d = gex.ThreadPrefetchIterDataset(d, prefetch_buffer_size=r.choice([1, 3])) if not two else d
    if two:
      d = d.random_map(tr('i1'))
    return d
  try:
    for _ in range(3):
      d = mk()
      c = r.randrange(4)
      if c == 0:
        for j, x in enumerate(d):
          draws(ev, x, j)
      elif c == 1 and not two:
        # (a default seed depends on the place in the pipeline)
        d = inner.to_iter_dataset().seed(s).random_map(Draw('i0'))
        for j, x in enumerate(gex.multithread_prefetch(d, num_threads=r.choice([2, 3, 4]), buffer_size=r.choice([1, 2]))):
          draws(ev, x, j)
      else:
        its = [iter(d), iter(d)]
        pos = [0, 0]
        snaps = [(its[0].get_state(), 0)]
        for _ in range(r.choice([10, 30])):
          q = r.randrange(2)
          o = r.randrange(10)
          if o == 0:
            snaps.append((its[q].get_state(), pos[q]))
          elif o == 1:
            st, pos[q] = r.choice(snaps)
            its[q].set_state(st)
          else:
            try:
              x = next(its[q])
            except StopIteration:
              continue
            draws(ev, x, pos[q])
            pos[q] += 1
        for it in its:
          it.close()
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('iteration', e))
  out.end(t)


def after_error(i):
  """A failure of the user function does not shift later draws."""
  n = r.randrange(3, 14)
  s = seeds(r)
  t = out.begin({'id': 'C18/%d/%d/error' % (common.SHARD, i), 'n': n, 'ev': []})
  ev = t['ev']
  try:
    good = src(n).random_map(Draw('t'), seed=s)
    for j in range(n):
      draws(ev, good[j], j)
    bad = src(n).random_map(Draw('t', flaky=r.choice([2, 3])), seed=s)
    for _ in range(3):
      js = list(range(n))
      r.shuffle(js)
      for j in js:
        try:
          draws(ev, bad[j], j)
        except pipes.Boom:
          pass
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('access', e))
  out.end(t)


def explicit(i):
  """Draws differ between seeds and are the same for the same explicit seed."""
  t = out.begin({'id': 'C18/%d/%d/explicit' % (common.SHARD, i), 'ev': []})
  ev = t['ev']
  try:
    s = seeds(r)
    used = {s, (s + 1) % 2**32, r.randrange(2**32)}
    n = r.randrange(2, 8)
    for a in list(used) + [s]:
      d = src(n).random_map(tr('m'), seed=a)
      if r.random() < .5:
        d = d.seed(r.randrange(99))      # does not matter to explicit seeds
      for j in [0, n - 1, n, 2**33, 2**40 + 1] + [r.randrange(n)]:
        draws(ev, d[j], j, g='m', pre='s%d/' % a)
      it = src(n).to_iter_dataset().random_map(tr('i'), seed=a)
      for j, x in enumerate(it):
        draws(ev, x, j, g='i', pre='s%d/' % a)
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('explicit seeds', e))
  out.end(t)


def sampler(i):
  """Records of samplers and data loaders carry their own generators."""
  n, s = r.randrange(2, 14), seeds(r)
  if s >= 2**32 - 100:
    s = 77
  t = out.begin({'id': 'C18/%d/%d/sampler' % (common.SHARD, i), 'n': n, 'seed': str(s), 'ev': []}, 100)
  ev = t['ev']
  try:
    def mk():
      return samplers.IndexSampler(num_records=n, shuffle=True, seed=s, num_epochs=2)
    for _ in range(2):
      sm = mk()
      js = [r.randrange(2 * n) for _ in range(10)]
      for j in js:
        g = sm[j].rng
        ev.append({'e': 'draw', 'g': 'g', 'k': str(j), 'v': [int(g.integers(0, 2**30)), int(g.integers(0, 2**30))]})
    for w in ([0, r.choice([1, 2])] if i == 0 else [0]):
      dl = data_loader.DataLoader(data_source=pipes.Source(range(n)), sampler=mk(), worker_count=w,
                                  operations=[pipes.ListOp(), DrawT('')])
      for j, x in enumerate(dl):
        ev.append({'e': 'draw', 'g': 'g', 'k': str(j), 'v': list(x[1][1:])})
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('sampler', e))
  out.end(t)


def process(i):
  """Worker processes draw the same."""
  n, s = r.randrange(3, 20), seeds(r)
  t = out.begin({'id': 'C18/%d/%d/process' % (common.SHARD, i), 'n': n, 'seed': str(s), 'ev': []}, 100)
  ev = t['ev']
  try:
    d = MD.range(n).map(pipes.tolist).seed(s).random_map(Draw('a')).to_iter_dataset().random_map(Draw('b'))
    for j, x in enumerate(d):
      draws(ev, x, j)
    it = iter(d.mp_prefetch(grain.MultiprocessingOptions(num_workers=r.choice([2, 3]), per_worker_buffer_size=2)))
    j, k = 0, r.randrange(n)
    for _ in range(k):
      draws(ev, next(it), j)
      j += 1
    st = it.get_state()
    for x in it:
      draws(ev, x, j)
      j += 1
    it.set_state(st)
    draws(ev, next(it), k) if k < n else None
    it.close()
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('processes', e))
  out.end(t)


def cross(i):
  """The same pipelines in all harness processes."""
  import random
  q = random.Random('cross/%d/%d' % (common.SEED, i))
  n, s = q.randrange(20, 30), seeds(q)
  t = out.begin({'cross': 'cross%d' % i, 'id': 'C18/%d/cross%d' % (common.SHARD, i), 'ev': []})
  ev = t['ev']
  try:
    d = MD.range(n).map(pipes.tolist).seed(s)
    shape = q.randrange(4)
    d = d.random_map(Draw('a'))
    if shape == 1:
      d = MD.concatenate([d, MD.range(3).map(pipes.tolist).seed(s + 1).random_map(Draw('c'))])
    elif shape == 2:
      d = MD.mix([MD.range(9).map(pipes.tolist).seed(5), d])
    m = len(d)
    p = d.shuffle()
    ev.append({'e': 'draw', 'g': 'order', 'k': 'shuffle', 'v': [x[0] for x in p]})
    d = p.random_map(Draw('b'))
    it = d.to_iter_dataset().random_map(Draw('d'))
    for j, x in enumerate(it):
      ev.append({'e': 'draw', 'g': 'g', 'k': '%d' % j, 'v': [a for tag in x[1:] for a in tag[1:]]})
    order = [x[0] for x in gex.WindowShuffleIterDataset(MD.range(n).map(pipes.tolist).to_iter_dataset(), window_size=n, seed=s % 1000)]
    ev.append({'e': 'draw', 'g': 'worder', 'k': 'w', 'v': order})
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('pipeline', e))
  out.end(t)


def rejected():
  t = out.begin({'id': 'C18/%d/rejected' % common.SHARD, 'ev': []})
  fn = lambda x, g: x
  cases = {
      'shuffle': lambda: MD.range(3).shuffle(),
      'random_map': lambda: MD.range(3).random_map(fn),
      'random_map of an iterator': lambda: MD.range(3).to_iter_dataset().random_map(fn),
      'random_map above a mixture': lambda: MD.mix([MD.range(3), MD.range(4)]).random_map(fn),
      'seed above only': lambda: MD.range(3).shuffle().seed(3),
      'shuffling sampler': lambda: samplers.IndexSampler(num_records=3, shuffle=True),
  }
  for what, f in cases.items():
    try:
      f()
      v = 0
    except ValueError:
      v = 1
    except Exception as e:  # pylint: disable=broad-except
      v = 0
      what += ': %s' % type(e).__name__
    t['ev'].append({'e': 'truth', 'v': v, 'what': what + ' without seed is not refused'})
  out.end(t)


for i in range(N):
  access(i)
  iterators(i)
  if i % 2 == 0:
    after_error(i)
    explicit(i)
    sampler(i)
  cross(i)
for i in range(4 if common.THOROUGH else 1):
  process(i)
rejected()
