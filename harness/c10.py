"""Observed selections of mixtures and concatenations."""
import os

import numpy as np

import common
import pipes
from grain._src.python.dataset import dataset
from grain import experimental as gex
import grain

out = common.Out()
r = common.rng('C10')
N = int(os.environ.get('N', '20'))
MD = dataset.MapDataset
BIG = 10**6
NOPF = grain.ReadOptions(num_threads=0, prefetch_buffer_size=0)


def weights():
  """Weights to pass to grain, the same as integers, and whether they are resolved exactly."""
  nd = r.choice([1, 2, 2, 3, 3, 4, 5, 7])
  c = r.randrange(7)
  if c == 6:
    # far apart
    w = [1] + [r.choice([r.randrange(1, 9), r.randrange(100, 1000), r.randrange(1000, 30000 // nd)]) for _ in range(nd - 1)]
    r.shuffle(w)
    return r.choice([w, [float(x) for x in w]]), w, 0, nd
  if c == 0:
    return None, [1] * nd, 0, nd
  if c <= 2:
    m = r.choice([1, 2, 4, 5])
    w = [r.randrange(m, 25) for _ in range(nd)]
    w[r.randrange(nd)] = m
    # grain scales the smallest weight to 100
    return w, w, 0 if all(int(x * (100 / m)) * m == 100 * x for x in w) else 1, nd
  if c == 3:
    w = [r.randrange(1, 300) for _ in range(nd)]
    return w, w, 1, nd
  if c == 4:
    w = [2**r.randrange(0, 6) for _ in range(nd)]
    return [x / 64 for x in w], w, 0, nd     # exact in binary
  w = [r.randrange(1, 100) for _ in range(nd)]
  return [x / 100 for x in w], w, 1, nd


def tagged(lens, cls=False):
  def mk(c, n):
    if cls:
      return MD.source(pipes.Source([c * BIG + j for j in range(n)]))
    return MD.range(c * BIG, c * BIG + n)
  return [mk(c, n) for c, n in enumerate(lens)]


def ck(x):
  c, k = divmod(int(x), BIG)
  return c + 1, k


def mixture(n):
  w, iw, tol, nd = weights()
  wrap = r.random() < .5
  lens = [r.randrange(1, 40) if wrap else BIG for _ in range(nd)]
  t = out.begin({'id': 'C10/%d/%d/mix' % (common.SHARD, n), 'w': iw, 'tol': tol, 'lens': lens, 'weights': str(w), 'ev': []})
  ev = t['ev']
  try:
    if r.random() < .3:
      w2 = w if w is None or r.random() < .5 else tuple(w)
      d = gex.__dict__.get('MixedMapDataset', None)
      d = MD.mix(tagged(lens, wrap), w2)
    else:
      d = MD.mix(tagged(lens, wrap), w)
    ln = len(d)
    if wrap:
      ev.append({'e': 'mixlen', 'v': ln})
    total = r.choice([30, 60, 150])
    if wrap:
      total = min(max(total, ln + 3), 250)
    how = r.randrange(4)
    if how == 0:
      xs = [d[i] for i in range(total)]
    elif how == 1:
      xs = list(d._getitems(list(range(total))))
    elif how == 2:
      order = list(range(total))
      r.shuffle(order)
      got = {i: d[i] for i in order}
      xs = [got[i] for i in range(total)]
    else:
      xs = []
      while len(xs) < total:
        k = r.randrange(1, 8)
        xs += list(d._getitems(list(range(len(xs), min(len(xs) + k, total)))))
    for x in xs:
      c, k = ck(x)
      ev.append({'e': 'mix', 'c': c, 'k': k, 'len': ln if wrap else -1})
    for i in [r.randrange(total) for _ in range(8)]:
      c, k = ck(d[i])
      ev.append({'e': 'mixat', 'i': i, 'c': c, 'k': k})
    js = [r.randrange(total) for _ in range(8)]
    for i, x in zip(js, d._getitems(js)):
      c, k = ck(x)
      ev.append({'e': 'mixat', 'i': i, 'c': c, 'k': k})
    if wrap and 1 < ln < total:
      got = list(d)
      ev.append({'e': 'truth', 'v': int(len(got) == ln), 'what': 'iteration does not cover the length'})
      a, b = sorted((r.randrange(ln), r.randrange(ln)))
      for i, x in enumerate(d[a:b]):
        c, k = ck(x)
        ev.append({'e': 'mixat', 'i': a + i, 'c': c, 'k': k})
    if not wrap:
      W = sum(iw)
      for i in [r.randrange(1, 900000 if not t['tol'] else min(900000, 2 * 10**9 // (100 * W * nd))) for _ in range(10)]:
        c, k = ck(d[i])
        if k < BIG:
          ev.append({'e': 'mixfar', 'i': i, 'c': c, 'k': k})
    mixiter(t, w, nd, [ck(x)[0] for x in xs])
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('mix', e))
  out.end(t)


def mixiter(t, w, nd, sel):
  """The mixing iterator takes the same components, and ends with the selected one."""
  ev = t['ev']
  ilens = [r.randrange(0, 12) for _ in range(nd)]
  if sum(ilens) + 1 >= len(sel):
    return
  t['ilens'] = ilens
  ps = [x.to_iter_dataset(r.choice([None, NOPF]))
        for x in tagged(ilens)]
  if r.random() < .4:
    # dictionaries are ordered by key
    names = ['k%02d' % i for i in range(nd)]
    ps = dict(zip(names, ps))
    w = None if w is None else dict(zip(names, w))
  d = dataset.IterDataset.mix(ps, w)
  it = iter(d)
  cnt = [0] * nd
  snaps = []
  left = r.randrange(6)
  try:
    while True:
      if r.random() < .2:
        snaps.append((it.get_state(), list(cnt)))
      if snaps and left and r.random() < .15:
        s, c = r.choice(snaps)
        left -= 1
        if r.random() < .5:
          it.close()
          it = iter(d)
        it.set_state(s)
        cnt = list(c)
        ev.append({'e': 'iset', 'v': list(c)})
      try:
        c, k = ck(next(it))
      except StopIteration:
        ev.append({'e': 'istop'})
        if snaps and left:
          continue
        break
      ev.append({'e': 'inext', 'c': c, 'k': k})
      cnt[c - 1] += 1
  finally:
    it.close()


def concatenation(n):
  lens = [r.choice([0, 1, 1, 2, 3, 7, 20]) for _ in range(r.randrange(1, 7))]
  if not sum(lens):
    lens.append(2)
  t = out.begin({'id': 'C10/%d/%d/cat' % (common.SHARD, n), 'lens': lens, 'ev': []})
  ev = t['ev']
  try:
    # the keys seen by the components, also past their length
    ds = [Keys(c, k) for c, k in enumerate(lens)]
    d = MD.concatenate(ds)
    total = sum(lens)
    ev.append({'e': 'seq', 'v': [len(d)], 'x': [total], 'what': 'length of the concatenation'})
    js = [r.randrange(3 * total) for _ in range(30)] + list(range(min(total, 40)))
    xs = [d[j] for j in js] if r.random() < .5 else d._getitems(js)
    for j, x in zip(js, xs):
      c, k = ck(x)
      ev.append({'e': 'concat', 'i': j, 'c': c, 'k': k})
    for j, x in enumerate(d):
      c, k = ck(x)
      ev.append({'e': 'concat', 'i': j, 'c': c, 'k': k})
    e2 = d.repeat(2)
    for j, x in enumerate(e2):
      c, k = ck(x)
      ev.append({'e': 'concat', 'i': j, 'c': c, 'k': k})
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('concatenate', e))
  out.end(t)


class Keys(MD):
  """Returns the key it is asked for, whatever its length."""
  def __init__(self, c, n):
    super().__init__()
    self.c, self.n = c, n
  def __len__(self):
    return self.n
  def __getitem__(self, i):
    if isinstance(i, slice):
      return self.slice(i)
    return self.c * BIG + i


def selection(n):
  """A custom selection map is followed exactly."""
  lens = [r.randrange(1, 9) for _ in range(r.randrange(1, 4))]
  m = r.randrange(1, 15)
  ds = [r.randrange(len(lens)) for _ in range(m)]
  ks = [r.randrange(2 * lens[c]) for c in ds]
  t = out.begin({'id': 'C10/%d/%d/sel' % (common.SHARD, n), 'ev': []})
  try:
    d = MD.select_from_datasets(tagged(lens), pipes.SelMap(ds, ks))
    x = [c * BIG + k % lens[c] for c, k in zip(ds, ks)]
    t['ev'].append({'e': 'seq', 'v': [len(d)], 'x': [m], 'what': 'length of the selection'})
    t['ev'].append({'e': 'seq', 'v': [int(v) for v in d], 'x': x, 'what': 'selection'})
    js = [r.randrange(m) for _ in range(6)]
    t['ev'].append({'e': 'seq', 'v': [int(v) for v in d._getitems(js)], 'x': [x[j] for j in js], 'what': 'selection'})
  except Exception as e:  # pylint: disable=broad-except
    t['ev'].append(common.raised('select', e))
  out.end(t)


def refused(n):
  t = out.begin({'id': 'C10/%d/%d/ref' % (common.SHARD, n), 'ev': []})

  def must(what, f):
    try:
      f()
      v = 0
    except ValueError:
      v = 1
    except Exception as e:  # pylint: disable=broad-except
      v = 0
      what += ' ' + type(e).__name__
    t['ev'].append({'e': 'truth', 'v': v, 'what': what + ' is not refused'})
  a = lambda k: MD.range(k)
  must('zero weight', lambda: MD.mix([a(3), a(4)], [1, 0]))
  must('zero weight of an iterator mixture', lambda: dataset.IterDataset.mix([a(3).to_iter_dataset(), a(4).to_iter_dataset()], [0, 1.5]))
  must('empty component', lambda: MD.mix([a(3), a(0)], [1, 2]))
  must('infinite concatenation', lambda: MD.concatenate([a(3), a(2).repeat(None)]))
  must('weights and selection map', lambda: gex_mixed([a(2)], [1], pipes.SelMap([0], [0])))
  out.end(t)


def gex_mixed(ps, w, s):
  from grain._src.python.dataset.transformations import mix
  return mix.MixedMapDataset(ps, w, s)


for n in range(N):
  mixture(n)
  concatenation(n)
  selection(n)
refused(N)
