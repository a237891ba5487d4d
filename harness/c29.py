"""Specifications of elements."""
import os

import common
import grain
from grain import experimental as gex
import numpy as np
import speclib

out = common.Out()
r = common.rng('C29')
N = int(os.environ.get('N', '60'))
NP = int(os.environ.get('NP', '2'))
K = 'ab'
KINDS = ['float', 'wrap', 'wrap', 'axis', 'pair', 'pick']


def enc(x, f):
  if isinstance(x, dict):
    return {'t': 'd', 'n': 'dict', 'k': [K.index(k) for k in x], 'c': [enc(v, f) for v in x.values()]}
  if isinstance(x, tuple):
    return {'t': 's', 'n': 'tuple', 'c': [enc(v, f) for v in x]}
  s, d = f(x)
  return {'t': 'l', 'v': s, 'd': d}


def of_array(x):
  a = np.asarray(x)
  return list(a.shape), a.dtype.name


def of_spec(x):
  return [-1 if n is None else int(n) for n in x.shape], np.dtype(x.dtype).name


def rows(els):
  """Numbers of rows of batches, or None if there are other elements."""
  ls = []
  def each(a):
    ls.append(np.asarray(a).shape[:1])
    return a
  res = []
  for e in els:
    ls.clear()
    speclib.leaves(each, e)
    if len(set(ls)) != 1 or ls[0] == () or not ls[0][0]:
      return None
    res.append(ls[0][0])
  return res


def same(els):
  return len({repr(enc(e, of_array)) for e in els}) <= 1


def tails(els):
  return len({repr(enc(e, lambda a: (list(np.asarray(a).shape[1:]), np.asarray(a).dtype.name))) for e in els}) <= 1


def elements(ds):
  if isinstance(ds, grain.MapDataset):
    return [x for x in (ds[i] for i in range(min(len(ds), 60))) if x is not None]
  res = []
  for x in ds:
    res.append(x)
    if len(res) >= 60:
      break
  return res


def build(depth, proc):
  """(description, dataset, whether it is infinite)"""
  n = r.randrange(0, 14) if r.random() < .9 else 0
  n = max(n, 1) if depth else n
  p, ds, inf, sparse = {'op': 'range', 'n': n}, grain.MapDataset.range(n), False, False
  if depth and r.random() < .3:
    ds = grain.MapDataset.range(3, 3 + 2 * n, 2)
  ds = ds.seed(r.randrange(100))
  for _ in range(depth):
    m = isinstance(ds, grain.MapDataset)
    x = r.random()
    keep = None
    if x < .28:
      k = r.choice(KINDS)
      t = r.choice([speclib.Map, speclib.MapWithIndex, speclib.RandomMap])(k)
      ds = ds.seed(5)
      ds = (ds.map(t) if isinstance(t, speclib.Map) else ds.map_with_index(t) if isinstance(t, speclib.MapWithIndex)
            else ds.random_map(t)) if r.random() < .6 else ds.apply(t)
      p = {'op': 'map', 'p': p, 'k': k}
    elif x < .45:
      els = elements(ds)
      b, drop = r.choice([1, 2, 3, 4, 7]), r.random() < .5
      if m and drop and len(ds) < b:   # there are no batches
        drop = False
      if els and same(els) and not (m and sparse):
        if r.random() < .25:
          ds, op = ds.batch(b, drop_remainder=drop, batch_fn=speclib.Stack()), 'cbatch'
        elif r.random() < .3:
          ds, op = ds.apply(grain.transforms.Batch(b, drop)), 'batch'
        else:
          ds, op = ds.batch(b, drop_remainder=drop), 'batch'
        p = {'op': op, 'p': p, 'b': b, 'drop': int(drop)}
    elif x < .55 and not m:
      els = elements(ds)
      c = rows(els) if els else None
      if c and tails(els) and not inf:
        b = r.choice([1, 2, 3, 4, 6])
        drop = sum(c) % b != 0 or r.random() < .5
        ds = gex.RebatchIterDataset(ds, b, drop_remainder=drop)
        p = {'op': 'rebatch', 'p': p, 'b': b, 'drop': int(drop)}
    elif x < .7:
      if m:
        o = r.choice(['shuffle', 'slice', 'repeat', 'filter', 'window', 'seed'])
        sparse = sparse or o == 'filter'
        ds = {'shuffle': lambda: ds.shuffle(seed=3), 'slice': lambda: ds[r.randrange(2):len(ds):r.choice([1, 2])] if len(ds) > 2 else ds,
              'repeat': lambda: ds.repeat(2), 'filter': lambda: ds.filter(speclib.Keep()),
              'window': lambda: gex.WindowShuffleMapDataset(ds, window_size=3, seed=2), 'seed': lambda: ds.seed(4)}[o]()
      else:
        o = r.choice(['filter', 'window', 'limit', 'thread', 'cache', 'mt', 'repeat', 'seed'] + (['mp', 'mp0'] if proc else ['mp0']))
        if o in ('cache', 'repeat') and inf:
          o = 'limit'
        if o == 'mt' and inf:
          o = 'limit'
        ds = {'filter': lambda: ds.filter(speclib.Keep()), 'window': lambda: gex.WindowShuffleIterDataset(ds, window_size=3, seed=2),
              'limit': lambda: gex.LimitIterDataset(ds, r.randrange(1, 9)), 'thread': lambda: gex.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=2),
              'cache': lambda: gex.CacheIterDataset(ds), 'mt': lambda: gex.multithread_prefetch(ds, num_threads=0, buffer_size=2),
              'repeat': lambda: gex.RepeatIterDataset(ds, 2), 'seed': lambda: ds.seed(4),
              'mp': lambda: ds.mp_prefetch(grain.MultiprocessingOptions(num_workers=1, per_worker_buffer_size=1)),
              'mp0': lambda: ds.mp_prefetch(grain.MultiprocessingOptions(num_workers=0))}[o]()
        if o == 'mp':
          proc = False
        if o == 'limit':
          inf = False
      p = {'op': 'keep', 'p': p}
    elif x < .8 and not inf:
      if r.random() < .5:
        ds = (gex.ZipMapDataset if m else gex.ZipIterDataset)([ds, ds])
        p = {'op': 'zip', 'ps': [p, p]}
      else:
        o = r.choice(['mix', 'concat'] if m else ['mix', 'inter'])
        ds = {'mix': lambda: (grain.MapDataset if m else grain.IterDataset).mix([ds, ds]),
              'concat': lambda: grain.MapDataset.concatenate([ds, ds]),
              'inter': lambda: gex.InterleaveIterDataset([ds, ds], cycle_length=r.choice([1, 2]))}[o]()
        p = {'op': 'first', 'ps': [p, p]}
    elif m and r.random() < .7 and len(ds):
      ds = ds.to_iter_dataset(grain.ReadOptions(num_threads=r.choice([0, 1]), prefetch_buffer_size=2))
      p = {'op': 'keep', 'p': p}
  return p, ds


def pipeline(depth, proc=False):
  try:
    p, ds = build(depth, proc)
  except Exception as e:
    raise RuntimeError('cannot build') from e
  t = out.begin({'p': p, 'ds': str(type(ds).__name__), 'ev': []}, 120)
  check(t, ds)
  out.end(t)


def check(t, ds):
  n = speclib.CALLS[0]
  e = {'e': 'spec'}
  try:
    e.update(res='ok', r=enc(gex.get_element_spec(ds), of_spec))
  except Exception as x:  # pylint: disable=broad-except
    e.update(res='err', what=('%s: %s' % (type(x).__name__, x))[:200])
  e['calls'] = speclib.CALLS[0] - n
  t['ev'].append(e)
  if e['res'] == 'ok':
    try:
      for x in elements(ds):
        t['ev'].append({'e': 'el', 'x': enc(x, of_array)})
    except ValueError as x:   # elements that cannot be batched
      if 'Expected all input elements' not in str(x) and 'same shape' not in str(x):
        raise


def known():
  ds = gex.RebatchIterDataset(grain.MapDataset.range(6).batch(2).to_iter_dataset(), 4)
  t = out.begin({'p': {'op': 'rebatch', 'p': {'op': 'keep', 'p': {'op': 'batch', 'p': {'op': 'range', 'n': 6}, 'b': 2, 'drop': 0}}, 'b': 4, 'drop': 0},
                 'ds': 'known', 'ev': [], 'fingerprint': 'rebatch-remainder-spec'})
  check(t, ds)
  out.end(t)


if common.SHARD == 0:
  known()
for _ in range(N):
  pipeline(r.choice([1, 2, 3, 4, 5, 6, 7]))
for _ in range(NP):
  pipeline(6, True)
