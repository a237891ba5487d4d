"""Slices, shards and worker partitions."""
import copy
import os

import common
import pipes
from grain._src.core import sharding
from grain._src.python import data_loader
from grain._src.python import samplers
from grain._src.python.dataset import dataset
from grain._src.python.dataset.transformations import prefetch
from grain._src.python.dataset.transformations import source as source_mod
from grain import experimental as gex
import grain

out = common.Out()
r = common.rng('C08')
N = int(os.environ.get('N', '20'))
MD = dataset.MapDataset
NO = pipes.NOARG


def vec(v):
  return [int(x) for x in v]


def base(n):
  """A random-access dataset of 0..n-1."""
  c = r.randrange(6)
  if c == 0:
    return MD.range(n)
  if c == 1:
    return MD.source(list(range(n)))
  if c == 2:
    return MD.source(pipes.Source(range(n))).map(lambda x: x)
  if c == 3:
    return MD.range(0, n * 3, 3).map(lambda x: x // 3)
  if c == 4 and n > 1:
    k = r.randrange(1, n)
    return MD.concatenate([MD.range(k), MD.range(k, n)])
  return MD.source(range(n)).seed(1)


def arg(n):
  return r.choice([NO, r.randrange(-n - 2, n + 3), r.randrange(-n - 2, n + 3)])


def slices(i):
  t = out.begin({'id': 'C08/%d/%d/slice' % (common.SHARD, i), 'ev': []})
  ev = t['ev']
  try:
    for _ in range(12):
      n = r.choice([0, 1, 2, 3, 5, 8, 13, r.randrange(40)])
      xs = list(range(n))
      d = base(n)
      sl = []
      for _ in range(r.choice([1, 1, 1, 2, 3])):
        m = len(xs)
        a, b, s = arg(m), arg(m), r.choice([NO, 1, 2, 3, 7, -1, -2, -5])
        s_ = slice(*(None if v == NO else v for v in (a, b, s)))
        d2 = d[s_] if r.random() < .5 else d.slice(s_)
        # the elements as positions in what is sliced
        pos = {x: k for k, x in enumerate(xs)}
        v = vec(d2) if r.random() < .5 else [int(d2[k]) for k in range(len(d2))]
        if len(d2) and r.random() < .3:
          v = vec(d2._getitems(list(range(len(d2)))))
        ev.append({'e': 'slice', 'n': m, 'start': a, 'stop': b, 'step': s, 'len': len(d2), 'v': [pos.get(x, -1) for x in v]})
        xs, d = v, d2
      # further epochs repeat the slice
      if xs:
        ev.append({'e': 'seq', 'v': vec(d[len(xs) + k] for k in range(len(xs))), 'x': xs, 'what': 'second epoch of a slice'})
      if xs:
        idx = [r.randrange(len(xs)) for _ in range(r.randrange(1, 8))]
        q = d.slice(idx)
        ev.append({'e': 'seq', 'v': vec(q), 'x': [xs[j] for j in idx], 'what': 'selected indices'})
        ev.append({'e': 'seq', 'v': [len(q)], 'x': [len(idx)], 'what': 'length of selected indices'})
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('slice', e))
  out.end(t)


def shards(i):
  t = out.begin({'id': 'C08/%d/%d/shard' % (common.SHARD, i), 'ev': []})
  ev = t['ev']
  try:
    for _ in range(8):
      n = r.choice([1, 2, 5, 8, 13, 24, r.randrange(1, 60)])
      k = r.choice([1, 2, 3, 4, 5, 7, 8, r.randrange(1, 14)])
      drop = r.random() < .4
      opt = [grain.sharding.ShardOptions(j, k, drop) if hasattr(grain, 'sharding') else sharding.ShardOptions(j, k, drop) for j in range(k)]
      se = [sharding.even_split(n, o) for o in opt]
      ev.append({'e': 'parts', 'n': n, 'drop': int(drop), 'mode': 'contig', 'parts': [list(range(*x)) for x in se]})
      d = base(n)
      ev.append({'e': 'parts', 'n': n, 'drop': 0, 'mode': 'strided', 'parts': [vec(d[j::k]) for j in range(k)]})
      ev.append({'e': 'parts', 'n': n, 'drop': 0, 'mode': 'strided',
                 'parts': [vec(d.slice(slice(j, None, k)).to_iter_dataset()) for j in range(k)]})
      ev.append({'e': 'parts', 'n': n, 'drop': int(drop), 'mode': 'contig', 'parts': [vec(d[slice(*x)]) for x in se]})
      # samplers: one epoch of every shard, without shuffling
      if n >= k:
        ss = [samplers.IndexSampler(num_records=n, shard_options=o, shuffle=False, num_epochs=1) for o in opt]
        parts = []
        for s, o in zip(ss, opt):
          parts.append([s[x].record_key for x in range(o.shard_index, len(s), k)])
        ev.append({'e': 'parts', 'n': n, 'drop': int(drop), 'mode': 'contig', 'parts': parts})
        ss = [samplers.IndexSampler(num_records=n, shard_options=o, shuffle=True, seed=7, num_epochs=1) for o in opt]
        ev.append({'e': 'parts', 'n': n, 'drop': int(drop), 'mode': 'contig',
                   'parts': [sorted(s[x].record_key for x in range(o.shard_index, len(s), k)) for s, o in zip(ss, opt)]})
      s = [samplers.SequentialSampler(num_records=n, shard_options=o) for o in opt]
      ev.append({'e': 'parts', 'n': n, 'drop': int(drop), 'mode': 'strided',
                 'parts': [[s[j][x].record_key for x in range(j, len(s[j]), k)] for j in range(k)]})
      j = r.randrange(k)
      loader = data_loader.DataLoader(data_source=pipes.Source(range(n)), sampler=s[j], worker_count=0)
      ev.append({'e': 'seq', 'v': vec(loader), 'x': list(range(j, (n // k) * k if drop else n, k)), 'what': 'shard of the loader'})
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('shard', e))
  out.end(t)


def transform(d):
  """Random-access transformations that keep the elements, their order and the length."""
  for _ in range(r.randrange(3)):
    c = r.randrange(3)
    d = d.map(pipes.Affine(1, 0)) if c == 0 else d.seed(3) if c == 1 else d.filter(pipes.yes)
  return d


def pipeline(n, sequential):
  """An iterator pipeline of 0..n-1 that workers can slice."""
  c = r.randrange(7)
  if c == 0:     # the same iterator dataset in two branches
    i = transform(base_(n)).to_iter_dataset()
    return gex.ZipIterDataset([i.map(pipes.Affine(1, 0)), i.map(pipes.neg)]).map(pipes.pair), 'diamond of iterators'
  if c == 1:     # the same source below two iterator datasets
    d = transform(base_(n))
    return gex.ZipIterDataset([d.to_iter_dataset(), d.map(pipes.neg).to_iter_dataset()]).map(pipes.pair), 'diamond at the source'
  if c == 2 and not sequential:
    d = transform(base_(n))
    return gex.ZipMapDataset([d, d.map(pipes.neg)]).map(pipes.pair).to_iter_dataset(), 'diamond of random access'
  d = transform(base(n) if not sequential else base_(n)).to_iter_dataset()
  if c == 3:
    d = d.map(pipes.Affine(1, 0)).filter(pipes.yes)
  if c == 4:
    d = gex.ThreadPrefetchIterDataset(d, prefetch_buffer_size=2)
  return d, 'chain'


def base_(n):
  return r.choice([lambda: MD.range(n), lambda: MD.source(pipes.Source(range(n))), lambda: MD.source(list(range(n)))])()


def workers(i, process=False):
  n = r.choice([1, 2, 3, 7, 8, 12, r.randrange(1, 40)])
  k = r.choice([1, 2, 3, 4, 5, 9])
  if process:
    k = r.choice([2, 3])
  seq = r.random() < .4
  d, kind = pipeline(n, seq)
  t = out.begin({'id': 'C08/%d/%d/workers' % (common.SHARD, i), 'what': kind, 'n': n, 'k': k, 'sequential': int(seq), 'ev': []}, 100)
  ev = t['ev']
  try:
    before = vec(d)
    ev.append({'e': 'seq', 'v': before, 'x': list(range(n)), 'what': 'unsliced data'})
    parts = []
    for j in range(k):
      q = copy.deepcopy(d)
      if k > 1:
        prefetch._set_slice_iter_dataset(q, slice(j, None, k), seq)
      parts.append(vec(q))
    ev.append({'e': 'parts', 'n': n, 'drop': 0, 'mode': 'contig' if seq else 'strided', 'parts': parts})
    if process:
      got = vec(d.mp_prefetch(grain.MultiprocessingOptions(num_workers=k, per_worker_buffer_size=r.choice([1, 3])), sequential_slice=seq))
    else:
      got = vec(gex.multithread_prefetch(d, num_threads=k, buffer_size=r.choice([1, 3]), sequential_slice=seq))
    ev.append({'e': 'rr', 'v': got, 'parts': parts})
    if not seq:
      ev.append({'e': 'seq', 'v': got, 'x': list(range(n)), 'what': 'data read by workers'})
    ev.append({'e': 'seq', 'v': vec(d), 'x': before, 'what': 'data after slicing for workers'})
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('workers', e))
  out.end(t)


def nested(i):
  """Hosts take slices, then workers."""
  n, k, m = r.randrange(1, 40), r.choice([1, 2, 3]), r.choice([2, 3, 4])
  t = out.begin({'id': 'C08/%d/%d/nested' % (common.SHARD, i), 'n': n, 'ev': []}, 60)
  try:
    parts = []
    d = base(n)
    for h in range(k):
      parts.append(vec(gex.multithread_prefetch(d[h::k].to_iter_dataset(), num_threads=m, buffer_size=1)))
    t['ev'].append({'e': 'parts', 'n': n, 'drop': 0, 'mode': 'strided', 'parts': parts})
  except Exception as e:  # pylint: disable=broad-except
    t['ev'].append(common.raised('nested', e))
  out.end(t)


class Fan2(pipes.Fan):
  pass


def stored():
  """Sequential slices below operators that store lengths (known findings)."""
  n, k = 8, 2
  D = {
      'batch': lambda d: d.batch(3), 'repeat': lambda d: d.repeat(2),
      'mix': lambda d: MD.mix([d, d.map(plus100)]), 'concat': lambda d: MD.concatenate([d, d.map(plus100)]),
      'zip': lambda d: gex.ZipMapDataset([d, d.map(plus100)]),
  }
  for name, f in sorted(D.items()):
    t = out.begin({'id': 'C08/stored/' + name, 'ev': [], 'fingerprint': 'sequential-slice-' + name}, 60)
    try:
      d = f(MD.range(n)).to_iter_dataset()
      flat = lambda x: sorted(v for e in x for v in pipes.enc(e) if v >= 0)
      t['ev'].append({'e': 'bag', 'x': flat(d), 'v': flat(gex.multithread_prefetch(d, num_threads=k, buffer_size=1, sequential_slice=True))})
    except Exception as e:  # pylint: disable=broad-except
      t['ev'].append(common.raised('sequential slice', e))
    out.end(t)


def plus100(x):
  return x + 100


def refused():
  t = out.begin({'id': 'C08/%d/refused' % common.SHARD, 'ev': []})

  def must(what, f):
    try:
      f()
      v = 0
    except ValueError:
      v = 1
    t['ev'].append({'e': 'truth', 'v': v, 'what': what + ' is not refused'})
  must('shard index past the count', lambda: sharding.ShardOptions(3, 3))
  must('negative shard index', lambda: sharding.ShardOptions(-1, 3))
  must('no shards', lambda: sharding.ShardOptions(0, 0))
  out.end(t)


for i in range(N):
  slices(i)
  shards(i)
  workers(i)
  nested(i)
if common.SHARD == 0:
  stored()
for i in range(8 if common.THOROUGH else 1):
  workers(N + i, process=True)
refused()
