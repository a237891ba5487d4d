"""Orders produced by every shuffle."""
import os

import common
import pipes
from grain._src.python.dataset import dataset
from grain._src.python.experimental.index_shuffle.python import index_shuffle_module as ism
from grain._src.python import samplers
from grain import experimental as gex
import grain

out = common.Out()
r = common.rng('C07')
N = int(os.environ.get('N', '10'))
MD = dataset.MapDataset
FREE = 20     # from this length on different seeds must give different orders
NOPF = grain.ReadOptions(num_threads=0, prefetch_buffer_size=0)


def seeds():
  return r.choice([0, 1, r.randrange(1000), r.randrange(2**32), 2**32 - 1, 2**32 - 2, 2**31, 2**31 - 1])


def vec(v):
  return [int(x) for x in v]


def glob(n):
  """Global shuffle over some epochs, by several access paths."""
  ln = r.choice([1, 2, 3, 4, 5, 7, 8, 15, 16, 17, r.randrange(1, 40), r.randrange(20, 130)])
  s = seeds()
  t = out.begin({'id': 'C07/%d/%d/shuffle%d-%d' % (common.SHARD, n, ln, s), 'ev': []})
  ev = t['ev']
  try:
    for rep in range(2):
      src = MD.range(ln) if r.random() < .5 else MD.source(pipes.Source(range(ln)))
      d = Raw(ln).shuffle(seed=s)     # sees the indices asked for
      ev.append({'e': 'seq', 'v': [len(d)], 'x': [ln], 'what': 'length'})
      first = r.choice([0, 0, 1, 2, r.randrange(50)])
      for ep in range(first, first + 4):
        js = list(range(ep * ln, (ep + 1) * ln))
        how = r.randrange(4)
        if how == 0:
          v = [d[j] for j in js]
        elif how == 1:
          v = d._getitems(js)
        elif how == 2:
          o = list(js)
          r.shuffle(o)
          got = {j: d[j] for j in o}
          v = [got[j] for j in js]
        else:
          v = []
          while js:
            k = r.randrange(1, 9)
            v, js = v + list(d._getitems(js[:k])), js[k:]
        v = [x - ep * ln for x in vec(v)]
        ev.append({'e': 'perm', 'n': ln, 'w': 0, 'v': v})
        if ln >= FREE:
          ev.append({'e': 'draw', 'g': 'g', 'k': 'epoch %d' % ep, 'v': v})
      d2 = src.shuffle(seed=s)
      ev.append({'e': 'perm', 'n': ln, 'w': 0, 'v': vec(d2)})
      if ln >= FREE:
        ev.append({'e': 'draw', 'g': 'g', 'k': 'epoch 0', 'v': vec(d2)})
        # another seed gives another order (the epochs use consecutive seeds)
        s3 = (s + r.randrange(1000, 2**31)) % 2**32
        ev.append({'e': 'draw', 'g': 'g', 'k': 'other %d' % s3, 'v': vec(src.shuffle(seed=s3))})
        ev.append({'e': 'truth', 'v': int(vec(d2) != list(range(ln))), 'what': 'order is not shuffled'})
      rep2 = vec(src.shuffle(seed=s).repeat(3))
      for ep in range(3):
        ev.append({'e': 'perm', 'n': ln, 'w': 0, 'v': rep2[ep * ln:(ep + 1) * ln]})
        if ln >= FREE:
          ev.append({'e': 'draw', 'g': 'g', 'k': 'epoch %d' % ep, 'v': rep2[ep * ln:(ep + 1) * ln]})
      rep3 = vec(src.shuffle(seed=s).repeat(3, reseed_each_epoch=False))
      for ep in range(3):
        ev.append({'e': 'seq', 'v': rep3[ep * ln:(ep + 1) * ln], 'x': vec(d2), 'what': 'epoch without reseeding'})
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('shuffle', e))
  out.end(t)


class Raw(MD):
  """Returns the index it is asked for."""
  def __init__(self, n):
    super().__init__()
    self.n = n
  def __len__(self):
    return self.n
  def __getitem__(self, i):
    if isinstance(i, slice):
      return self.slice(i)
    return i


def windowed(n):
  ln = r.randrange(1, 70)
  w = r.choice([1, 2, 3, ln, ln + 1, ln + 7, r.randrange(1, ln + 1), r.randrange(1, ln + 1)])
  s = seeds()
  t = out.begin({'id': 'C07/%d/%d/window%d-%d-%d' % (common.SHARD, n, ln, w, s), 'ev': []})
  ev = t['ev']
  try:
    d = gex.WindowShuffleMapDataset(Raw(ln), window_size=w, seed=s)
    for ep in range(3):
      js = list(range(ep * ln, (ep + 1) * ln))
      v = [d[j] for j in js] if r.random() < .5 else d._getitems(js)
      v = [x - ep * ln for x in vec(v)]
      ev.append({'e': 'perm', 'n': ln, 'w': w, 'v': v})
      # the order of a window depends on the seed, the epoch and the window
      for k in range(0, ln, w):
        if min(w, ln - k) >= FREE:
          ev.append({'e': 'draw', 'g': 'w%d' % min(w, ln - k), 'k': '%d/%d' % (ep, k), 'v': [x - k for x in v[k:k + w]]})
    d = gex.WindowShuffleMapDataset(MD.range(ln), window_size=w, seed=s)
    ev.append({'e': 'perm', 'n': ln, 'w': w, 'v': vec(d)})
    di = gex.WindowShuffleIterDataset(MD.range(ln).to_iter_dataset(NOPF), window_size=w, seed=s)
    it = iter(di)
    got = []
    snaps = [(it.get_state(), [])]
    left = r.randrange(8)
    while True:
      if r.random() < .15:
        snaps.append((it.get_state(), list(got)))
      if left and r.random() < .15:
        left -= 1
        st, g = r.choice(snaps)
        if r.random() < .5:
          it.close()
          it = iter(di)
        it.set_state(st)
        got = list(g)
      try:
        got.append(int(next(it)))
      except StopIteration:
        if left:
          left -= 1
          st, g = r.choice(snaps)
          it.set_state(st)
          got = list(g)
          continue
        break
    it.close()
    ev.append({'e': 'perm', 'n': ln, 'w': w, 'v': got})
    for k in range(0, ln, w):
      if min(w, ln - k) >= FREE:
        ev.append({'e': 'draw', 'g': 'i%d' % min(w, ln - k), 'k': '%d' % k, 'v': [x - k for x in got[k:k + w]]})
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('window shuffle', e))
  out.end(t)


def sampler(n):
  ln = r.randrange(1, 60)
  s = seeds()
  t = out.begin({'id': 'C07/%d/%d/sampler%d-%d' % (common.SHARD, n, ln, s), 'ev': []})
  ev = t['ev']
  try:
    sm = samplers.IndexSampler(num_records=ln, shuffle=True, seed=s, num_epochs=r.choice([None, 3]))
    for ep in range(3):
      v = vec(sm[i].record_key for i in range(ep * ln, (ep + 1) * ln))
      ev.append({'e': 'perm', 'n': ln, 'w': 0, 'v': v})
      if ln >= FREE:
        ev.append({'e': 'draw', 'g': 'g', 'k': 'epoch %d' % ep, 'v': v})
        ev.append({'e': 'draw', 'g': 'g', 'k': 'epoch %d' % ep, 'v': [sm[i].record_key for i in range(ep * ln, (ep + 1) * ln)]})
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('sampler', e))
  out.end(t)


def extension(n, lens):
  t = out.begin({'id': 'C07/%d/%d/index_shuffle' % (common.SHARD, n), 'ev': []}, 120)
  ev = t['ev']
  try:
    for ln in lens:
      s = seeds()
      rd = r.choice([4, 4, 6, 8])
      v = [ism.index_shuffle(i, max_index=ln - 1, seed=s, rounds=rd) for i in range(ln)]
      ev.append({'e': 'perm', 'n': ln, 'w': 0, 'v': v})
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('index_shuffle', e))
  out.end(t)


def split(x):
  return list(divmod(int(x), 2**20))


def samples(n):
  """Injectivity on samples of ranges too long to enumerate."""
  t = out.begin({'id': 'C07/%d/%d/samples' % (common.SHARD, n), 'ev': []}, 120)
  ev = t['ev']
  try:
    for k in range(4):
      b = r.randrange(17, 41)
      ln = r.choice([2**b - 1, 2**b, 2**b + 1, 2**b + 2, r.randrange(2**b, 2**(b + 1))])
      s = seeds()
      js = {0, 1, ln - 1, ln - 2, ln // 2, min(2**b, ln - 1), min(2**b - 1, ln - 1)}
      js |= {ln - 1 - r.randrange(300) for _ in range(100)} | {r.randrange(300) for _ in range(100)}
      js |= {r.randrange(ln) for _ in range(400)}
      v = [split(ism.index_shuffle(i, max_index=ln - 1, seed=s, rounds=4)) for i in sorted(js)]
      ev.append({'e': 'sample', 'n': split(ln), 'v': v, 'len': str(ln)})
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('index_shuffle', e))
  out.end(t)


def rejected(n):
  t = out.begin({'id': 'C07/%d/%d/rejected' % (common.SHARD, n), 'ev': []})
  for s in (-1, 2**32):
    try:
      MD.range(4).shuffle(seed=s)
      v = 0
    except ValueError:
      v = 1
    t['ev'].append({'e': 'truth', 'v': v, 'what': 'seed out of range is not refused'})
  out.end(t)


for n in range(N):
  glob(n)
  windowed(n)
  sampler(n)
  samples(n)
  extension(n, [r.randrange(70, 1500) for _ in range(2)])
extension(N, [x for x in range(1, 71) if x % common.NSHARDS == common.SHARD])
BIG = [2**16 + 1, 2**16, 2**12 + 1, 2**14 + 1, 2**16 - 1, 2**15 + 1, 2**10 + 1, 40000]
extension(N + 1, [BIG[common.SHARD % 8]])
if common.THOROUGH:
  extension(N + 2, [2**17 + 1, 100003])
rejected(N)
