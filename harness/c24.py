"""Jobs that save into and restore from checkpoint directories (C24)."""
import asyncio
import gc
import json
import os
import shutil
import tempfile
import threading
import types

from etils import epath
import numpy as np

import common
import loads
import pipes
import special
import grain
from grain._src.core import sharding
from grain._src.python.checkpoint import handler
from grain._src.python.dataset import elastic_iterator

hists = json.load(open(os.environ['HISTS']))
out = common.Out()
r = common.rng('c24')
N = int(os.environ.get('N', '20'))
PER = int(os.environ.get('PER', '3'))
common.fast_workers(['grain', 'grain.python', 'loads', 'pipes', 'grain._src.python.dataset.transformations.process_prefetch'])
g = pipes.Gen(r, maxlen=16, maxn=8, files=True)
WHO = [0, 1]
real = sharding.get_process_index_and_count
sharding.get_process_index_and_count = lambda: tuple(WHO)


class Coming:
  """A directory that is created while it is awaited."""

  def __init__(self, path):
    self.path = path
    self.go = threading.Event()

  async def await_creation(self):
    while not self.go.is_set():
      await asyncio.sleep(0.001)
    self.path.mkdir(parents=True, exist_ok=True)
    return self.path


class Background(threading.Thread):
  """Runs a coroutine like Orbax does, in another thread."""

  def __init__(self, coro):
    super().__init__(daemon=True)
    self.coro, self.error = coro, None

  def run(self):
    async def main():
      await self.coro
    try:
      asyncio.run(main())
    except Exception as e:  # pylint: disable=broad-except
      self.error = e

  def end(self):
    if self.ident is None:
      self.start()
    self.join()
    if self.error is not None:
      raise self.error


class Job:

  def __init__(self, t, mk, enc, procs):
    self.t, self.ev, self.mk, self.enc, self.procs = t, t['ev'], mk, enc, procs
    self.its, self.writes, self.loads = {}, {}, {}
    self.q = 0
    self.made = 0
    self.top = epath.Path(tempfile.mkdtemp(dir=common.SCRATCH))

  def dir(self, d):
    return self.top / ('step_%d' % d) / 'data iter'

  def guard(self, op, fn):
    try:
      return fn()
    except Exception as e:  # pylint: disable=broad-except
      self.ev.append(common.raised(op, e))
      raise common.Stop() from e

  def close(self, it):
    if hasattr(it, 'close'):
      self.guard('close', it.close)

  def new(self, p):
    if p in self.its:
      self.close(self.its.pop(p))
    self.made += 1
    self.its[p] = self.guard('create', lambda: iter(self.mk(self.q, p)))

  def start(self, q):
    for it in self.its.values():
      self.close(it)
    for w in self.writes.values():
      if w[1].ident is None:
        w[1].coro.close()          # never written
      else:
        w[0].path = self.top / 'lost'
        w[0].go.set()
        w[1].join()
    for b in self.loads.values():
      b.coro.close()
    self.its, self.writes, self.loads = {}, {}, {}
    self.q = q
    for p in range(q):
      self.new(p)
    self.ev.append({'e': 'start', 'q': q})

  def next(self, p, k):
    for _ in range(k):
      try:
        x = next(self.its[p])
      except StopIteration:
        self.ev.append({'e': 'stop', 'p': p})
        return False
      except Exception as e:  # pylint: disable=broad-except
        self.ev.append(common.raised('next', e))
        raise common.Stop() from e
      self.ev.append({'e': 'next', 'p': p, 'v': self.enc(x)})
    return True

  def args(self, it):
    k = r.randrange(3)
    return {'item': it} if k == 0 else {'args': types.SimpleNamespace(item=it)} if k == 1 else {'item': None, 'args': types.SimpleNamespace(item=it)}

  def save(self, p, d):
    WHO[:] = [p, self.q]
    self.dir(d).mkdir(parents=True, exist_ok=True)
    self.guard('save', lambda: handler.CheckpointHandler().save(self.dir(d), **self.args(self.its[p])))
    self.ev.append({'e': 'save', 'p': p, 'd': d})

  def restore(self, p, d):
    WHO[:] = [p, self.q]
    it = self.its[p]
    try:
      back = handler.CheckpointHandler().restore(self.dir(d), **self.args(it))
    except ValueError as e:
      if 'does not exist' not in str(e):
        self.ev.append(common.raised('restore', e))
        raise common.Stop() from e
      self.ev.append({'e': 'missing', 'p': p, 'd': d})
      return
    except Exception as e:  # pylint: disable=broad-except
      self.ev.append(common.raised('restore', e))
      raise common.Stop() from e
    if back is not it:
      self.ev.append({'e': 'raise', 'op': 'restore returned another iterator'})
      raise common.Stop()
    self.ev.append({'e': 'restore', 'p': p, 'd': d})

  def savebegin(self, p, d, w):
    WHO[:] = [p, self.q]
    c = Coming(self.dir(d))
    b = Background(self.guard('save', lambda: asyncio.run(self.its[p].save(c))))
    self.writes[w] = (c, b, p)
    if r.random() < .6:
      b.start()            # waits for the directory
    self.ev.append({'e': 'savebegin', 'p': p, 'd': d, 'w': w})

  def saveend(self, w):
    c, b, p = self.writes.pop(w)
    WHO[:] = [p, self.q]
    c.go.set()
    self.guard('background save', b.end)
    self.ev.append({'e': 'saveend', 'w': w})

  def loadbegin(self, p, d):
    WHO[:] = [p, self.q]
    self.loads[p] = Background(self.guard('load', lambda: asyncio.run(self.its[p].load(self.dir(d)))))
    self.ev.append({'e': 'loadbegin', 'p': p, 'd': d})

  def loadend(self, p):
    WHO[:] = [p, self.q]
    try:
      self.loads.pop(p).end()
    except Exception as e:  # pylint: disable=broad-except
      self.ev.append(common.raised('background load', e))
      raise common.Stop() from e
    self.ev.append({'e': 'loadend', 'p': p})

  def fresh(self, p, want):
    # (iterators with worker processes are made rarely)
    if want and (not self.procs or self.made < 7):
      self.new(p)
      self.ev.append({'e': 'fresh', 'p': p})

  def run(self, hist):
    try:
      for h in hist:
        op = h['op']
        if op == 'start':
          if self.procs and self.q and self.made > 5:
            break
          self.start(h['q'])
        elif op == 'next':
          self.next(h['p'], h['k'])
        elif op == 'save':
          self.save(h['p'], h['d'])
        elif op in ('restore', 'missing'):
          self.fresh(h['p'], h.get('fresh'))
          self.restore(h['p'], h['d'])
        elif op == 'savebegin':
          self.savebegin(h['p'], h['d'], h['w'])
        elif op == 'saveend':
          self.saveend(h['w'])
        elif op == 'loadbegin':
          self.fresh(h['p'], h['fresh'])
          self.loadbegin(h['p'], h['d'])
        elif op == 'loadend':
          self.loadend(h['p'])
      for p in sorted(self.loads):
        self.loadend(p)
      for w in sorted(self.writes):
        self.saveend(w)
      # everything that is saved can be restored, and goes on from there
      for d in range(2):
        for p in range(self.q):
          self.restore(p, d)
          self.next(p, 2)
      for p in range(self.q):
        self.next(p, 60)
    except common.Stop:
      pass
    finally:
      for it in self.its.values():
        try:
          if hasattr(it, 'close'):
            it.close()
        except Exception as e:  # pylint: disable=broad-except
          self.ev.append(common.raised('close', e))
      self.its.clear()
      gc.collect()
      shutil.rmtree(self.top, ignore_errors=True)


def moved(p, k):
  """The same pipeline over other data."""
  def f(q):
    if q['op'] == 'src':
      return {**q, 'xs': [[v + 1000 * k for v in x] for x in q['xs']]}
    return q
  return pipes.rewrite(p, f)


PLACES = [(c, p) for c in (1, 2, 3) for p in range(c)]


def streams(f):
  return [[f(c, p) for p in range(c)] for c in (1, 2, 3)]


def datasets(top):
  while True:
    p, _ = g.itree(r.choice([1, 2, 2, 3]), top=top)
    if 'range' in pipes.ops_of(p):
      continue
    try:
      ps = {cp: pipes.iresolve(moved(p, i + 1)) for i, cp in enumerate(PLACES)}
      st = streams(lambda c, i: {'ast': pipes.clean(ps[c, i])})
      refs = [len(common.reference(lambda: pipes.ibuild(ps[cp]), pipes.enc)) for cp in [(1, 0)]]
    except pipes.BadTable:
      continue
    if refs[0] > 60:
      continue
    return st, (lambda c, i: pipes.ibuild(ps[c, i])), pipes.enc, p


def encl(x):
  a = np.asarray(x)
  return [a.ndim] + list(a.shape) + [int(v) for v in a.reshape(-1)]


def loaders():
  wk = r.choice([0, 0, 0, 1, 2])
  n = r.choice([6, 9, 13, 20])
  ops = [o for o in [r.choice([{'op': 'map', 'k': 3}, {'op': 'filter', 'm': 5, 'r': 1}, {'op': 'filter', 'm': 2, 'r': 0}]),
                     {'op': 'batch', 'b': r.choice([1, 2, 3]), 'drop': r.randrange(2)}] if r.random() < .7]
  index = r.random() < .7
  shuffle = int(index and r.random() < .6)
  base = {'wk': wk, 'n': n, 'drop': r.randrange(2), 'nosh': 0, 'kind': 'index' if index else 'seq', 'shuffle': shuffle,
          'seed': 7 if shuffle else None, 'epochs': r.choice([1, 2]) if index and n % 6 == 0 else 1, 'src': r.choice(['list', 'src']), 'slow': 0,
          'threads': r.choice([None, 0, 2]), 'buf': 4, 'wbuf': r.choice([1, 2]), 'ops': ops}

  def d(c, p):
    return {**base, 'c': c, 's': p}

  def spec(c, p):
    d1 = d(c, p)
    s = loads.sampler(d1)
    tab = [int(s[k].record_key) if k % c == p else -1 for k in range(len(s))]
    return {'loader': {'table': tab, 'tlen': len(s), 's': p, 'c': c, 'drop': base['drop'], 'wk': wk, 'ops': ops,
                       'draws': [[0, 0, 0, 0]] * len(s)}}
  return streams(spec), (lambda c, p: loads.loader(d(c, p))), encl, base


def recorded(mk, enc, desc):
  return streams(lambda c, p: {'ref': common.reference(lambda: mk(c, p), enc)}), mk, enc, desc


def elastics():
  n, b = r.choice([6, 12, 17, 24]), 6 * r.choice([1, 1, 2])
  sh = r.random() < .5
  ds = grain.MapDataset.range(n).map(pipes.Affine(3, 1))
  if sh:
    ds = ds.shuffle(seed=4)
  ds = ds.repeat(2)
  mk = lambda c, p: elastic_iterator.ElasticIterator(ds, b, sharding.ShardOptions(shard_index=p, shard_count=c))
  return recorded(mk, encl, {'elastic': n, 'batch': b, 'shuffle': sh})


def specials():
  sk = r.choice([k for k in special.KINDS if k != 'elastic'])   # (elastic iterators are in C17)
  _, m = special.make(r, sk)
  # the processes read different parts of the same data
  ref = common.reference(m, special.encd)
  st = streams(lambda c, p: {'ref': ref})
  return st, (lambda c, p: m()), special.encd, 'special:' + sk


TOPS = ['rmap', 'filter', 'flatmap', 'batch', 'rebatch', 'limit', 'repeat', 'wshuf', 'cache', 'thr', 'zip', 'mix', 'inter', 'mt', 'map', 'mapidx']
h = common.SHARD
for n in range(N):
  kind = ['ds', 'ds', 'dl', 'sp', 'ds', 'dl', 'el', 'mp'][n % 8]
  t = out.begin({'id': 'C24/%d/%d' % (common.SHARD, n), 'kind': kind, 'streams': [], 'ev': [], 'ops': kind}, 120)
  try:
    if kind in ('ds', 'mp'):
      st, mk, enc, desc = datasets('mp' if kind == 'mp' else TOPS[(common.SHARD * N + n) % len(TOPS)])
    else:
      st, mk, enc, desc = {'dl': loaders, 'sp': specials, 'el': elastics}[kind]()
  except Exception as e:  # pylint: disable=broad-except
    t['ev'].append(common.raised('building', e))
    out.end(t)
    continue
  out.cancel()
  procs = kind == 'mp' or kind == 'dl' and desc['wk'] > 0
  for _ in range(1 if procs else PER):
    t = out.begin({'id': 'C24/%d/%d/%d' % (common.SHARD, n, h), 'kind': kind, 'streams': st, 'ev': [],
                   'ops': '>'.join(pipes.ops_of(desc)) if kind in ('ds', 'mp') else kind, 'pipeline': json.dumps(desc)}, 120)
    hist = hists[h % len(hists)]
    Job(t, mk, enc, procs).run(hist[:12] if procs else hist)
    h += common.NSHARDS
    out.end(t)

if common.SHARD == 0:
  # without any stand-in for the process index
  sharding.get_process_index_and_count = real
  t = out.begin({'id': 'C24/real', 'kind': 'ds', 'streams': streams(lambda c, p: {'ref': [[v] for v in range(5)]}), 'ev': [], 'ops': 'real'}, 60)
  hist = [{'op': 'start', 'q': 1}, {'op': 'next', 'p': 0, 'k': 2}, {'op': 'save', 'p': 0, 'd': 0}, {'op': 'next', 'p': 0, 'k': 1},
          {'op': 'savebegin', 'p': 0, 'd': 1, 'w': 0}, {'op': 'next', 'p': 0, 'k': 1}, {'op': 'saveend', 'w': 0},
          {'op': 'loadbegin', 'p': 0, 'd': 0, 'fresh': True}, {'op': 'loadend', 'p': 0}, {'op': 'next', 'p': 0, 'k': 1}]
  Job(t, lambda c, p: grain.MapDataset.range(5).to_iter_dataset(), lambda x: [int(x)], False).run(hist)
  out.end(t)
