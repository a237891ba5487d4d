"""Closing iterators: generated histories with close; leaked threads and processes."""
import gc
import json
import multiprocessing
import os
import threading
import time

from grain._src.python.ipc import shared_memory_array

import common
import pipes
import special

# The pool that deletes shared memory blocks belongs to the process, not to an iterator.
shared_memory_array.SharedMemoryArray.enable_async_del(1)
hists = json.load(open(os.environ['HISTS']))
out = common.Out()
r = common.rng('c20')
g = pipes.Gen(r, maxlen=16, maxn=8, files='closable')   # user-written iterators do not have to know of close
N = int(os.environ.get('N', '20'))
PER = int(os.environ.get('PER', '4'))
NPROC = int(os.environ.get('NPROC', '2'))
TOPS = ['rmap', 'filter', 'flatmap', 'batch', 'rebatch', 'limit', 'repeat', 'wshuf', 'cache', 'thr', 'zip',
        'mix', 'inter', 'mt', 'map', 'mapidx', 'thr', 'inter']


def left(before):
  """Threads and processes that are still there (after waiting for them).

  The closed iterators are still referenced; what else is garbage is collected.
  """
  t0 = time.monotonic()
  n = 0
  while True:
    n += 1
    if n % 50 == 4:
      gc.collect()
    ts = [t.name for t in threading.enumerate() if t not in before and t.is_alive() and 'QueueFeeder' not in t.name]
    ps = multiprocessing.active_children()
    if (not ts and not ps) or time.monotonic() - t0 > 12:
      return ts, ps
    time.sleep(0.005)


def one(t, mk, enc, hist):
  before = set(threading.enumerate())
  c = common.Client(mk, enc, t)
  c.run(hist)
  ts, ps = left(before)
  del c
  t['ev'].append({'e': 'count', 'what': 'threads left after close', 'v': len(ts), 'n': 0, 'names': ts[:5]})
  t['ev'].append({'e': 'count', 'what': 'processes left after close', 'v': len(ps), 'n': 0})
  for p in ps:
    p.kill()


h = common.SHARD
for n in range(N + NPROC):
  proc = n >= N
  if n % 4 == 3 and not proc:
    sk = special.KINDS[(common.SHARD + n // 4 * common.NSHARDS) % len(special.KINDS)]
    desc, mk = special.make(r, sk)
    out.begin({'id': 'C20/%d/%d/ref' % (common.SHARD, n), 'ref': [], 'ops': sk, 'ev': []})
    try:
      t0 = {'ref': common.reference(mk, special.encd), 'ops': sk, 'pipeline': 'special:' + sk}
    except Exception as e:  # pylint: disable=broad-except
      out.end({'id': 'C20/%d/%d/ref' % (common.SHARD, n), 'ref': [], 'ops': sk, 'ev': [common.raised('uninterrupted run', e)]})
      continue
    enc = special.encd
  else:
    def cand():
      p, _ = g.itree(r.choice([1, 2, 2, 3]), top=['proc', 'mp'][n % 2] if proc else TOPS[(common.SHARD * N + n) % len(TOPS)])
      if proc and p['op'] not in ('proc', 'mp'):
        return None
      if r.random() < .5:
        p = pipes.insert(p, r, .5, lambda q: {'op': 'slow', 'p': q, 'm': r.choice([1, 2, 5])})
      return p
    got = common.draw(out, 'C20', n, cand)
    if not got:
      continue
    p = got[0]
    t0 = {'ast': pipes.clean(p), 'ops': '>'.join(pipes.ops_of(p)), 'pipeline': p}
    mk, enc = (lambda p=p: pipes.ibuild(p)), pipes.enc
  for _ in range(1 if proc else PER):
    t = out.begin({'id': 'C20/%d/%d/%d' % (common.SHARD, n, h), 'ev': [], **t0}, 90)
    one(t, mk, enc, hists[h % len(hists)][:(7 if proc else 99)])
    h += common.NSHARDS
    out.end(t)
gc.collect()
