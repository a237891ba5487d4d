"""List semantics of filter, limit, repeat, zip, flat-map and cache on iterators."""
import os

import common
import pipes
from pipes import enc, has, ops_of

out = common.Out()
PID = os.environ.get('PID', 'C11')
r = common.rng(PID)
g = pipes.Gen(r, maxlen=16, maxn=8, files=True)
N = int(os.environ.get('N', '40'))
TOPS = ['filter', 'limit', 'repeat', 'zip', 'flatmap', 'cache']
OTHER = ['map', 'mapidx', 'batch', 'rebatch', 'thr', 'inter', 'wshuf', 'mix', 'mt']


def code(e):
  return [-9, 4] if isinstance(e, ValueError) else [-9, 0]


def cand(n):
  top = TOPS[(common.SHARD * N + n) % len(TOPS)]

  def mk():
    g.iops = TOPS + r.sample(OTHER, 3)
    p, kind = g.itree(r.choice([1, 2, 3, 4]), top=top)
    c = r.random()
    if c < .2:      # an endless repeat, bounded by a limit
      p = {'op': 'repeat', 'p': p, 'n': 60, 'inf': True}
      if r.random() < .4 and kind == 'a':
        p, kind = g.iop(p, kind, r.choice(['filter', 'batch', 'map', 'thr']))
      p = {'op': 'limit', 'p': p, 'n': r.randrange(1, 30)}
    elif c < .35 and kind == 'a' and not has(p, ('mt', 'repeat')):
      # the input of a cache is read once only
      p = {'op': 'repeat', 'p': {'op': 'cache', 'p': {'op': 'drift', 'p': p}}, 'n': r.choice([2, 3])}
    return p
  return mk


def strict(q):
  return {**q, 'strict': True} if q['op'] == 'zip' and r.random() < .5 else q


def plain(p):
  """Endless repeats cut short, for sizing the tables."""
  return pipes.rewrite(p, lambda q: {**q, 'inf': False} if q.get('inf') else q)


for n in range(N):
  mk = cand(n)
  d = common.draw(out, PID, n, lambda: plain(mk()), 60)
  if d is None:
    continue
  p, cnt = d

  def reinf(q):
    # a non-empty endless repeat stays endless below its limit
    return {**q, 'inf': True} if q['op'] == 'repeat' and q['n'] == 60 else q

  if has(p, ('repeat',)):
    q = pipes.rewrite(p, reinf)
    def nonempty(x):
      if x.get('inf'):
        return pipes.icount(plain(x['p'])) > 0
      return True

    def every(x):
      return nonempty(x) and ('p' not in x or x['op'] == 'iter' or every(x['p'])) and all(every(y) for y in x.get('ps', ()))
    # the limit must be reachable: a filter above may let nothing through
    if every(q) and cnt > 0 and p['op'] == 'limit' and cnt == p['n']:
      p = q
  p = pipes.rewrite(p, strict)
  t = out.begin({'id': '%s/%d/%d' % (PID, common.SHARD, n), 'ops': '>'.join(ops_of(p)), 'ev': [],
                 'pipeline': p, 'ast': pipes.clean(p)}, 60)
  c = common.Client(lambda: pipes.ibuild(p), enc, t, err_code=code)
  try:
    c.new(0)
    while c.next(0):
      if len(t['ev']) > 400:
        t['ev'].append({'e': 'raise', 'op': 'iteration does not end'})
        raise common.Stop()
    if t['ev'][-1]['e'] == 'stop' and not has(p, ('zip',)):
      for _ in range(2):     # the end stays the end
        c.next(0)
    # A second iterator, used partly and given up.
    if not has(p, ('drift',)):
      c.new(1)
      for _ in range(r.randrange(4)):
        if not c.next(1):
          break
      if r.random() < .6 and not any(e['e'] == 'err' for e in t['ev']):
        # going back must not change what operators that hold elements yield
        c.get(1, 0)
        for _ in range(r.randrange(8)):
          if not c.next(1):
            break
        if t['ev'][-1]['e'] != 'err':
          c.set(1, 0)
          while c.next(1):
            if len(t['ev']) > 800:
              t['ev'].append({'e': 'raise', 'op': 'iteration does not end'})
              raise common.Stop()
  except common.Stop:
    pass
  finally:
    c.close_all()
  out.end(t)

# Random-access zips of different lengths are refused.
from grain import experimental as gex
from grain._src.python.dataset import dataset
for k in range(4):
  a, b = r.sample(range(0, 6), 2)
  t = out.begin({'id': '%s/%d/zip%d' % (PID, common.SHARD, k), 'ops': 'zip', 'ref': [], 'ev': [], 'pipeline': [a, b]})
  try:
    gex.ZipMapDataset([dataset.MapDataset.range(a), dataset.MapDataset.range(b)])
    ok = 0
  except ValueError:
    ok = 1
  t['ev'].append({'e': 'count', 'v': ok, 'n': 1, 'what': 'random-access zip of different lengths'})
  out.end(t)
