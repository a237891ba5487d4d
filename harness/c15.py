"""Random data loaders against spec/Loader.tla: uninterrupted reading (C15) and
save/restore histories (C16)."""
import gc
import json
import os

import numpy as np

import common
import loads

PID = os.environ.get('PID', 'C15')
N = int(os.environ.get('N', '20'))
hists = json.load(open(os.environ['HISTS'])) if PID == 'C16' else []
out = common.Out()
r = common.rng(PID)
common.fast_workers(['grain', 'grain.python', 'loads'])
PREFIX = 130


def ops(flat):
  """flat: flat maps and legacy operations allowed (they cannot be resumed alike)."""
  res = []
  depth = 0
  partial = False
  fm = False
  for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
    k = r.choice(['map', 'rmap', 'filter', 'batch', 'batch', 'flat'])
    if k == 'map':
      o = {'op': 'map', 'k': r.randrange(1, 5)}
    elif k == 'rmap':
      if fm:
        continue
      o = {'op': 'rmap'}
    elif k == 'filter':
      m = r.choice([2, 3, 5])
      o = {'op': 'filter', 'm': m, 'r': r.randrange(m)}
    elif k == 'flat':
      if not flat or depth:
        continue
      fm = True
      o = {'op': 'flat', 'k': r.randrange(1, 4)}
    else:
      if depth == 2 or partial:
        continue
      depth += 1
      drop = r.randrange(2)
      partial = not drop
      o = {'op': 'batch', 'b': r.choice([1, 2, 3, 4]), 'drop': drop}
    if PID == 'C15' and flat and k != 'flat' and r.random() < .15:
      o['old'] = 1
    res.append(o)
  return res


def config():
  wk = r.choice([0, 0, 0, 0, 1, 2, 2, 3, 4])
  c = r.choice([1, 1, 2, 3, 4])
  d = {'wk': wk, 'n': r.choice([1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 15, 20]), 'c': c, 's': r.randrange(c), 'drop': r.randrange(2),
       'nosh': int(c == 1 and r.random() < .5), 'kind': r.choice(['seq', 'index', 'index', 'index', 'custom', 'customlen']),
       'shuffle': 0, 'seed': None, 'epochs': 1, 'keys': [], 'src': r.choice(['list', 'array', 'range', 'src', 'src']),
       'slow': r.choice([0, 0, r.randrange(1, 50)]), 'threads': r.choice([None, 0, 1, 2, 5, 16]), 'buf': r.choice([1, 2, 3, 8, 500]),
       'wbuf': r.choice([1, 1, 2, 4]), 'explicit': 0}
  if d['threads'] is not None and d['threads'] > d['buf']:
    d['buf'] = d['threads']
  if d['nosh']:
    d['drop'] = 0
  if d['kind'] == 'seq':
    d['seed'] = r.choice([None, 0, 7, 2**31])
  elif d['kind'] == 'index':
    d['shuffle'] = r.randrange(2)
    d['seed'] = r.choice([0, 1, 42, 2**32 - 1] if d['shuffle'] else [None, 3])
    d['epochs'] = r.choice([0, 1, 1, 2, 3])
    if d['n'] < c and d['epochs'] != 1:
      d['n'] += c
    d['viaload'] = int(r.random() < .2)
    if d['viaload']:
      d['wbuf'] = 1
  else:
    d['seed'] = r.randrange(100)
    d['keys'] = [r.randrange(d['n']) for _ in range(r.choice([0, 1, 2, 5, 8, 13, 20]))]
  d['ls'], d['lc'], d['ldrop'] = d['s'], c, d['drop']
  if d['kind'] == 'seq' and r.random() < .3 or d['nosh'] and d['kind'] == 'index' and d['epochs'] and r.random() < .5:
    # the loader shards, the sampler does not
    d['explicit'] = 1
    d['nosh'], d['s'], d['c'], d['drop'] = 1, 0, 1, 0
    d['viaload'] = 0
    if d['kind'] == 'index':
      d['lc'] = r.choice([1, 2, 3])
      d['ls'] = r.randrange(d['lc'])
      d['ldrop'] = r.randrange(2)
  d['ops'] = ops(PID == 'C15' or r.random() < .25)
  if d['kind'] == 'index' and not d['epochs']:
    # endless: nothing that may yield no elements, one batching
    keep = [o for o in d['ops'] if o['op'] in ('map', 'rmap')]
    d['ops'] = keep + [o for o in d['ops'] if o['op'] == 'batch'][:1]
  if any(o['op'] == 'rmap' for o in d['ops']) and d['seed'] is None:
    d['seed'] = 5
  if d['n'] < d['c'] and d['kind'] == 'index' and d['drop']:
    d['n'] += d['c']
  return d


def table(d):
  """Observes the sampler."""
  s = loads.sampler(d)
  inf = d['kind'] == 'index' and not d['epochs']
  if inf:
    tlen = PREFIX * d['c']
  elif hasattr(s, '__len__'):
    tlen = len(s)
  else:
    tlen = len(d['keys'])
  tab, draws = [], []
  for g in range(tlen):
    # indices of other shards may have no key (an empty piece)
    own = d['kind'] != 'index' or g % d['c'] == d['s']
    m = s[g] if own else None
    tab.append(int(m.record_key) if own else -1)
    assert not own or m.index == g
    if own and m.rng is not None:
      draws.append([int(m.rng.integers(1, 10**6)) for _ in range(4)])
    else:
      draws.append([0, 0, 0, 0])
  e = {'e': 'table', 'kind': d['kind'][:6], 'n': d['n'], 's': d['s'], 'c': d['c'], 'drop': d['drop'], 'epochs': d['epochs'],
       'shuffle': d['shuffle'], 'table': tab, 'tlen': tlen, 'keys': d['keys']}
  if not inf:
    for g in (-1, tlen):
      try:
        s[g]
        e['tlen'] = -1
      except IndexError:
        pass
  return e, draws, inf


def enc(x):
  a = np.asarray(x)
  return [a.ndim] + list(a.shape) + [int(v) for v in a.reshape(-1)]


class Client(common.Client):
  """Data loader iterators cannot be closed and have states of bytes."""

  def new(self, i, fresh=False):
    self.its.pop(i, None)
    super().new(i, fresh)

  def json(self, s, f):
    self.snaps[s] = json.loads(json.dumps(self.snaps[f].decode())).encode()
    self.frozen[s] = common.freeze(self.snaps[s])
    self.ev.append({'e': 'copy', 's': s, 'f': f})

  def close(self, i):
    del self.its[i]
    self.ev.append({'e': 'close', 'i': i})

  def open(self, i):
    return i in self.its

  def refuse(self, i, s, what):
    """A state that another loader must not accept."""
    try:
      self.its[i].set_state(s)
      self.ev.append({'e': 'truth', 'v': 0, 'what': 'state of a loader with another %s was accepted' % what})
    except ValueError:
      self.ev.append({'e': 'truth', 'v': 1, 'what': what})

  def close_all(self):
    self.its.clear()
    self.old.clear()
    self.ds = None


def variants(d):
  """Differently configured loaders (whose states must be refused)."""
  yield 'worker count', {**d, 'wk': d['wk'] + 1 if d['wk'] != 1 else 0}
  if d['kind'] == 'index':
    yield 'seed', {**d, 'seed': 17, 'shuffle': 1} if d['seed'] != 17 else {**d, 'seed': 18}
    yield 'number of epochs', {**d, 'epochs': d['epochs'] + 1}
    yield 'number of records', {**d, 'n': d['n'] + 1}
    if not d['nosh']:
      yield 'shard count', {**d, 'c': d['c'] + 1}
  elif d['kind'] == 'seq':
    yield 'number of records', {**d, 'n': d['n'] + 1}
    if not d['nosh']:
      yield 'shard count', {**d, 'c': d['c'] + 1}
  else:
    yield 'sampler', {**d, 'keys': d['keys'] + [0]}
  yield 'data source', {**d, 'src': 'src' if d['src'] != 'src' else 'list', 'slow': 0}
  if d['src'] == 'src':
    yield 'data source', {**d, 'name': 'other'}


class Limited(list):
  pass


n = 0
h = common.SHARD
while n < N:
  d = config()
  n += 1
  t = out.begin({'id': '%s/%d/%d' % (PID, common.SHARD, n), 'ops': '>'.join([d['kind'], 'wk%d' % d['wk']] + [o['op'] for o in d['ops']]),
                 'ev': [], 'ref': [], 'desc': json.dumps(d)}, 90)
  try:
    e, draws, inf = table(d)
  except Exception as ex:  # pylint: disable=broad-except
    t['ev'].append(common.raised('sampler', ex))
    out.end(t)
    continue
  del t['ref']
  t['loader'] = {'table': e['table'], 'tlen': e['tlen'], 's': d['ls'], 'c': d['lc'], 'drop': d['ldrop'], 'wk': d['wk'],
                 'ops': d['ops'], 'draws': draws}
  native = any(o['op'] == 'flat' for o in d['ops'])
  t['ev'].append(e)
  c = Client(lambda: loads.loader(d), enc, t)
  if PID == 'C15':
    k = r.randrange(3)
    try:
      c.new(0)
      if k == 1:
        c.its[0].start_prefetch()
      if k == 2:     # two iterators of one loader, alternately
        c.new(1)
      lim = r.randrange(1, 7) if inf else 10**6
      live = set(c.its)
      while live and lim > 0:
        lim -= 1
        for i in sorted(live):
          if not c.next(i):
            live.discard(i)
      if not inf:
        for i in c.its:
          c.next(i)    # stays at the end
    except common.Stop:
      pass
    c.close_all()
  else:
    ok = True
    hist = hists[h % len(hists)]
    h += common.NSHARDS
    if inf:
      # never reaches the end: bounded reading
      hist = [dict(x, k=min(x['k'], 2)) if x['op'] == 'next' else x for x in hist if x['op'] != 'close'][:12]
      c.open = lambda i: False
    if d['wk']:
      # few iterators with processes
      news = 0
      cut = []
      for x in hist:
        if x['op'] == 'new':
          news += 1
          if news > 3:
            break
        cut.append(x)
      hist = cut
    rest = []
    if not native and r.random() < .5:
      w, dd = r.choice(list(variants(d)))
      try:
        if d['ls'] >= 0:
          it = iter(loads.loader(dd)) if dd['wk'] == 0 or dd['wk'] == d['wk'] else iter(loads.loader(dd))
          rest = [(w, it.get_state())]
          if r.random() < .3 and dd['wk'] == 0:
            next(it, None)
            rest = [(w, it.get_state())]
          del it
      except Exception as ex:  # pylint: disable=broad-except
        rest = []
    if rest:
      orig = c.get

      def get(i, s, orig=orig, rest=rest):
        orig(i, s)
        c.refuse(i, rest[0][1], rest[0][0])
      c.get = get
    c.run(hist)
  gc.collect()
  out.end(t)

if PID == 'C15':
  # all shards of a sampler together visit every record once per epoch
  for _ in range(max(2, N // 6)):
    n = r.randrange(1, 25)
    cnt = r.choice([1, 2, 3, 4, 5])
    kind = r.choice(['seq', 'index', 'index'])
    ep = r.choice([1, 1, 2, 3]) if kind == 'index' else 1
    if ep > 1:
      n = max(1, n // cnt) * cnt
    sh = r.randrange(2)
    seed = r.choice([0, 3, 2**32 - 1])
    t = out.begin({'id': 'C15/cover/%d/%d' % (common.SHARD, n), 'ref': [], 'ops': 'cover', 'ev': [], 'cfg': [kind, n, cnt, ep, sh, seed]})
    try:
      parts = []
      for s in range(cnt):
        d = {'wk': 0, 'n': n, 'c': cnt, 's': s, 'drop': 0, 'nosh': 0, 'kind': kind, 'shuffle': sh, 'seed': seed, 'epochs': ep,
             'src': 'list', 'ops': [], 'threads': 0, 'buf': 1, 'wbuf': 1}
        parts.append([int(x) for x in loads.loader(d)])
      t['ev'].append({'e': 'cover', 'n': n, 'epochs': ep, 'parts': parts})
    except Exception as ex:  # pylint: disable=broad-except
      t['ev'].append(common.raised('shards', ex))
    out.end(t)
  if common.SHARD == 0:
    # known finding: repeated epochs with shards of different sizes
    t = out.begin({'id': 'C15/uneven', 'ref': [], 'ops': 'cover', 'ev': []})
    parts = []
    for s in range(2):
      d = {'wk': 0, 'n': 5, 'c': 2, 's': s, 'drop': 0, 'nosh': 0, 'kind': 'index', 'shuffle': 0, 'seed': None, 'epochs': 2,
           'src': 'list', 'ops': [], 'threads': 0, 'buf': 1, 'wbuf': 1}
      parts.append([int(x) for x in loads.loader(d)])
    t['ev'].append({'e': 'cover', 'n': 5, 'epochs': 2, 'parts': parts})
    if parts == [[0, 1, 2, 0, 1], [3, 4, 3, 4, 3]]:
      t['fingerprint'] = 'sampler-epochs-uneven-shards'
    out.end(t)
