"""assert_equal_output_after_checkpoint against spec/CkptHelper.tla: datasets
given by tables (most of them with one fault) and real pipelines."""
import copy
import os

import numpy as np

import common
import pipes
import grain
from grain import experimental as gex
from grain._src.python.dataset import dataset

out = common.Out()
r = common.rng('C30')
N = int(os.environ.get('N', '150'))
NP = int(os.environ.get('NP', '20'))

VALUES = [
    lambda v: v,
    lambda v: float(v) / 4,
    lambda v: 'v%d' % v,
    lambda v: np.array([1, v, 3]),
    lambda v: {'a': np.full((2, 2), 7.5), 'b': (np.int32(v), 'x')},
    lambda v: [{'t': v}, None],
    lambda v: np.array([[0.0] * 3, [np.nan, v, 1.0]]),
    lambda v: b'%d' % v,
    lambda v: {'k%d' % v: 1},
    lambda v: [0] * v,
    lambda v: (v % 2, {'x': {'y': np.array(v)}}),
]
SHAPES = [
    lambda s: {'i': s},
    lambda s: {'i': float(s)},
    lambda s: {'i': s, 'x': 0},
    lambda s: {'j': s},
    lambda s: {'i': [s, s]},
    lambda s: {'i': np.array([s])},
    lambda s: {'i': np.array([s, 0])},
    lambda s: {'i': np.array([s], np.int32)},
    lambda s: s,
    lambda s: {'p': {'i': s}},
    lambda s: {'i': {}, 's': s},
    lambda s: {'i': 's%d' % s},
]


def sid(state):
  """The number in a state."""
  if isinstance(state, dict):
    k = [k for k in ('s', 'j', 'p', 'i') if k in state][0]
    return sid(state[k])
  if isinstance(state, str):
    return int(state[1:])
  if isinstance(state, (list, np.ndarray)):
    return int(state[0])
  return int(state)


class Table(dataset.IterDataset):
  def __init__(self, d, value, shapes, alias, extra):
    super().__init__()
    self.d, self.value, self.shapes, self.alias, self.extra = d, value, shapes, alias, extra

  def __iter__(self):
    return Iterator(self)


class Iterator(dataset.DatasetIterator):
  def __init__(self, ds):
    super().__init__()
    self.t = ds
    self.vals = ds.d['vals']
    self.k = 0
    self.state = None      # what a restored iterator reports
    self.shared = {'i': 0}

  def __next__(self):
    if self.k >= len(self.vals):
      raise StopIteration
    self.k += 1
    self.state = None
    return self.t.value(self.vals[self.k - 1])

  def get_state(self):
    if self.t.alias:
      self.shared['i'] = self.k
      return self.shared
    d = self.t.d
    if self.state is not None:
      return self.t.shapes[self.state[1]](self.state[0])
    if self.vals is d['vals']:
      return self.t.shapes[d['shape'][self.k]](d['says'][self.k])
    return self.t.shapes[d['shape'][0]](900)

  def set_state(self, state):
    s = sid(state)
    d = self.t.d
    if self.t.alias:
      self.k = s
      return
    k = d['says'].index(s)
    if k == len(d['vals']):
      self.vals, self.k = [], 0
      return
    self.vals, self.k = d['rest'][k], 0
    self.state = (d['back'][k], self.t.extra.get(k, d['shape'][k]))


def table():
  n = r.choice([0, 1, 1, 2, 3, 4, 6])
  few = r.choice([1, 2, 3, 50])
  vals = [r.randrange(few) + 1 for _ in range(n)]
  says = r.sample(range(1, 60), n + 1)
  shape = [r.randrange(len(SHAPES))] * (n + 1)
  d = {'vals': vals, 'says': says, 'shape': shape, 'back': says[:n], 'rest': [vals[k:] for k in range(n)]}
  extra = {}
  alias = False
  fault = r.choice(['', '', 'skip', 'again', 'value', 'last', 'more', 'less', 'back', 'backshape', 'shape', 'endshape', 'alias', 'start', 'same'])
  if n:
    k = r.randrange(n)
    o = list(d['rest'][k])
    if fault == 'skip':
      o = o[1:]
    elif fault == 'again':
      o = o[:1] + o
    elif fault == 'value':
      j = r.randrange(len(o))
      o[j] = o[j] % 50 + 1
    elif fault == 'last':
      o[-1] = r.randrange(few) + 1
    elif fault == 'more':
      o = o + [1]
    elif fault == 'less':
      o = o[:-1]
    elif fault == 'start':
      o = vals
    elif fault == 'same':     # states that are not told apart
      if n > 1:
        k = r.randrange(1, n)
        says[k] = says[k - 1]
        d['back'][k] = says[k]
        o = list(d['rest'][k - 1])
    elif fault == 'back':
      d['back'][k] = 61
    elif fault == 'backshape':
      extra[k] = r.randrange(len(SHAPES))
      if extra[k] != shape[k]:
        d['back'] = d['back'][:k] + [62] + d['back'][k + 1:]
    elif fault == 'shape':
      shape[k] = r.randrange(len(SHAPES))
    elif fault == 'endshape':
      shape[n] = r.randrange(len(SHAPES))
    elif fault == 'alias':
      alias = True
      d.update(says=[n] * (n + 1), shape=[0] * (n + 1), back=[n] * n, rest=[[] for _ in range(n)])
    d['rest'][k] = o if not alias else []
  vk = r.randrange(len(VALUES))
  return d, Table(d, VALUES[vk], SHAPES, alias, extra), '%s/%d' % (fault, vk)


def helper(t, ds):
  try:
    gex.assert_equal_output_after_checkpoint(ds)
    t['ev'].append({'e': 'helper', 'res': 'pass', 'what': ''})
  except AssertionError as e:
    t['ev'].append({'e': 'helper', 'res': 'fail', 'what': str(e)[:60].replace('"', "'").replace('\\', '/').replace('\n', ' ')})
  except Exception as e:  # pylint: disable=broad-except
    t['ev'].append({'e': 'helper', 'res': 'other', 'what': common.raised('helper', e)['op']})


def struct(x):
  if isinstance(x, dict):
    return ('d', tuple((k, struct(x[k])) for k in sorted(x, key=repr)))
  if isinstance(x, (list, tuple)):
    kinds = {type(v).__name__ for v in x}
    return (type(x).__name__, tuple(kinds) if len(kinds) < 2 else tuple(struct(v) for v in x))
  return (type(x).__name__, np.shape(x), str(getattr(x, 'dtype', '')))


def observe(ds):
  """What the iterators of a dataset do."""
  ids, shapes, num = {}, {}, lambda t, x: t.setdefault(x, len(t))
  st = lambda s: num(ids, common.freeze(s))
  it = iter(ds)
  vals, states = [], []
  while True:
    states.append(copy.deepcopy(it.get_state()))
    try:
      vals.append(pipes.enc(next(it)))
    except StopIteration:
      break
  d = {'vals': vals, 'says': [st(s) for s in states], 'shape': [num(shapes, struct(s)) for s in states], 'back': [], 'rest': []}
  for s in states[:-1]:
    it = iter(ds)
    it.set_state(copy.deepcopy(s))
    d['back'].append(st(it.get_state()))
    d['rest'].append([pipes.enc(x) for x in it])
  return d


for i in range(N):
  d, ds, what = table()
  t = out.begin({'id': 'C30/%d/%d' % (common.SHARD, i), 'd': copy.deepcopy(d), 'ops': what, 'ev': []}, 60)
  for _ in range(r.choice([1, 1, 2])):     # whatever it does leaves the dataset alone
    helper(t, ds)
  out.end(t)

g = pipes.Gen(r, maxlen=14, maxn=8)
n = 0
while n < NP:
  try:
    p = g.itree(r.choice([1, 2, 3]))[0]
    p = pipes.iresolve(p)
  except pipes.BadTable:
    continue
  n += 1
  t = out.begin({'id': 'C30/pipe/%d/%d' % (common.SHARD, n), 'd': {}, 'ops': '>'.join(pipes.ops_of(p)), 'ev': []}, 120)
  try:
    mk = lambda: pipes.ibuild(p)
    ds = mk()
    t['d'] = observe(gex.LimitIterDataset(ds, 12) if r.random() < .3 else ds)
    if len(t['d']['vals']) <= 25:
      ds = mk()
      t['d'] = observe(ds)
      helper(t, ds)
  except Exception as e:  # pylint: disable=broad-except
    t['ev'].append(common.raised('pipeline', e))
  out.end(t)
