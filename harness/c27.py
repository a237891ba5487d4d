"""Structures of features, with and without JAX.

Odd shards run without JAX, where tree_lib uses its own implementation.
"""
import os
import sys

SHARD = int(os.environ.get('SHARD', '0'))
if SHARD % 2:
  sys.modules['jax'] = None

import collections

import common
import grain
from grain import experimental as gex
from grain._src.core import transforms
from grain._src.core import tree_lib
from grain._src.python import record
import numpy as np

out = common.Out()
r = common.rng('C27')
N = int(os.environ.get('N', '40'))
Pair = collections.namedtuple('Pair', ['f0', 'f1'])
M = 100
K = 'abcdefgh'


# --- structures: (type, labels, children) | None for a leaf ------------------
def shape(depth, arrays=False):
  x = r.random()
  if depth == 0 or x < .25:
    return None
  kind = r.choice(['list', 'tuple', 'pair', 'dict', 'dict', 'dict', 'odict', 'ddict'])
  if kind == 'pair':
    return (kind, [0, 1], [shape(depth - 1, arrays) for _ in range(2)])
  n = r.randrange(1 if arrays else 0, 4)
  if kind in ('list', 'tuple'):
    return (kind, list(range(n)), [shape(depth - 1, arrays) for _ in range(n)])
  return (kind, r.sample(range(len(K)), n), [shape(depth - 1, arrays) for _ in range(n)])


def shuffled(s):
  """The same structure with the keys inserted in another order."""
  if s is None:
    return None
  k, c = list(s[1]), [shuffled(x) for x in s[2]]
  if s[0] in ('dict', 'ddict'):
    o = r.sample(range(len(k)), len(k))
    k, c = [k[i] for i in o], [c[i] for i in o]
  return (s[0], k, c)


def count(s):
  return 1 if s is None else sum(map(count, s[2]))


def broken(s):
  """A structure that does not match: a child more or less, another name."""
  if s is None:
    return None
  if s[2] and r.random() < .5:
    i = r.randrange(len(s[2]))
    b = broken(s[2][i])
    if b is not None:
      return (s[0], s[1], s[2][:i] + [b] + s[2][i + 1:])
  if s[0] == 'pair':
    return None
  k, c = list(s[1]), list(s[2])
  new = [x for x in range(len(K)) if x not in k]
  x = r.randrange(3)
  if s[0] == 'ddict':   # has a value for every key
    if not k:
      return None
    x = 1
  if x == 0 and k:
    i = r.randrange(len(k))
    del k[i], c[i]
  elif x == 1 and k and s[0] not in ('list', 'tuple'):
    k[r.randrange(len(k))] = r.choice(new)
  else:
    k.append(r.choice(new))
    c.append(None)
  if s[0] in ('list', 'tuple'):
    k = list(range(len(c)))
  return (s[0], k, c)


def deeper(s):
  """A structure in place of a leaf."""
  if s is None:
    return r.choice([('list', [0], [None]), ('dict', [2], [None]), ('tuple', [], [])])
  if not s[2]:
    return s
  i = r.randrange(len(s[2]))
  return (s[0], s[1], s[2][:i] + [deeper(s[2][i])] + s[2][i + 1:])


def canon(s):
  """Indices of the children in the canonical order."""
  if s[0] in ('dict', 'ddict'):
    return sorted(range(len(s[1])), key=lambda i: s[1][i])
  return range(len(s[1]))


def fill(s, leaf, n=None):
  """A tree of the structure; leaf(i) is the i-th leaf in the canonical order."""
  n = [0] if n is None else n
  if s is None:
    n[0] += 1
    return leaf(n[0])
  c = [None] * len(s[2])
  for i in canon(s):
    c[i] = fill(s[2][i], leaf, n)
  if s[0] == 'list':
    return c
  if s[0] == 'tuple':
    return tuple(c)
  if s[0] == 'pair':
    return Pair(*c)
  kv = [(K[k], x) for k, x in zip(s[1], c)]
  if s[0] == 'odict':
    return collections.OrderedDict(kv)
  if s[0] == 'ddict':
    d = collections.defaultdict(list)
    d.update(kv)
    return d
  return dict(kv)


def flat(x):
  return [int(v) for v in np.asarray(x).reshape(-1)]


def enc(x):
  """A tree of the specification."""
  if isinstance(x, dict):
    n = ('odict' if isinstance(x, collections.OrderedDict)
         else ('ddict' if x.default_factory is list else 'ddict-without-factory') if isinstance(x, collections.defaultdict) else 'dict')
    return {'t': 'd', 'n': n, 'k': [K.index(k) for k in x], 'c': [enc(v) for v in x.values()]}
  if isinstance(x, (list, tuple)):
    n = 'pair' if isinstance(x, Pair) else type(x).__name__
    return {'t': 's', 'n': n, 'c': [enc(v) for v in x]}
  return {'t': 'l', 'v': flat(x)}


def step(path):
  res = []
  for p in path:
    p = getattr(p, 'key', getattr(p, 'idx', getattr(p, 'name', p)))
    res.append(K.index(p) if isinstance(p, str) and p in K else int(p[1:]) if isinstance(p, str) else int(p))
  return res


def attempt(ev, f):
  try:
    ev.update(res='ok', **f())
  except Exception as e:  # pylint: disable=broad-except
    ev.update(res='err', what=('%s: %s' % (type(e).__name__, e))[:200])
  t['ev'].append(ev)


def ops():
  s = shape(3)
  a, b = shuffled(s), shuffled(s)
  ta = fill(a, lambda i: i)
  tb = fill(b, lambda i: 100 + i)
  n = count(s)
  ea, eb = enc(ta), enc(tb)
  attempt({'e': 'flatten', 't': ea}, lambda: {'r': [flat(x) for x in tree_lib.flatten(ta)]})
  attempt({'e': 'paths', 't': ea}, lambda: {
      'r': [step(p) for p, _ in tree_lib.flatten_with_path(ta)], 'x': [flat(x) for _, x in tree_lib.flatten_with_path(ta)]})
  xs = r.sample(range(1000), n)
  attempt({'e': 'unflatten', 't': ea, 'x': [[x] for x in xs]}, lambda: {'r': enc(tree_lib.unflatten_as(ta, xs))})
  attempt({'e': 'map', 't': ea}, lambda: {'r': enc(tree_lib.map_structure(lambda x: [x, x + 1] and np.array([x, x + 1]), ta))})
  attempt({'e': 'map2', 't': ea, 'u': eb}, lambda: {'r': enc(tree_lib.map_structure(lambda x, y: np.array([x, y]), ta, tb))})
  attempt({'e': 'mapp', 't': ea}, lambda: {
      'r': enc(tree_lib.map_structure_with_path(lambda p, x: np.array(step(p) + [x]), ta))})
  attempt({'e': 'same', 't': ea, 'u': eb}, lambda: {'r': tree_lib.assert_same_structure(ta, tb) or 1})
  # A part of the structure is seen as a leaf.
  def prune(s):
    if s is None or r.random() < .3:
      return None
    return (s[0], s[1], [prune(x) for x in s[2]])
  sh = fill(prune(a), lambda i: 0)
  attempt({'e': 'upto', 't': enc(sh), 'u': eb}, lambda: {
      'r': enc(tree_lib.map_structure_up_to(sh, lambda x: np.array(sum(map(flat, tree_lib.flatten(x)), []), int), tb))})
  w = deeper(a)
  tw = fill(w, lambda i: i)
  x, y = (ta, tw) if r.random() < .5 else (tw, ta)
  attempt({'e': 'same', 't': enc(x), 'u': enc(y)}, lambda: {'r': tree_lib.assert_same_structure(x, y) or 1})
  w = broken(a)
  if w is not None:
    tw = fill(w, lambda i: 100 + i)
    x, y = (ta, tw) if r.random() < .5 else (tw, ta)
    attempt({'e': 'map2', 't': enc(x), 'u': enc(y)}, lambda: {'r': enc(tree_lib.map_structure(lambda x, y: np.array([x, y]), x, y))})
    attempt({'e': 'same', 't': enc(x), 'u': enc(y)}, lambda: {'r': tree_lib.assert_same_structure(x, y) or 1})


def source(trees):
  return grain.MapDataset.source(list(range(len(trees)))).map(lambda i: trees[i])


def pipes(bad=False):
  """Batching and rebatching of elements whose keys come in any order."""
  s = shape(2, arrays=True)
  n = r.randrange(1, 9)
  w = r.choice([1, 1, 2, 3])
  shapes = [shuffled(s) for _ in range(n)]
  at = r.randrange(1, n) if n > 1 else 0
  if bad:
    b = broken(s)
    if b is None or n < 2:
      return
    shapes[at] = b
  els = [fill(x, lambda p, i=i: np.array([i * M * 10 + j * M + p for j in range(w)])) for i, x in enumerate(shapes)]
  b = r.randrange(1, 5)
  drop = r.random() < .4
  if not bad and n > 1 and count(s) > 1 and r.random() < .15:   # one feature of one element has less entries
    c = r.randrange(1, count(s) + 1)
    bad_els = [fill(x, lambda p, i=i: np.arange(w + 1 - (i == at and p == c))) for i, x in enumerate(shapes)]
    d = gex.RebatchIterDataset(source(bad_els).to_iter_dataset(), n * (w + 1))
    attempt({'e': 'ragged'}, lambda: {'r': [enc(x) for x in d]})
  k = r.choice(['batch', 'mbatch', 'rebatch', 'rebatch', 'pad', 'loader'])
  if bad:
    k, b, drop = r.choice(['batch', 'mbatch', 'loader', 'rebatch']), n, False
  ev = {'e': k, 'els': [enc(x) for x in els], 'w': w, 'b': b, 'drop': int(drop)}
  ds = source(els)
  if k == 'rebatch':   # rows of elements are entries of their leaves
    d = gex.RebatchIterDataset(ds.to_iter_dataset(), b * w if bad else b, drop_remainder=drop)
  elif k == 'batch':
    d = ds.to_iter_dataset().batch(b, drop_remainder=drop)
  elif k == 'mbatch':
    d = ds.batch(b, drop_remainder=drop)
  elif k == 'pad':
    d = ds.to_iter_dataset().batch(b, batch_fn=lambda xs: gex.batch_and_pad(xs, batch_size=b))
  else:
    d = grain.load(els, num_epochs=1, batch_size=b, drop_remainder=drop)
  attempt(ev, lambda: {'r': [enc(x) for x in d]})


class Lookup(transforms.Map):
  def __init__(self, els):
    self.els = els
  def map(self, i):
    return self.els[i]


def pack():
  """Packing of elements whose keys, and those of the lengths, come in any order."""
  while True:
    s = shape(2, arrays=True)
    if s is not None and all(c is not None or True for c in s[2]) and s[0] in ('dict', 'odict', 'ddict'):
      break
  L = r.choice([4, 6])
  n = r.randrange(1, 8)
  els = []
  for i in range(n):
    m = r.randrange(1, L + 1)
    els.append(fill(shuffled(s), lambda p: np.full(m, (i + 1) * M + p)))
  k = r.choice(['first', 'best', 'cts', 'legacy'])
  if k != 'legacy' and any(c is not None for c in s[2]):
    return
  ls = fill(shuffled(s), lambda p: L)
  nb = r.choice([1, 2, 3])
  ds = source(els).to_iter_dataset()
  if k == 'first':
    d = gex.FirstFitPackIterDataset(ds, length_struct=ls, num_packing_bins=nb, shuffle_bins=r.random() < .5, seed=1)
  elif k == 'best':
    d = gex.BestFitPackIterDataset(ds, length_struct=ls, num_packing_bins=nb)
  elif k == 'cts':
    d = gex.ConcatThenSplitIterDataset(ds, length_struct=ls)
  else:
    op = gex.PackAndBatchOperation(length_struct=ls, batch_size=nb)
    d = grain.load(list(range(n)), num_epochs=1, transformations=[Lookup(els), op])

  def rows():
    res = []
    for x in d:
      if k == 'legacy':
        x = x[0]
        leaves = tree_lib.flatten(tree_lib.map_structure(np.asarray, x))
        assert tree_lib.assert_same_structure(x, ls) is None
        if isinstance(leaves[0], np.ndarray):
          for b in range(leaves[0].shape[0]):
            res.append([flat(v[b]) for v in leaves])
        continue
      keys = [K[s[1][i]] for i in canon(s)]
      for b in (range(np.shape(x[keys[0]])[0]) if k != 'cts' else [None]):
        res.append([flat(x[q] if b is None else x[q][b]) for q in keys])
    return {'r': res}
  # Tags follow the canonical order, as the leaves do.
  attempt({'e': 'pack', 'k': k, 'm': M, 'toks': sum([flat(tree_lib.flatten(e)[0]) for e in els], [])}, rows)


for n in range(N):
  t = out.begin({'id': 'C27/%d/%d' % (common.SHARD, n), 'jax': 1 - SHARD % 2, 'ev': []}, 60)
  for _ in range(2):
    ops()
    pipes()
    pack()
  pipes(bad=True)
  out.end(t)

