"""Structures of arrays that carry the atoms of the specification, and the
pipelines that batch them (importable by worker processes)."""
import numpy as np

import pipes
import grain
from grain import experimental as gex
from grain._src.python.dataset.transformations import batch as batch_lib


class Carry:
  """int -> nested structure with that int in every leaf."""
  def __init__(self, kind):
    self.kind = kind
  def __call__(self, x):
    if self.kind == 0:
      return {'x': np.full((2,), x, np.float32)}
    d = {'x': np.full((2,), x, np.float32), 'y': (np.int32(x), {'z': np.array([[x], [x]], np.int16)})}
    if self.kind == 2:
      d['s'] = 'v%d' % x
    if self.kind == 3:
      d['y'] = [np.array(x, np.uint16), x]
    if self.kind == 4:
      d['x'] = np.full((2, 300000), x, np.float32)[:, :300000]
    return d


class VarB:
  def __init__(self, k, kind):
    self.k, self.c = k, Carry(kind)
  def __call__(self, x):
    rows = [self.c((x * 3 + j + 1) % pipes.M) for j in range(x % self.k + 1)]
    return batch_lib.make_batch(rows)


class Pad:
  def __init__(self, b):
    self.b = b
  def __call__(self, values):
    return gex.batch_and_pad(values, batch_size=self.b, pad_value=7)


def ints(a):
  if a.ndim == 0:
    s = a.item()
    return [int(s[1:] if isinstance(s, str) and s[0] == 'v' else s)]
  o = [-1000 - len(a)]
  for x in a:
    o += ints(x)
  return o


def leaves(x):
  if isinstance(x, dict):
    return [y for k in sorted(x) for y in leaves(x[k])]
  if isinstance(x, (list, tuple)):
    return [y for z in x for y in leaves(z)]
  return [np.asarray(x)]


def encs(kind):
  one = leaves(Carry(kind)(1))
  keys = sorted(Carry(kind)(1))

  def enc(e):
    if isinstance(e, (int, np.integer)):
      return pipes.enc(e)
    if not isinstance(e, dict) or sorted(e) != keys or ('y' in e and type(e['y']) is not type(Carry(kind)(1)['y'])):
      return [-77]
    ls = leaves(e)
    if len(ls) != len(one):
      return [-76]
    res = None
    for a, b in zip(ls, one):
      lead = a.ndim - b.ndim
      if lead < 0 or a.shape[lead:] != b.shape or (a.dtype != b.dtype and b.dtype.kind not in 'Ui'):
        return [-75]
      if b.dtype.kind != a.dtype.kind:
        return [-74]
      # all entries of a row are equal
      flat = a.reshape(a.shape[:lead] + (-1,))
      if flat.size and (flat != flat[..., :1]).any():
        return [-73]
      v = ints(flat[..., 0]) if flat.shape[-1] else [-72]
      if res is not None and v != res:
        return [-71]
      res = v
    return res
  return enc


def build(p):
  op = p['op']
  if op == 'carry':
    return build(p['p']).map(Carry(p['kind']))
  if op == 'varb':
    return build(p['p']).map(VarB(p['k'], p['kind']))
  if op == 'padbatch':
    return build(p['p']).batch(p['b'], batch_fn=Pad(p['b']))
  if op == 'iter':
    return pipes.ibuild(p)
  d = build(p['p'])
  if op == 'batch':
    return d.batch(p['b'], drop_remainder=p['drop'])
  if op == 'rebatch':
    return gex.RebatchIterDataset(d, p['b'], drop_remainder=p['drop'])
  if op == 'proc':
    return d.mp_prefetch(grain.MultiprocessingOptions(num_workers=1))
  if op == 'thr':
    return gex.ThreadPrefetchIterDataset(d, prefetch_buffer_size=p['bs'])
  if op == 'limit':
    return gex.LimitIterDataset(d, p['n'])
  if op == 'repeat':
    return gex.RepeatIterDataset(d, p['n'])
  if op == 'filter':
    return d.filter(pipes.Keep(p['m'], p['r']))
  if op == 'map':
    return d.map(pipes.Affine(p['a'], p['b']))
  if op == 'wshuf':
    return gex.WindowShuffleIterDataset(d, window_size=p['w'], seed=p['seed'])
  raise ValueError(op)
