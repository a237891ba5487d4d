"""Transformations that state what they do to the specification."""
import dataclasses
import grain
from grain._src.python.dataset import base
from grain._src.python.dataset.transformations import batch
import numpy as np

CALLS = [0]
S = base.ShapeDtypeStruct


def leaves(f, t):
  if isinstance(t, dict):
    return {k: leaves(f, v) for k, v in t.items()}
  if isinstance(t, tuple):
    return tuple(leaves(f, v) for v in t)
  return f(t)


def element(k, x):
  """What map of kind k does to an element."""
  if k == 'float':
    return leaves(lambda a: np.asarray(a).astype(np.float32), x)
  if k == 'wrap':
    return {'b': x, 'a': np.zeros((2,), np.int32)}
  if k == 'axis':
    return leaves(lambda a: np.stack([np.asarray(a)] * 3, -1), x)
  if k == 'pair':
    return (x, x)
  return first(x)


def first(x):
  if isinstance(x, dict):
    return x[min(x)]
  return x[0] if isinstance(x, tuple) else x


def spec(k, s):
  """What it does to a specification."""
  if k == 'float':
    return leaves(lambda a: S(shape=a.shape, dtype=np.float32), s)
  if k == 'wrap':
    return {'b': s, 'a': S(shape=(2,), dtype=np.int32)}
  if k == 'axis':
    return leaves(lambda a: S(shape=a.shape + (3,), dtype=a.dtype), s)
  if k == 'pair':
    return (s, s)
  return first(s)


class _Stated:
  def output_spec(self, input_spec):
    return spec(self.k, input_spec)


@dataclasses.dataclass
class Map(_Stated, grain.transforms.Map):
  k: str
  def map(self, element_):
    CALLS[0] += 1
    return element(self.k, element_)


@dataclasses.dataclass
class MapWithIndex(_Stated, grain.transforms.MapWithIndex):
  k: str
  def map_with_index(self, index, element_):
    CALLS[0] += 1
    return element(self.k, element_)


@dataclasses.dataclass
class RandomMap(_Stated, grain.transforms.RandomMap):
  k: str
  def random_map(self, element_, rng):
    CALLS[0] += 1
    return element(self.k, element_)


class Keep(grain.transforms.Filter):
  def filter(self, element_):
    CALLS[0] += 1
    return True


class Stack(batch.BatchFn):
  """Batches along a new last dimension."""
  def __call__(self, elements):
    CALLS[0] += 1
    if isinstance(elements[0], dict):
      return {k: self([e[k] for e in elements]) for k in elements[0]}
    if isinstance(elements[0], tuple):
      return tuple(map(self, (list(x) for x in zip(*elements))))
    return np.stack(elements, -1)

  def output_spec(self, input_spec, batch_size, drop_remainder):
    b = batch_size if drop_remainder else None
    return leaves(lambda a: S(shape=a.shape + (b,), dtype=a.dtype), input_spec)
