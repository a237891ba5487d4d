"""Arrays of many types, for transport between processes. Importing has no side effects."""
import hashlib
import random

import numpy as np

ALPHABET = '0123456789abcdefghijklmnopqrstuvwxyz'


def prefix(tag):
  """Blocks made by this process (and its workers) get names that start so."""
  from multiprocessing import shared_memory
  shared_memory._SHM_NAME_PREFIX = '/' + tag if not shared_memory._USE_POSIX is False else tag


def tag(n):
  s = ''
  while n:
    s = ALPHABET[n % 36] + s
    n //= 36
  return 'v' + s.rjust(5, '0')[-5:] + '_'


SHAPES = [(), (1,), (3,), (4,), (2, 3), (3, 1, 2), (0,), (2, 0), (40, 30)]
TYPES = ['int8', '<i4', '>i4', 'int64', 'uint16', 'float32', 'float64', 'bool', 'complex64', 'datetime64[s]', 'U3', 'S4',
         'rec', 'float16', '>f8', 'obj']


def fill(r, shape, t):
  n = int(np.prod(shape))
  base = np.array([r.randint(0, 100) for _ in range(n)], dtype=np.int64).reshape(shape)
  if t == 'rec':
    a = np.zeros(shape, dtype=[('p', '<i2'), ('q', '<f8', (2,))])
    a['p'] = base
    a['q'] = (base / 3)[..., None]
    return a
  if t == 'obj':
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
      a[i] = 'o%d' % base[i]
    return a
  if t in ('U3', 'S4'):
    return (base % 100).astype(t)
  if t == 'datetime64[s]':
    return base.astype('int64').view('datetime64[s]') if shape != () else base.reshape(1).view('datetime64[s]').reshape(())
  return base.astype(t)


def leaf(r, shape=None, t=None):
  """A plain array."""
  shape = r.choice(SHAPES) if shape is None else shape
  t = t or r.choice(TYPES)
  a = np.asarray(fill(r, shape, t))
  x = r.random()
  if x < .1 and a.ndim >= 2:
    a = np.asfortranarray(a)
  elif x < .2 and a.ndim >= 1 and a.shape[0]:
    a = np.repeat(a, 2, axis=0)[::2]
  elif x < .27 and t not in ('obj', 'rec', 'U3', 'S4', 'datetime64[s]'):
    a = np.ma.masked_array(a, mask=np.array([r.random() < .5 for _ in range(a.size)], dtype=bool).reshape(a.shape))
  elif x < .33:
    a.flags.writeable = False
  return a


def digest(a):
  if not isinstance(a, (np.ndarray, np.generic)):
    return '%s %r' % (type(a).__name__, a)
  h = hashlib.md5()
  if not a.dtype.isnative and a.dtype.names is None:
    a = a.astype(a.dtype.newbyteorder('='))      # pickling an array can change its byte order
  h.update(repr(np.asarray(a).tolist() if a.dtype.hasobject else np.ascontiguousarray(np.asarray(a)).tobytes()).encode())
  if isinstance(a, np.ma.MaskedArray):
    h.update(np.ma.getmaskarray(a).tobytes())
    h.update(b'masked')
  return '%s %s %s' % (a.dtype.str if a.dtype.names is None else a.dtype.descr, a.shape, h.hexdigest()[:12])


class Source:
  """Elements are nested structures of arrays and other values."""

  def __init__(self, seed, n, uniform, bad, pre):
    self.seed, self.n, self.uniform, self.bad, self.pre = seed, n, uniform, bad, pre

  def __len__(self):
    return self.n

  def __setstate__(self, s):
    self.__dict__.update(s)
    prefix(self.pre)

  def __getitem__(self, k):
    r = random.Random('%s/%s' % (self.seed, k))
    q = random.Random(self.seed)      # common to all elements
    m = q.randint(1, 3)
    if self.uniform:
      shapes = [q.choice(SHAPES) for _ in range(m)]
      types = [q.choice([t for t in TYPES if t != 'obj']) for _ in range(m)]
      if q.random() < .4:
        # types can differ as long as they go together
        j = q.randrange(m)
        types[j] = r.choice(q.choice([['int8', '<i4', 'int64'], ['<i4', 'float64', 'float32'], ['>i4', '<i4'], ['bool', 'int64']]))
      xs = [fill(r, s, t) for s, t in zip(shapes, types)]
      if k == self.bad:
        xs[-1] = np.zeros((7, 7))
      return {'x%d' % j: a for j, a in enumerate(xs)}
    xs = [leaf(r) for _ in range(m)]
    if q.random() < .5:
      return {'a': xs[0], 'b': [k] + xs[1:], 'c': ('s%d' % k, None)} if m > 1 else xs[0]
    return tuple(xs) if m > 1 else {'k': k, 'v': xs[0]}


class Kept:
  """A source that keeps its elements."""

  def __init__(self, xs, pre):
    self.xs, self.pre = xs, pre

  def __len__(self):
    return len(self.xs)

  def __setstate__(self, s):
    self.__dict__.update(s)
    prefix(self.pre)

  def __getitem__(self, k):
    return self.xs[k]
