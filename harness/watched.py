"""Inputs that tell how many of them are open (not yet ended)."""
import threading

from grain._src.python.dataset import dataset


class Watch:
  def __init__(self):
    self.lock = threading.Lock()
    self.open = set()
    self.most = 0

  def opened(self, d):
    with self.lock:
      self.open.add(d)
      self.most = max(self.most, len(self.open))

  def ended(self, d):
    with self.lock:
      self.open.discard(d)


class Input(dataset.IterDataset):
  def __init__(self, watch, d, xs):
    super().__init__()
    self.watch, self.d, self.xs = watch, d, xs

  def __iter__(self):
    return _It(self)


class _It(dataset.DatasetIterator):
  def __init__(self, ds):
    super().__init__()
    self.ds, self.k = ds, 0
    ds.watch.opened(ds.d)

  def __next__(self):
    if self.k >= len(self.ds.xs):
      self.ds.watch.ended(self.ds.d)
      raise StopIteration
    self.k += 1
    return self.ds.xs[self.k - 1]

  def get_state(self):
    return {'k': self.k}

  def set_state(self, state):
    self.k = state['k']
