"""An iterator of large elements. Importing has no side effects."""
import grain


class BigIter(grain.DatasetIterator):

  def __init__(self, n, size):
    super().__init__()
    self.n, self.size, self.i = n, size, 0

  def __next__(self):
    if self.i == self.n:
      raise StopIteration
    self.i += 1
    return bytes([self.i - 1]) * self.size

  def get_state(self):
    return {'i': self.i}

  def set_state(self, state):
    self.i = state['i']


class Big(grain.IterDataset):

  def __init__(self, n, size):
    super().__init__()
    self.n, self.size = n, size

  def __iter__(self):
    return BigIter(self.n, self.size)
