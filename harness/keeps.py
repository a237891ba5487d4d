"""Functions of the pipelines of c31.py (worker processes import this module)."""
import grain


class Keep:
  def __init__(self, k):
    self.k = k

  def __call__(self, v):
    k = self.k
    if (v // k['ph']) % 2 == 0:
      return v % k['b'] < k['c']
    return v % k['bb'] < k['cc']


class KeepT(grain.transforms.Filter):
  def __init__(self, k):
    self.k = Keep(k)

  def filter(self, element):
    return self.k(element)


def first(e):
  return e[0]


def same(e):
  return e
