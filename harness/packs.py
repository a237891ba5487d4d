"""Elements for packing (importable by worker processes)."""
import numpy as np


class Elements:
  """Random access to dictionaries of arrays given as lists of integers."""

  def __init__(self, els, notes, names, shapes, dts, kinds):
    self.els, self.notes, self.names = els, notes, names
    self.shapes, self.dts, self.kinds = shapes, dts, kinds

  def __len__(self):
    return len(self.els)

  def __getitem__(self, i):
    d = {}
    for vs, nm, sh, dt, kind in zip(self.els[i], self.names, self.shapes, self.dts, self.kinds):
      if kind == 'scalar':
        d[nm] = np.dtype(dt).type(vs[0])
      else:
        a = np.array(vs, dtype=dt).reshape((len(vs),) + (1,) * len(sh))
        d[nm] = np.broadcast_to(a, (len(vs),) + sh).copy()
    if self.notes is not None:
      d['note'] = np.array(self.notes[i])
    return d
