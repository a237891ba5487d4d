"""Sources whose reads wait for the harness. Importing has no side effects.

A read that begins reports `b` and waits for its outcome: 0 go on, 1 raise,
2 end, 'exit'/'sys'/'kill' end the process. In the process of the harness the
gate is called directly, in worker processes through a Unix socket.
"""
import json
import os
import signal
import socket
import sys

import grain

LOCAL = None
_link = None


def ask(src, *msg):
  """Sends a message and waits for the reply."""
  global _link
  if LOCAL is not None and os.getpid() == src['pid']:
    return LOCAL.handle(list(msg), os.getpid())
  if _link is None or _link[0] != (os.getpid(), src['path']):
    c = socket.socket(socket.AF_UNIX)
    c.connect(src['path'])
    _link = ((os.getpid(), src['path']), c, c.makefile('rwb'))
  f = _link[2]
  f.write((json.dumps([os.getpid(), src['id']] + list(msg)) + '\n').encode())
  f.flush()
  return json.loads(f.readline() or '"gone"')


class Failed(ValueError):
  pass


def read(src, k):
  r = ask(src, 'b', k)
  if r == 1:
    raise Failed('read of %d' % k)
  if r == 2:
    raise StopIteration
  if r == 'exit':
    os._exit(3)
  if r == 'sys':
    sys.exit(0)
  if r == 'kill':
    os.kill(os.getpid(), signal.SIGKILL)
  return k


class Records:
  """A random access source."""

  def __init__(self, src, n, none):
    self.src, self.n, self.none = src, n, none

  def __len__(self):
    return self.n

  def __getitem__(self, k):
    read(self.src, k)
    return None if k in self.none else k

  def __repr__(self):
    return 'Records'


class GateIter(grain.DatasetIterator):
  """Does not lend itself to use by several threads at a time."""

  def __init__(self, src, n):
    super().__init__()
    self.src, self.n, self.i = src, n, 0
    self.quiet = src['proc'] and os.getpid() == src['pid']
    if src['proc'] and not self.quiet:
      ask(src, 'ws')

  def __next__(self):
    k = self.i
    read(self.src, k)
    self.i = k + 1
    return k

  def get_state(self):
    return {'i': self.i}

  def set_state(self, state):
    self._move('ps', state['i'])

  def _move(self, op, k):
    if not self.quiet and ask(self.src, op, k) == 1:
      raise Failed('move to %d' % k)
    self.i = k

  def _get_next_index(self):
    return self.i

  def _set_next_index(self, index):
    self._move('pi', index)


class GateDataset(grain.IterDataset):

  def __init__(self, src, n):
    super().__init__()
    self.src, self.n = src, n

  def __iter__(self):
    return GateIter(self.src, self.n)
