"""Operations on queues with the times of their begin and end (importable by
worker processes)."""
import time


def timed(evs, t, q, op, v):
  evs.append((time.monotonic_ns(), {'e': 'inv', 't': t, 'op': op, 'v': v, 'blk': 1, 'sure': True}))
  x = 0
  if op == 'put':
    q.put(v)
  elif op == 'get':
    x = q.get()
  else:
    q.set_max_size(v)
  evs.append((time.monotonic_ns(), {'e': 'res', 't': t, 'r': 'ok', 'v': x}))


def producer(q, res, i, n):
  evs = []
  for j in range(n):
    timed(evs, i, q, 'put', 1000 * i + j)
  res.put(evs)


def consumer(q, res, i, n):
  evs = []
  for _ in range(n):
    timed(evs, i, q, 'get', 0)
  res.put(evs)
