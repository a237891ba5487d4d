"""Resizable queues (C23)."""
import json
import multiprocessing as mp
import os
import queue
import threading
import time

import common
import coop
import qproc
from grain._src.python.ipc import queue as ipc_queue
from grain._src.python.ipc import variable_size_queue as vsq

hists = json.load(open(os.environ['HISTS']))
out = common.Out()
r = common.rng('c23')
N = int(os.environ.get('N', '100'))
NMP = int(os.environ.get('NMP', '10'))
NST = int(os.environ.get('NST', '2'))
NPROC = int(os.environ.get('NPROC', '1'))


def program(hist):
  """(thread, op, value, kind) in the order of the history."""
  ops = []
  v = 0
  for h in hist:
    if h['op'] == 'put':
      v += 1
      k = h['b']
      if r.random() < .1:
        k = 3
      ops.append((h['t'], 'put', v, k))
    elif h['op'] == 'get':
      ops.append((h['t'], 'get', 0, r.choice([0, 1, 1, 1, 2, 3])))
    elif h['op'] == 'cap':
      ops.append((h['t'], 'cap', h['b'], 0))
    if r.random() < .12:
      ops.append((r.randrange(1, 5), r.choice(['size', 'full', 'empty']), 0, 0))
  return ops


class Flag:
  """should_stop: becomes true by itself sometimes."""

  def __init__(self, rng, limit):
    self.left = rng.choice([0, 1, 2, 3, limit])
    self.said = False

  def __call__(self):
    self.left -= 1
    if self.left < 0:
      self.said = True
    return self.said


def call(q, op, v, k, rng, limit=40):
  """Runs one operation; returns (result, value)."""
  try:
    if op == 'put':
      if k == 3:
        f = Flag(rng, limit)
        ok = ipc_queue.add_element_to_queue(v, q, f)
        if not ok and not f.said:
          return 'gave up', 0
        return ('ok' if ok else 'stopped'), 0
      if k == 0:
        if rng.random() < .5:
          q.put_nowait(v)
        else:
          q.put(v, block=False)
      elif k == 1:
        q.put(v)
      else:
        q.put(v, timeout=rng.choice([0.01, 0.03]))
      return 'ok', 0
    if op == 'get':
      if k == 3:
        f = Flag(rng, limit)
        x = ipc_queue.get_element_from_queue(q, f)
        if x is ipc_queue.SYSTEM_TERMINATED:
          return ('stopped' if f.said else 'gave up'), 0
        return 'ok', x
      if k == 0:
        x = q.get_nowait() if rng.random() < .5 else q.get(block=False)
      elif k == 1:
        x = q.get()
      else:
        x = q.get(timeout=rng.choice([0.01, 0.03]))
      return 'ok', x
    if op == 'cap':
      q.set_max_size(v)
      return 'ok', 0
    if op == 'size':
      return 'ok', int(q.qsize())
    if op == 'full':
      return 'ok', int(bool(q.full()))
    return 'ok', int(bool(q.empty()))
  except queue.Full:
    return 'full', 0
  except queue.Empty:
    return 'empty', 0


def scheduled(hist, t):
  """A history on the thread queue under the scheduler."""
  ev = t['ev']
  s = coop.Sched(r)
  th, tm = s.modules()
  saved = []
  for m, name, val in [(queue, 'threading', th), (queue, 'time', tm.time), (vsq, 'threading', th), (vsq, 'time', tm)]:
    if hasattr(m, name):
      saved.append((m, name, getattr(m, name)))
      setattr(m, name, val)
  try:
    q = vsq.VariableSizeQueue(max_size=t['cap'])
    todo = {}
    for o in program(hist):
      todo.setdefault(o[0], []).append(o)
    count = {n: 0 for n in todo}

    def worker(n, ops):
      for _, op, v, k in ops:
        s.block(lambda: True)
        ev.append({'e': 'inv', 't': n, 'op': op, 'v': v, 'blk': k, 'sure': True})
        try:
          res, x = call(q, op, v, k, r)
        except coop.Abort:
          raise
        except Exception as e:  # pylint: disable=broad-except
          ev.append(common.raised(op, e))
          raise coop.Abort() from e
        if s.aborting:
          raise coop.Abort()
        ev.append({'e': 'res', 't': n, 'r': res, 'v': x})
        count[n] += 1
    for n, ops in todo.items():
      s.spawn(n, lambda n=n, ops=ops: worker(n, ops))

    def stuck():
      return bool(ev) and ev[-1]['e'] == 'raise' or s.steps > 8000

    def go(n, most):
      """Runs n until it has ended an operation or waits."""
      c = count[n]
      for _ in range(most):
        if s.threads[n][4] or not s.threads[n][2]() or count[n] != c or stuck():
          return
        s.step(n)

    # as the history says, roughly
    style = r.random()
    if style < .8:
      for h in hist:
        n = h['t']
        if n not in s.threads or s.threads[n][4] or stuck():
          continue
        if h['op'] == 'late' and n in s.timed():
          s.expire(n)
        else:
          go(n, 99 if r.random() < .5 else r.randrange(1, 12))
    extra = 0
    while s.alive() and not stuck():
      ready, timed = s.ready(), s.timed()
      if timed and (not ready or r.random() < .05):
        s.expire(r.choice(timed))
      elif ready:
        n = r.choice(ready)
        for _ in range(r.choice([1, 1, 2, 5, 30])):
          s.step(n)
          if n not in s.ready():
            break
      else:
        # everyone waits
        ev.append({'e': 'quiet'})
        extra += 1
        if extra > 30:
          break
        n = 5 + extra % 4
        waits_get = any(x['op'] == 'get' for x in open_ops(ev))
        waits_put = any(x['op'] == 'put' for x in open_ops(ev))
        if waits_put and (not waits_get or r.random() < .5):
          op = r.choice([('get', 0, 0), ('get', 0, 1), ('cap', r.randrange(1, 5), 0)])
        else:
          op = ('put', 500 + extra, 0)
        todo[n] = [(n,) + op]
        count[n] = 0
        s.spawn(n, lambda n=n: worker(n, todo[n]))
    if s.steps > 8000 and not (ev and ev[-1]['e'] == 'raise'):
      ev.append({'e': 'raise', 'op': 'does not come to an end'})
    if not s.alive() and not stuck():
      # what is left
      left = []

      def drain():
        while True:
          try:
            left.append(q.get(block=False))
          except queue.Empty:
            return
      ev.append({'e': 'left', 'v': q.qsize()})
      s.spawn('drain', drain)
      while s.alive():
        s.step('drain')
      for x in left:
        ev.append({'e': 'inv', 't': 1, 'op': 'get', 'v': 0, 'blk': 1, 'sure': True})
        ev.append({'e': 'res', 't': 1, 'r': 'ok', 'v': x})
      ev.append({'e': 'left', 'v': 0})
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('schedule', e))
  finally:
    k = len(ev)
    s.abort()
    del ev[k:]
    for m, name, val in saved:
      setattr(m, name, val)


def open_ops(ev):
  o = {}
  for e in ev:
    if e['e'] == 'inv':
      o[e['t']] = e
    elif e['e'] == 'res':
      o.pop(e['t'], None)
  return list(o.values())


class Clients:
  """Real threads; every operation runs in one of them."""

  def __init__(self, q, ev, late):
    self.q, self.ev, self.late = q, ev, late
    self.lock = threading.Lock()
    self.jobs = {}
    self.stored = 0            # what the events say
    self.cap = 0
    self.busy = {}
    self.timed = False
    self.kinds = {}

  def start(self, t):
    if t not in self.jobs:
      self.jobs[t] = queue.SimpleQueue()
      threading.Thread(target=self.work, args=(t, self.jobs[t]), daemon=True).start()

  def work(self, t, jobs):
    rng = common.rng(t)
    while True:
      j = jobs.get()
      if j is None:
        return
      op, v, k = j
      try:
        res, x = call(self.q, op, v, k, rng, 3)
        e = {'e': 'res', 't': t, 'r': res, 'v': x}
      except Exception as ex:  # pylint: disable=broad-except
        e = common.raised(op, ex)
        res = 'raise'
      with self.lock:
        self.ev.append(e)
        if res == 'ok':
          self.stored += {'put': 1, 'get': -1}.get(op, 0)
        if op == 'cap':
          self.cap = v
        del self.busy[t]

  def do(self, t, op, v, k, sure):
    self.start(t)
    with self.lock:
      self.ev.append({'e': 'inv', 't': t, 'op': op, 'v': v, 'blk': k, 'sure': sure})
      self.busy[t] = op
    self.jobs[t].put((op, v, k))

  def settle(self, limit=10):
    """Waits until every call that could end has ended."""
    end = time.monotonic() + limit
    calm = 0
    while time.monotonic() < end:
      with self.lock:
        n = len(self.ev)
        ops = set(self.busy.values())
      may = ops - {'put', 'get'} or ('put' in ops and self.stored < self.cap) or ('get' in ops and self.stored > 0)
      if self.timed or may:
        calm = 0
      else:
        calm += 1
        if calm > 2:
          return
      time.sleep(0.002)
      with self.lock:
        if len(self.ev) != n:
          calm = 0
        self.timed = any(self.kinds.get(t, 1) != 1 for t in self.busy)

  def quiet(self):
    self.settle()
    with self.lock:
      self.ev.append({'e': 'quiet'})


def threads(hist, t, q, late):
  """A history with real threads, one operation after the other; blocked calls
  stay in progress."""
  ev = t['ev']
  c = Clients(q, ev, late)
  c.cap = t['cap']
  c.kinds = {}
  for n, op, v, k in program(hist):
    if late and op in ('size', 'full', 'empty') and c.busy:
      continue
    if n in c.busy:
      continue
    if late and op == 'get' and k in (0, 2, 3) and c.stored > 0:
      k = 1
    if late and op == 'empty' and c.stored:
      continue
    c.kinds[n] = 0 if op not in ('put', 'get') else k
    c.do(n, op, v, k, not (late and op == 'get'))
    c.quiet()
    if ev[-1]['e'] == 'raise' or any(e['e'] == 'raise' for e in ev):
      break
  # let all of them go
  for _ in range(60):
    if not c.busy or any(e['e'] == 'raise' for e in ev):
      break
    if 'get' in c.busy.values():
      c.kinds[7] = 1
      c.do(7, 'put', 900 + _, 1, True)
    else:
      c.kinds[8] = 1
      c.do(8, 'get', 0, 1, True)
    c.quiet()
  while c.stored > 0 and not c.busy:
    c.kinds[8] = 1
    c.do(8, 'get', 0, 1, True)
    c.quiet()
  for j in c.jobs.values():
    j.put(None)


def stress(t, q, nput, nget, items):
  """Real threads without any control."""
  evs = []
  caps = [r.randrange(1, 5) for _ in range(r.randrange(0, 4))]
  total = nput * items
  gets = [total // nget + (1 if i < total % nget else 0) for i in range(nget)]

  def put(i):
    for j in range(items):
      qproc.timed(evs, i + 1, q, 'put', 1000 * (i + 1) + j)

  def get(i):
    for _ in range(gets[i]):
      qproc.timed(evs, nput + i + 1, q, 'get', 0)

  def cap():
    for v in caps:
      time.sleep(0.0005)
      qproc.timed(evs, nput + nget + 1, q, 'cap', v)
  ths = [threading.Thread(target=put, args=(i,), daemon=True) for i in range(nput)]
  ths += [threading.Thread(target=get, args=(i,), daemon=True) for i in range(nget)] + [threading.Thread(target=cap, daemon=True)]
  r.shuffle(ths)
  for x in ths:
    x.start()
  for x in ths:
    x.join(20)
    if x.is_alive():
      t['ev'].extend(merge(evs))
      t['ev'].append({'e': 'quiet'})
      return
  t['ev'].extend(merge(evs))
  t['ev'].append({'e': 'left', 'v': 0})


def merge(evs):
  return [e for _, e in sorted(list(evs), key=lambda x: x[0])]


def processes(t, ctx):
  """Producers and consumers in processes of their own."""
  q = vsq.VariableSizeMultiprocessingQueue(t['cap'], ctx)
  nput, nget, items = r.choice([(1, 1, 9), (2, 1, 5), (1, 2, 6), (2, 2, 4)])
  total = nput * items
  gets = [total // nget + (1 if i < total % nget else 0) for i in range(nget)]
  res = ctx.SimpleQueue()
  ps = [ctx.Process(target=qproc.producer, args=(q, res, i + 1, items)) for i in range(nput)]
  ps += [ctx.Process(target=qproc.consumer, args=(q, res, nput + 1 + i, gets[i])) for i in range(nget)]
  evs = []
  for p in ps:
    p.start()
  for v in [r.randrange(1, 5) for _ in range(3)]:
    time.sleep(0.003)
    qproc.timed(evs, nput + nget + 1, q, 'cap', v)
  for _ in ps:
    evs.extend(res.get())
  for p in ps:
    p.join(10)
  t['ev'].extend(merge(evs))
  t['ev'].append({'e': 'left', 'v': 0})


h = common.SHARD
for n in range(N):
  hist = hists[h % len(hists)]
  h += common.NSHARDS
  t = out.begin({'id': 'C23/%d/coop%d' % (common.SHARD, n), 'kind': 'thread', 'cap': hist[0]['b'], 'ev': []}, 60)
  scheduled(hist[1:], t)
  out.end(t)
ctx = mp.get_context('spawn')
for n in range(NMP):
  hist = hists[h % len(hists)]
  h += common.NSHARDS
  thread = n % 3 == 0
  t = out.begin({'id': 'C23/%d/seq%d' % (common.SHARD, n), 'kind': 'thread' if thread else 'mp', 'cap': hist[0]['b'], 'ev': []}, 120)
  q = vsq.VariableSizeQueue(t['cap']) if thread else vsq.VariableSizeMultiprocessingQueue(t['cap'], ctx)
  threads(hist[1:], t, q, not thread)
  out.end(t)
for n in range(NST):
  thread = n % 2 == 0
  t = out.begin({'id': 'C23/%d/stress%d' % (common.SHARD, n), 'kind': 'thread' if thread else 'mp', 'cap': r.randrange(1, 4), 'ev': []}, 120)
  q = vsq.VariableSizeQueue(t['cap']) if thread else vsq.VariableSizeMultiprocessingQueue(t['cap'], ctx)
  a, b = r.choice([(1, 1), (2, 1), (1, 2), (2, 2), (3, 1)])
  stress(t, q, a, b, 12 // a)
  out.end(t)
common.fast_workers(['qproc', 'grain._src.python.ipc.variable_size_queue'])
ctx = mp.get_context('spawn')
for n in range(NPROC):
  t = out.begin({'id': 'C23/%d/proc%d' % (common.SHARD, n), 'kind': 'procs', 'cap': r.randrange(1, 4), 'ev': []}, 120)
  processes(t, ctx)
  out.end(t)
os._exit(0)
