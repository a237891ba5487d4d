"""Prefetching (C03 pool, C04 thread, C05 process): schedules from the design
models are replayed with reads that wait at a gate."""
import json
import os
import queue
import socket
import subprocess
import sys
import threading
import time

import grain
from grain import experimental as gex
from grain._src.python.dataset.transformations import prefetch as prefetch_lib
from grain._src.python.dataset.transformations import process_prefetch as process_lib

import common
import gate

KIND = os.environ['KIND']
PID = {'pool': 'C03', 'thread': 'C04', 'proc': 'C05'}[KIND]
N = int(os.environ.get('N', '20'))
QUIET = {'pool': 0.002, 'thread': 0.002, 'proc': 0.006}[KIND]


class Gate:
  """Reads in progress, and the log of everything that happens."""

  def __init__(self):
    self.lock = threading.RLock()
    self.change = threading.Condition(self.lock)
    self.reset(None, 0, [])

  def reset(self, src, n, ev):
    with self.lock:
      self.src = src
      self.n = n
      self.ev = ev
      self.waiting = {}        # ticket -> [k, outcome or None, pid]
      self.ticket = 0
      self.free = False
      self.pid = None
      self.count = 0
      self.refuse = False      # the next move of the parent fails

  def log(self, **e):
    with self.lock:
      self.ev.append(e)
      self.count += 1
      self.change.notify_all()

  def handle(self, msg, pid):
    op = msg[0]
    with self.lock:
      ev = self.ev
      if op == 'b':
        self.ticket += 1
        i = self.ticket
        k = msg[1]
        self.log(e='b', k=k, i=i)
        w = [k, None, pid]
        self.waiting[i] = w
        if self.free:
          self.release(i, 0)
        while w[1] is None:
          self.change.wait()
        return w[1]
      if op == 'ws':
        self.pid = pid
        self.log(e='ws')
      else:
        x, self.refuse = int(self.refuse), False
        self.log(e='ps', k=msg[1], x=x)
        return x
      return 0

  def release(self, i, outcome):
    """Lets a read go on; its end is logged here, before the reader goes on."""
    with self.lock:
      w = self.waiting.pop(i)
      if outcome == 0 and KIND != 'pool' and w[0] >= self.n:
        outcome = 2
      if outcome in (0, 1, 2):
        self.log(e='f', k=w[0], i=i, x=outcome)
      else:
        self.log(e='d', k=w[0], i=i)
      w[1] = outcome
      self.change.notify_all()

  def abandon(self):
    """Ends all reads of an iterator that is no longer used."""
    with self.lock:
      self.ev = []
      self.free = True
      for i in list(self.waiting):
        self.release(i, 0)

  def serve(self, path):
    s = socket.socket(socket.AF_UNIX)
    s.bind(path)
    s.listen(64)

    def client(c):
      f = c.makefile('rwb')
      for line in f:
        m = json.loads(line)
        with self.lock:
          stale = self.src is None or m[1] != self.src['id']
        r = 0 if stale else self.handle(m[2:], m[0])
        try:
          f.write((json.dumps(r) + '\n').encode())
          f.flush()
        except OSError:
          return

    def accept():
      while True:
        c, _ = s.accept()
        threading.Thread(target=client, args=(c,), daemon=True).start()
    threading.Thread(target=accept, daemon=True).start()


GATE = Gate()


class Run:
  """One schedule against one iterator."""

  def __init__(self, trace, r):
    self.t = trace
    self.r = r
    self.ev = trace['ev']
    self.snaps = {}
    self.todo = queue.Queue()
    self.pending = False
    self.sets = 0
    self.thread = threading.Thread(target=self.work, daemon=True)
    self.closed = False

  def build(self, b, t):
    src = {'pid': os.getpid(), 'path': PATH, 'id': self.t['id'], 'proc': KIND == 'proc'}
    GATE.reset(src, self.t['n'], self.ev)
    n = self.t['n']
    if KIND == 'pool':
      ds = grain.MapDataset.source(gate.Records(src, n, set(self.t['none'])))
      it = iter(ds.to_iter_dataset(grain.ReadOptions(num_threads=t, prefetch_buffer_size=b)))
    elif KIND == 'thread':
      it = iter(prefetch_lib.ThreadPrefetchIterDataset(gate.GateDataset(src, n), prefetch_buffer_size=b))
    else:
      it = iter(process_lib.ProcessPrefetchIterDataset(gate.GateDataset(src, n), buffer_size=b))
    self.it = it
    self.thread.start()

  # ------------------------------------------------------ client operations
  def work(self):
    while True:
      o = self.todo.get()
      if o is None:
        return
      for q in o.get('then', []):
        # one directly after the other, before other threads can do anything
        sys.setswitchinterval(5)
        e = self.run({k: v for k, v in o.items() if k != 'then'})
        with GATE.lock:
          self.ev.append(e)
          if e['e'] == 'raise':
            o = None
            break
          o = q
          GATE.log(e='call', **o)
      sys.setswitchinterval(0.005)
      e = self.run(o) if o else self.ev.pop()
      with GATE.lock:
        self.ev.append(e)
        GATE.count += 1
        self.pending = False
        GATE.change.notify_all()

  def run(self, o):
    op = o['op']
    try:
      if op == 'next':
        try:
          return {'e': 'ret', 'v': int(next(self.it))}
        except StopIteration:
          return {'e': 'stop'}
        except gate.Failed as e:
          return {'e': 'err', 'm': str(e)}
        except RuntimeError as e:
          if 'terminated unexpectedly' in str(e):
            return {'e': 'err', 'm': 'died'}
          raise
      elif op == 'get':
        self.snaps[o['s']] = self.it.get_state()
      elif op == 'set':
        self.it.set_state(self.snaps[o['s']])
      elif op == 'seek':
        gex.set_next_index(self.it, o['k'])
      elif op == 'index':
        return {'e': 'done', 'v': int(gex.get_next_index(self.it))}
      elif op == 'start':
        self.it.start_prefetch()
      elif op == 'setB':
        self.it._set_prefetch_buffer_size(o['b'])  # pylint: disable=protected-access
      elif op == 'setT':
        self.it._set_num_threads(o['t'])  # pylint: disable=protected-access
      elif op == 'close':
        self.it.close()
    except Exception as e:  # pylint: disable=broad-except
      return common.raised(op, e)
    return {'e': 'done'}

  def call(self, o):
    with GATE.lock:
      self.pending = True
      GATE.log(e='call', **{k: v for k, v in o.items() if k != 'then'})
    self.todo.put(o)
    if KIND == 'proc' and o['op'] in ('next', 'start'):
      end = time.monotonic() + 0.7       # a worker takes time to start
      with GATE.lock:
        while not GATE.waiting and (self.pending or o['op'] == 'start') and time.monotonic() < end and not GATE.free:
          GATE.change.wait(0.02)
    self.settle()

  def settle(self):
    """Waits until nothing happens any more."""
    end = time.monotonic() + 1
    with GATE.lock:
      n = GATE.count
    while time.monotonic() < end:
      time.sleep(QUIET)
      with GATE.lock:
        if GATE.count == n:
          return
        n = GATE.count

  def resolve(self, limit=25):
    """Lets reads go on until the operation in progress has ended."""
    end = time.monotonic() + limit
    with GATE.lock:
      while self.pending:
        ws = sorted(GATE.waiting, key=lambda i: GATE.waiting[i][0])
        if ws:
          GATE.release(ws[0] if KIND != 'pool' or self.r.random() < .6 else self.r.choice(ws), 0)
        GATE.change.wait(0.01)
        if time.monotonic() > end:
          self.ev.append({'e': 'raise', 'op': 'stuck'})
          return False
        if self.ev and self.ev[-1]['e'] == 'raise':
          return False
    return True

  def outcome(self):
    return 1 if self.r.random() < 0.1 else 0

  def play(self, hist):
    for o in hist:
      op = o['op']
      with GATE.lock:
        if self.ev and self.ev[-1]['e'] == 'raise':
          return
        ws = sorted(GATE.waiting, key=lambda i: GATE.waiting[i][0])
      if op in ('begin', 'return', 'fin', 'init'):
        continue
      if op == 'end':
        ws = [i for i in ws if GATE.waiting[i][0] == o['k']] or (ws if self.r.random() < .3 else [])
        if ws:
          GATE.release(self.r.choice(ws), self.outcome())
          self.settle()
        continue
      if op in ('rel', 'raise', 'die'):
        if op == 'die' and not ws:
          self.kill()
        elif ws:
          GATE.release(ws[0], {'rel': self.outcome() if KIND == 'thread' else 0, 'raise': 1,
                               'die': self.r.choice(['exit', 'exit', 'kill', 'sys'])}[op])
        self.settle()
        continue
      if self.closed and op in ('next', 'start', 'seek', 'set', 'setB', 'setT'):
        continue
      if self.pending and not self.resolve():
        return
      if op == 'set' and o['s'] not in self.snaps:
        o = {'op': 'get', 's': o['s']}
        if self.closed:
          continue
      if op == 'seek':
        o = {'op': 'seek', 'k': min(o['k'], self.t['n'])}
      if op == 'get' and self.closed:
        continue
      if not self.closed and self.r.random() < .12:
        self.call({'op': 'index'})
        if not self.resolve():
          return
      if op == 'close':
        self.closed = True
      o = dict(o)
      if KIND == 'proc' and op in ('set', 'seek'):
        if self.r.random() < .3:
          o['then'] = [{'op': 'set', 's': self.r.choice(sorted(self.snaps))} if self.snaps and self.r.random() < .6
                       else {'op': 'seek', 'k': self.r.randint(0, self.t['n'])} for _ in range(self.r.choice([1, 1, 2]))]
        elif self.r.random() < .15:
          GATE.refuse = True
      self.call(o)
      if op in ('get',) and not self.resolve():
        return
    if self.pending and not self.resolve():
      return
    with GATE.lock:
      if self.ev and self.ev[-1]['e'] == 'raise':
        return
      GATE.refuse = False
      GATE.free = True
      for i in sorted(GATE.waiting):
        GATE.release(i, 0)
    if not self.closed:
      # at the end everything that is left is read
      revived = 0
      for _ in range(4 * self.t['n'] + 9):
        if KIND != 'pool' and self.r.random() < .2:
          self.call({'op': 'index'})
          if not self.resolve():
            return
        self.call({'op': 'next'})
        if not self.resolve():
          return
        with GATE.lock:
          last = self.ev[-1]
          while last['e'] not in ('ret', 'stop', 'err', 'raise'):
            last = self.ev[self.ev.index(last) - 1]
        if last['e'] == 'raise':
          return
        if last['e'] == 'stop':
          if KIND == 'proc' and revived < 2 and self.snaps and self.r.random() < .6:
            revived += 1
            self.call({'op': 'set', 's': self.r.choice(sorted(self.snaps))} if self.r.random() < .8 else
                      {'op': 'seek', 'k': self.r.randint(0, self.t['n'])})
            if not self.resolve():
              return
            continue
          break
      self.call({'op': 'close'})
      if not self.resolve():
        return
      self.closed = True
    self.settle()
    GATE.log(e='left', v=self.left())

  def kill(self):
    """Kills the worker while it is not reading."""
    p = getattr(self.it, '_prefetch_process', None)
    if p is None or not p.is_alive():
      return
    with GATE.lock:
      # not while it may be taking a request
      todo = 0
      started = False
      for e in self.ev:
        if e['e'] == 'call' and e['op'] in ('set', 'seek'):
          todo += 1
        elif e['e'] in ('ret', 'ps') and (e['e'] == 'ret' or todo == 1):
          todo = 0
        elif e['e'] == 'ws':
          started = True
      if todo or not started or GATE.waiting or self.pending:
        return
    time.sleep(0.03)
    with GATE.lock:
      if GATE.waiting:
        return
      GATE.log(e='d', k=-1, i=0)
      p.kill()
    p.join(5)

  def left(self):
    """Threads or processes that survive."""
    end = time.monotonic() + 10
    while time.monotonic() < end:
      if KIND == 'proc':
        import multiprocessing as mp
        n = len(mp.active_children())
      else:
        n = sum(x.name.startswith('grain-thread-prefetch' if KIND == 'thread' else 'grain-prefetch') for x in threading.enumerate())
      if not n:
        return 0
      time.sleep(0.005)
    return n

  def finish(self):
    GATE.abandon()
    self.todo.put(None)
    try:
      self.it.close()
    except Exception:  # pylint: disable=broad-except
      pass


def one(out, n, hist):
  r = common.rng(n)
  init = hist[0]
  size = r.randint(1, 9)
  t = {'id': '%s/%d/%d' % (PID, common.SHARD, n), 'kind': KIND, 'n': size, 'b': init['b'], 't': init['t'],
       'none': sorted(k for k in range(size) if KIND == 'pool' and r.random() < .2), 'ev': []}
  out.begin(t, 150)
  x = Run(t, r)
  x.build(init['b'], init['t'])
  try:
    x.play(hist)
  finally:
    ev = list(t['ev'])
    x.finish()
    t = dict(t, ev=ev)
  out.end(t)
  return not any(e['e'] == 'raise' for e in ev)


PATH = ''


def main():
  global PATH
  out = common.Out()
  if KIND == 'proc':
    common.fast_workers(['gate', 'grain', 'grain._src.python.dataset.transformations.process_prefetch'])
  PATH = os.path.join(common.SCRATCH, 'g%d.sock' % os.getpid())
  gate.LOCAL = GATE
  GATE.serve(PATH)
  big = None
  if KIND == 'proc' and common.SHARD == 0:
    big = subprocess.Popen([sys.executable, '-c', 'import midwrite'], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True)
  hists = json.load(open(os.environ['HISTS']))
  for n, h in enumerate(hists[common.SHARD::common.NSHARDS][:N]):
    if not one(out, n, h):
      break              # a violation is found, and what follows could wait again and again
  if big is not None:
    v = (big.communicate(timeout=120)[0].split() or ['nothing'])[0]
    t = {'id': PID + '/midwrite', 'kind': KIND, 'n': 1, 'b': 1, 't': 1, 'none': [], 'ev': []}
    if v != 'error':
      t['ev'] = [{'e': 'raise', 'op': 'worker killed while writing an element: ' + v}]
      if v == 'hang':
        t['fingerprint'] = 'worker-killed-mid-write'
    out.end(t)


main()
