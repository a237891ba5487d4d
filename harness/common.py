"""Shared parts of the harnesses: output, watchdog, client histories."""
import copy
import faulthandler
import json
import logging
import os
import random
import signal
import sys
import threading
import time
import traceback

from grain import experimental as gex

logging.disable(logging.WARNING)
SEED = int(os.environ.get('VERIF_SEED', '1'))
SHARD = int(os.environ.get('SHARD', '0'))
NSHARDS = int(os.environ.get('NSHARDS', '1'))
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'
SCRATCH = os.environ.get('SCRATCH', '/tmp')


def rng(salt=0):
  return random.Random('%d/%d/%s' % (SEED, SHARD, salt))


class Out:
  """Writes one JSON object per line; watches over the trace being recorded."""

  def __init__(self):
    self.f = open(os.environ['OUT'], 'w') if 'OUT' in os.environ else sys.stdout
    self.cur = None
    self.deadline = None
    self.lock = threading.RLock()
    self.idle = time.monotonic()
    sys.excepthook = self._died
    t = threading.Thread(target=self._watch, daemon=True)
    t.start()

  def begin(self, trace, limit=60):
    with self.lock:
      self.cur = trace
      self.deadline = time.monotonic() + limit
    return trace

  def extend(self, limit=60):
    self.deadline = time.monotonic() + limit

  def end(self, trace=None):
    with self.lock:
      trace = trace if trace is not None else self.cur
      self.cur = None
      self.deadline = None
      self.idle = time.monotonic()
      if trace is not None:
        self.f.write(json.dumps(trace) + '\n')
        self.f.flush()

  def cancel(self):
    with self.lock:
      self.cur = self.deadline = None
      self.idle = time.monotonic()

  def _dead(self, what):
    self.f.write(json.dumps({'died': what}) + '\n')
    self.f.flush()
    kill_children()
    os._exit(17)

  def _died(self, kind, e, tb):
    """The harness fails between traces, in code under test."""
    sys.__excepthook__(kind, e, tb)
    if tb is not None and any('/grain/_src/' in f.filename for f in traceback.extract_tb(tb)):
      with self.lock:
        self._dead(raised('preparing a test', e)['op'])

  def _watch(self):
    while True:
      time.sleep(0.2)
      with self.lock:
        if self.deadline is not None and time.monotonic() > self.deadline and self.cur is not None:
          faulthandler.dump_traceback(file=sys.stderr)
          t = dict(self.cur)
          t['ev'] = list(t.get('ev', [])) + [{'e': 'raise', 'op': 'hang'}]
          self.f.write(json.dumps(t) + '\n')
          self.f.flush()
          kill_children()
          os._exit(17)
        if self.cur is None and time.monotonic() - self.idle > 150:
          f = sys._current_frames().get(threading.main_thread().ident)
          if f is not None and any('/grain/_src/' in x.filename for x in traceback.extract_stack(f)):
            faulthandler.dump_traceback(file=sys.stderr)
            self._dead('hang while preparing a test')


def kill_children():
  try:
    import multiprocessing as mp
    for c in mp.active_children():
      c.kill()
  except Exception:  # pylint: disable=broad-except
    pass


def fast_workers(preload):
  """Worker processes are forked from a server that has the modules loaded.

  They start with the same pickled arguments as spawned ones, only faster.
  """
  import multiprocessing as mp
  real = mp.get_context
  server = real('forkserver')
  server.set_forkserver_preload(list(preload))
  mp.get_context = lambda method=None: server if method == 'spawn' else real(method)


def freeze(x):
  """A hashable/comparable deep description of a state (types included)."""
  import numpy as np
  if isinstance(x, dict):
    return ('d', tuple(sorted((repr(k), freeze(v)) for k, v in x.items())))
  if isinstance(x, (list, tuple)):
    return ('l', tuple(freeze(v) for v in x))
  if isinstance(x, np.ndarray):
    return ('a', x.shape, str(x.dtype), x.tobytes())
  if hasattr(x, '__dict__') and not isinstance(x, type):
    return ('o', type(x).__name__, freeze(x.__dict__))
  return repr(x)


def raised(op, e):
  """The event for an exception where the specification allows none."""
  return {'e': 'raise', 'op': '%s: %s %s' % (op, type(e).__name__, str(e)[:120].replace('"', "'").replace('\\', '/').replace('\n', ' '))}


class Client:
  """Runs a history of API calls against a pipeline and records the events."""

  def __init__(self, mk, enc, trace, err_code=None, limit_next=200):
    self.mk = mk              # makes the dataset
    self.enc = enc
    self.trace = trace
    self.ev = trace['ev']
    self.its = {}
    self.snaps = {}
    self.frozen = {}
    self.err_code = err_code or (lambda e: [-9, 0])
    self.ds = None
    self.nref = trace.get('nref', 0)
    self.old = []             # iterators that were replaced

  def guard(self, op, fn):
    try:
      return fn()
    except Exception as e:  # pylint: disable=broad-except
      self.ev.append(raised(op, e))
      raise Stop() from e

  def new(self, i, fresh=False):
    if fresh or self.ds is None:
      self.ds = self.guard('build', self.mk)
    if i in self.its:
      self.old.append(self.its[i])
    self.its[i] = self.guard('iter', lambda: iter(self.ds))
    self.ev.append({'e': 'new', 'i': i})

  def next(self, i):
    """Returns False when the end (or an error) was met."""
    try:
      x = next(self.its[i])
    except StopIteration:
      self.ev.append({'e': 'stop', 'i': i})
      return False
    except Exception as e:  # pylint: disable=broad-except
      self.ev.append({'e': 'err', 'i': i, 't': type(e).__name__, 'v': self.err_code(e), 'm': str(e)[:100]})
      return False
    self.ev.append({'e': 'next', 'i': i, 'v': self.enc(x)})
    return True

  def get(self, i, s):
    self.check_snaps()
    self.snaps[s] = self.guard('get_state', self.its[i].get_state)
    self.frozen[s] = freeze(self.snaps[s])
    self.ev.append({'e': 'get', 'i': i, 's': s})

  def set(self, i, s):
    self.guard('set_state', lambda: self.its[i].set_state(self.snaps[s]))
    self.ev.append({'e': 'set', 'i': i, 's': s})

  def json(self, s, f):
    v = self.guard('json', lambda: json.loads(json.dumps(self.snaps[f])))
    self.snaps[s] = v
    self.frozen[s] = freeze(v)
    self.ev.append({'e': 'copy', 's': s, 'f': f})

  def deepcopy(self, s, f):
    v = copy.deepcopy(self.snaps[f])
    self.snaps[s] = v
    self.frozen[s] = freeze(v)
    self.ev.append({'e': 'copy', 's': s, 'f': f})

  def seek(self, i, n):
    """Returns False when the iterator refuses to seek."""
    try:
      gex.set_next_index(self.its[i], n)
    except (NotImplementedError, ValueError, AttributeError) as e:
      self.ev.append({'e': 'refused', 'i': i, 'm': str(e)[:80]})
      return False
    except Exception as e:  # pylint: disable=broad-except
      self.ev.append(raised('set_next_index', e))
      raise Stop() from e
    self.ev.append({'e': 'seek', 'i': i, 'v': n})
    return True

  def index(self, i):
    try:
      n = gex.get_next_index(self.its[i])
    except (NotImplementedError, ValueError, AttributeError) as e:
      self.ev.append({'e': 'refused', 'i': i, 'm': str(e)[:80]})
      return False
    except Exception as e:  # pylint: disable=broad-except
      self.ev.append(raised('get_next_index', e))
      raise Stop() from e
    self.ev.append({'e': 'index', 'i': i, 'v': int(n)})
    return True

  def check_snaps(self):
    for s, v in self.snaps.items():
      if freeze(v) != self.frozen[s]:
        self.ev.append({'e': 'same', 's': s, 'v': 0})
        raise Stop()

  def close(self, i):
    self.guard('close', self.its[i].close)
    self.ev.append({'e': 'close', 'i': i})

  def run(self, hist, immut=False):
    """Replays one generated history."""
    try:
      for h in hist:
        op = h['op']
        if op == 'new':
          self.new(h['i'], fresh=bool(len(self.ev) % 2))
        elif op == 'next':
          for _ in range(h['k']):
            if not self.next(h['i']):
              break
        elif op == 'get':
          self.get(h['i'], h['s'])
        elif op == 'set':
          self.set(h['i'], h['s'])
        elif op == 'json':
          self.json(h['s'], h['f'])
        elif op == 'deepcopy':
          self.deepcopy(h['s'], h['f'])
        elif op == 'close':
          self.close(h['i'])
        elif op == 'seek':
          if not self.nref or not self.seek(h['i'], h['k'] % self.nref):
            return
        elif op == 'index':
          if not self.index(h['i']):
            return
        if immut:
          self.check_snaps()
      if immut:
        self.ev.append({'e': 'same', 's': 0, 'v': 1})
      for i in list(self.its):   # at the end every open iterator is drained
        if self.open(i):
          while self.next(i):
            if len(self.ev) > 3000:
              self.ev.append({'e': 'raise', 'op': 'iteration does not end'})
              raise Stop()
    except Stop:
      pass
    finally:
      self.close_all()

  def close_all(self):
    for it in self.old + list(self.its.values()):
      try:
        it.close()
      except Exception as e:  # pylint: disable=broad-except
        self.ev.append(raised('close', e))

  def open(self, i):
    for e in reversed(self.ev):
      if e.get('i') == i and e['e'] == 'close':
        return False
      if e.get('i') == i and e['e'] == 'new':
        return True
    return False


def draw(out, pid, n, cand, big=60):
  """A random pipeline and its number of elements, or None.

  A pipeline that cannot be built or iterated at all is reported.
  """
  import pipes
  out.begin({'id': '%s/%d/%d/build' % (pid, SHARD, n), 'ref': [], 'ops': '', 'ev': []}, 90)
  try:
    return pipes.draw(cand, big)
  except pipes.BadTable:
    return None
  except pipes.Unusable as e:
    out.end({'id': '%s/%d/%d/build' % (pid, SHARD, n), 'ref': [], 'ops': '>'.join(pipes.ops_of(e.p)),
             'ev': [raised('uninterrupted run', e.e)], 'pipeline': e.p})
    return None
  finally:
    out.cancel()


class Stop(Exception):
  pass


def reference(mk, enc, limit=2000):
  """The uninterrupted iteration, as a list of encoded elements."""
  out = []
  it = iter(mk())
  try:
    for x in it:
      out.append(enc(x))
      if len(out) > limit:
        break
  finally:
    try:
      it.close()
    except Exception:  # pylint: disable=broad-except
      pass
  return out
