"""The same pipeline with and without observability options.

Iterator i of a trace uses variant i of the pipeline; states saved by one
variant are restored into others.
"""
import json
import os
import time

if int(os.environ.get('SHARD', '0')) % 4 == 1:
  # metrics are exported (and shared with worker processes)
  os.environ['ENABLE_PYGRAIN_PROMETHEUS_TELEMETRY'] = 'true'
  os.environ['PROMETHEUS_MULTIPROC_DIR'] = os.path.join(os.environ.get('SCRATCH', '/tmp'), 'metrics%s' % os.environ['SHARD'])
  os.makedirs(os.environ['PROMETHEUS_MULTIPROC_DIR'], exist_ok=True)

from absl import flags

import common
import pipes
from pipes import enc
import grain
from grain import experimental as gex
from grain._src.core import config as config_lib
from grain._src.python.dataset import dataset
from grain._src.python.dataset import stats as stats_lib

flags.FLAGS(['harness'])
for name, v in (('_REPORTING_PERIOD_SEC', 0.05), ('_REPORTING_TIMEOUT_SEC', 0.5), ('_LOG_EXECUTION_SUMMARY_PERIOD_SEC', 0.07), ('_WORKER_QUEUE_TIMEOUT_SEC', 1)):
  if hasattr(stats_lib, name):
    setattr(stats_lib, name, v)    # report while the check runs

hists = json.load(open(os.environ['HISTS']))
out = common.Out()
PID = os.environ.get('PID', 'C26')
r = common.rng(PID)
N = int(os.environ.get('N', '20'))
PER = int(os.environ.get('PER', '3'))
NPROC = int(os.environ.get('NPROC', '0'))
STATEFUL = ['rmap', 'filter', 'flatmap', 'batch', 'rebatch', 'limit', 'repeat', 'wshuf', 'cache', 'thr', 'zip',
            'mix', 'inter', 'mt', 'map', 'mapidx']
Opt = gex.DatasetOptions if hasattr(gex, 'DatasetOptions') else dataset.base.DatasetOptions
MODE = gex.ExecutionTrackingMode
OPTS = [
    lambda: Opt(execution_tracking_mode=MODE.STAGE_TIMING),
    lambda: Opt(execution_tracking_mode=MODE.STAGE_TIMING, min_shm_size=10**9),
    lambda: Opt(filter_warn_threshold_ratio=0.01),
    lambda: Opt(filter_warn_threshold_ratio=None, filter_raise_threshold_ratio=None),
    lambda: Opt(min_shm_size=1),
]


class Flags:
  """Global settings for one variant, set while it builds its iterator."""

  def __init__(self, kind):
    self.kind = kind

  def __enter__(self):
    c = config_lib.config
    if self.kind == 'debug':
      c.update('py_debug_mode', True)
    elif self.kind == 'vis':
      c.update('py_dataset_visualization_output_dir', '')
    elif self.kind == 'trace':
      c.update('py_traceback_filtering', 'off')

  def __exit__(self, *a):
    c = config_lib.config
    c.update('py_debug_mode', False)
    c.update('py_dataset_visualization_output_dir', None)
    c.update('py_traceback_filtering', 'auto')


def failing(p):
  """The pipeline with a user function that fails on some elements."""
  return pipes.insert(p, r, 0.2, lambda q: {'op': 'fail', 'p': q, 'm': r.choice([4, 5]), 'r': r.randrange(4),
                                            'k': 5, 'flag': FLAG})


FLAG = os.path.join(common.SCRATCH, 'c26-flag-%d' % common.SHARD)


class Client(common.Client):
  """Iterator i uses variant vs[i]; the flags of a variant stay on while it is used."""

  def __init__(self, p, vs, trace, **kw):
    super().__init__(None, enc, trace, **kw)
    self.p, self.vs = p, vs

  def new(self, i, fresh=False):
    v = self.vs[i % len(self.vs)]
    if i in self.its:
      self.old.append(self.its[i])

    def mk():
      d = pipes.ibuild(self.p)
      if v in ('timing', 'opt'):
        d = dataset.WithOptionsIterDataset(d, OPTS[0]() if v == 'timing' else r.choice(OPTS)())
      return iter(d)
    self.its[i] = self.guard('iter', mk)
    self.ev.append({'e': 'new', 'i': i})

  def next(self, i):
    v = self.vs[i % len(self.vs)]
    ok = super().next(i)
    if v == 'timing' and r.random() < .1:
      try:     # (what the summary says is not the subject here)
        dataset.get_execution_summary(self.its[i])
      except Exception:  # pylint: disable=broad-except
        pass
    return ok


def code(e):
  return [-9, e.k] if isinstance(e, pipes.Boom) else [-9, 0]


h = common.SHARD
for n in range(N + NPROC):
  top = STATEFUL[(common.SHARD * N + n) % len(STATEFUL)]
  g = pipes.Gen(r, maxlen=14, maxn=8, files=True)
  if n >= N:
    top = 'mp' if n % 2 else 'proc'
  d = common.draw(out, PID, n, lambda: g.itree(r.choice([1, 2, 3]), top=top)[0], 40)
  if d is None:
    continue
  p, cnt = d
  if n >= N and not pipes.has(p, ('mp', 'proc')):
    continue
  bad = n < N and r.random() < .25 and not pipes.has(p, ('wshuf', 'cache'))
  if bad:
    p = failing(p)
    open(FLAG, 'w').close()
  for k in range(PER if n < N else 1):
    vs = ['plain', 'plain', 'timing', 'opt']
    r.shuffle(vs)
    flag = r.choice(['none', 'debug', 'debug', 'vis', 'trace'])
    t = out.begin({'id': '%s/%d/%d/%d' % (PID, common.SHARD, n, k), 'ops': '>'.join(pipes.ops_of(p)), 'variants': vs + [flag],
                   'ev': [], 'pipeline': p, 'ast': pipes.clean(p)}, 90)
    if bad:
      t['bad'] = pipes.clean(p, False)
    c = Client(p, vs, t, err_code=code)
    hist = hists[h % len(hists)]
    h += common.NSHARDS
    if not bad:
      # states saved without any option set, restored below with options
      c.vs = ['plain']
      try:
        for s in range(3):
          c.new(s + 4)
          for _ in range(r.randrange(cnt + 2)):
            if not c.next(s + 4):
              break
          c.get(s + 4, s)
          c.close(s + 4)
      except common.Stop:
        pass
      c.vs = vs
      c.its = {}
    with Flags(flag):
      if bad:
        # until the failure, in every variant
        try:
          for i in range(4):
            c.new(i)
            while c.next(i):
              if len(t['ev']) > 1000:
                raise common.Stop()
        except common.Stop:
          pass
        finally:
          c.close_all()
      else:
        c.run([{'op': 'new', 'i': 3}, {'op': 'set', 'i': 3, 's': r.randrange(3)}] + hist)
    out.end(t)
  if bad:
    os.remove(FLAG)

# Autotuned sizes stay within the bounds and leave the dataset alone.
import numpy as np


class Big:
  def __init__(self, k):
    self.k = k
  def __call__(self, x):
    return {'x': np.zeros((self.k,), np.uint8), 'y': x}


class Id:
  def __call__(self, e):
    return int(e['y'])


for n in range(12 if common.SHARD < 4 else 4):
  m = r.randrange(0, 12)
  d = dataset.MapDataset.range(m).map(Big(r.choice([0, 1000, 2**20, 3 * 2**20])))
  it = d.to_iter_dataset(grain.ReadOptions(num_threads=1, prefetch_buffer_size=2))
  if r.random() < .3:
    it = gex.ThreadPrefetchIterDataset(it, prefetch_buffer_size=1)
  if r.random() < .3:
    it = dataset.IterDataset.mix([it, d.to_iter_dataset()], [1, 1])
  t = out.begin({'id': '%s/%d/tune%d' % (PID, common.SHARD, n), 'ops': 'autotune', 'ev': [], 'pipeline': 'autotune %d' % m,
                 'ref': [pipes.enc(x) for x in it.map(Id())]}, 90)
  ev = t['ev']
  c = common.Client(lambda: it.map(Id()), enc, t)
  try:
    mw, mb = r.choice([1, 2, 5, None]), r.choice([1, 3, 20, None])
    cfg = gex.pick_performance_config(it, ram_budget_mb=r.choice([0, 1, 5, 50, 1000]), max_workers=mw, max_buffer_size=mb,
                                      samples_to_check=r.choice([1, 3, 5, 20]))
    nw, nb = cfg.multiprocessing_options.num_workers, cfg.read_options.prefetch_buffer_size
    ev.append({'e': 'atmost', 'v': nw, 'max': mw if mw is not None else os.cpu_count(), 'what': 'autotuned number of workers'})
    ev.append({'e': 'atmost', 'v': nb, 'max': mb if mb is not None else 1000, 'what': 'autotuned buffer size'})
    ev.append({'e': 'atmost', 'v': -min(nw, nb), 'max': 0, 'what': 'autotuned sizes are negative'})
    c.new(0)
    while c.next(0):
      pass
  except common.Stop:
    pass
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('pick_performance_config', e))
  finally:
    c.close_all()
  out.end(t)
