"""Interleaving: random inputs, buffers, threads, workers and timing.

The expected elements are computed by the specification alone (ISeq of the
pipeline in spec/Pipe.tla, nothing is recorded).
"""
import json
import os
import random
import sys
import threading

import common
import pipes
import watched

hists = json.load(open(os.environ['HISTS']))
out = common.Out()
r = common.rng('c06')
N = int(os.environ.get('N', '20'))
PER = int(os.environ.get('PER', '3'))
NPROC = int(os.environ.get('NPROC', '1'))
common.fast_workers(['grain', 'pipes', 'grain._src.python.dataset.transformations.process_prefetch'])
g = pipes.Gen(r, maxlen=14, maxn=8, files=True)


def source():
  """An input: often empty or short, so that inputs end at different times."""
  n = r.choice([0, 0, 1, 1, 2, 3, 5, 8])
  k = r.randrange(4)
  xs = [[r.randrange(500)] for _ in range(n)]
  p = {'op': 'src', 'xs': xs, 'cls': k == 1}
  if k == 2 and n:
    p = {'op': 'range', 'start': 0, 'stop': n, 'step': 1}
  if n and r.random() < .3:
    p = {'op': r.choice(['filter']), 'p': p, 'm': 2, 'r': r.randrange(2)}
  elif n and r.random() < .3:
    p, _ = g.mop(p, 'a', op=r.choice(['map', 'shuffle', 'slice', 'repeat', 'mapidx']))
  if r.random() < .35:
    p = {'op': 'slow', 'p': p, 'm': r.choice([1, 2, 3])}
  q = {'op': 'iter', 'p': p, 'nones': False}
  if r.random() < .6:
    q['t'], q['bs'] = r.choice([(0, 0), (1, 1), (2, 3), (4, 2)])
  elif r.random() < .6:
    q['bare'] = True
  return q


def input_(depth=1):
  p = source()
  for _ in range(r.choice([0, 0, 1, 2])):
    op = r.choice(['map', 'filter', 'flatmap', 'limit', 'repeat', 'wshuf', 'thr', 'mapidx', 'rmap'])
    if op == 'repeat' and pipes.icount(pipes.strip_proc(p)) == 0:
      continue
    p, _ = g.iop(p, 'a', op)
  if depth and r.random() < .2:
    p = inter(depth - 1, r.randrange(0, 4))
  return p


def inter(depth=1, k=None):
  k = r.choice([0, 1, 2, 3, 4, 5, 6, 7]) if k is None else k
  return {'op': 'inter', 'ps': [input_(depth) for _ in range(k)], 'c': r.choice([1, 1, 2, 2, 3, 4, 9]),
          'mt': r.choice([0, 1, 1, 2, 4]), 'mb': r.choice([1, 1, 2, 5]), 'ib': r.choice([0, 1, 1, 2, 5]),
          'lazy': r.random() < .4}


def on_top(p, ops):
  for _ in range(r.choice([0, 0, 1, 2])):
    op = r.choice(ops)
    if op == 'repeat' and not pipes.icount(pipes.strip_proc(p)):
      continue
    p, _ = g.iop(p, 'a', op)
  return p


def cand(kind):
  if kind == 'inter':
    return on_top(inter(), ['map', 'filter', 'limit', 'repeat', 'thr', 'mapidx', 'rmap', 'wshuf'])
  p = inter(0) if r.random() < .5 else input_(0)
  if not pipes.sliceable(p):
    return None
  p = on_top(p, ['map', 'filter', 'rmap', 'limit', 'mapidx', 'flatmap'])
  if not pipes.sliceable(p):
    return None
  if p['op'] == 'iter':
    p.pop('bare', None)
  return {'op': kind, 'p': p, 'n': r.choice([1, 2, 3, 4] if kind == 'mt' else [1, 2, 3]), 'bs': r.choice([1, 2, 4])}


def unbare(p, top=True):
  """Only direct inputs of an interleave may be random-access datasets."""
  if p['op'] == 'inter':
    return {**p, 'ps': [unbare({**q, 'top': 0}, False) if q['op'] == 'iter' else unbare(q) for q in p['ps']]}
  q = dict(p)
  q.pop('top', None)
  if p['op'] == 'iter':
    if top:
      q.pop('bare', None)
    return q
  if 'p' in q:
    q['p'] = unbare(q['p'])
  return q


h = common.SHARD
KINDS = ['inter', 'inter', 'mt']
for n in range(N + NPROC):
  kind = KINDS[n % 3] if n < N else 'mp'
  got = common.draw(out, 'C06', n, lambda: cand(kind))
  if not got:
    continue
  p, nref = got
  p = unbare(p)
  for _ in range(PER if n < N else 1):
    t = out.begin({'id': 'C06/%d/%d/%d' % (common.SHARD, n, h), 'ev': [], 'ast': pipes.clean(p), 'nref': nref,
                   'ops': '>'.join(pipes.ops_of(p)), 'pipeline': p}, 120)
    common.Client(lambda: pipes.ibuild(p), pipes.enc, t).run(hists[h % len(hists)][:(9 if n >= N else 99)])
    h += common.NSHARDS
    out.end(t)

# Which inputs are open: each input tells when it is opened and ended.
for n in range(int(os.environ.get('NOPEN', '6'))):
  k = r.choice([2, 3, 5, 8])
  lens = [r.choice([0, 1, 2, 3, 6]) for _ in range(k)]
  c, mt, mb, ib = r.choice([1, 2, 3]), r.choice([1, 2]), r.choice([1, 2]), r.choice([0, 1, 3])
  watch = watched.Watch()
  ps = [{'op': 'given', 'xs': [[100 * d + j] for j in range(lens[d])]} for d in range(k)]
  t = out.begin({'id': 'C06/%d/open%d' % (common.SHARD, n), 'ev': [], 'ops': 'inter', 'pipeline': 'lens %s c %d mt %d mb %d ib %d' % (lens, c, mt, mb, ib),
                 'ast': {'op': 'inter', 'ps': ps, 'c': c}}, 60)
  mk = lambda: pipes.gex.InterleaveIterDataset(
      [watched.Input(watch, d, [x[0] for x in ps[d]['xs']]) for d in range(k)],
      cycle_length=c, num_make_iter_threads=mt, make_iter_buffer_size=mb, iter_buffer_size=ib)
  cl = common.Client(mk, pipes.enc, t)
  try:
    cl.new(0)
    for _ in range(sum(lens) + 2):
      more = cl.next(0)
      t['ev'].append({'e': 'atmost', 'v': watch.most, 'max': min(c, k) + mb, 'what': 'inputs open at the same time'})
      if not more:
        break
  except common.Stop:
    pass
  finally:
    cl.close_all()
  out.end(t)
