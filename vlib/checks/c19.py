"""C19: arrays in shared memory."""
import json
import os

from vlib import core

TECHNIQUE = ('TLA+ design model of handing blocks over between worker and consumer, with stale elements, failures half way and abandonment '
             '(spec/ShmTransport.tla) checked by TLC; histories of array operations generated from spec/ShmGen.tla and pipelines with worker '
             'processes are run, and the arrays and the blocks in /dev/shm after each operation are validated by TLC (spec/ShmTrace.tla)')
NOTE = ('The design is exhaustive for 3 elements, buffers up to 2, one restore (thorough: 4 elements, two). Histories have 24 operations on 5 '
        'arrays (16 types, views, copies, masked, empty, Fortran order) and 2 messages; pipelines have up to 3 workers, batches, sources '
        'that keep received arrays, failing batches, restores and abandonment. Killed workers are left out: their blocks are released '
        'when the main process ends.')


def run(ctx):
  ctx.model_check('ShmTransport', 'ShmTransportBig' if ctx.thorough else None, workers=8,
                  what='blocks are released exactly once, not while needed, and none is left')
  num = 3000 if ctx.thorough else 480
  r = ctx.tlc('ShmGen', args=['-simulate', 'num=%d' % num, '-depth', '28', '-seed', str(ctx.seed * 1000 + 19)], workers=1, DEPTH=24)
  hs = r.json_lines('HIST')
  if len(hs) < num // 2:
    raise core.MachineryError('history generation failed: ' + r.out[-2000:])
  f = os.path.join(ctx.dir, 'hists.json')
  json.dump(hs, open(f, 'w'))
  ts = ctx.harness('c19', shards=8, HISTS=f, N=400 if ctx.thorough else 60, NP=120 if ctx.thorough else 14, timeout=800,
                   died=lambda k, rc: {'base': [], 'shard': k, 'ev': [{'e': 'raise', 'op': 'the process dies of signal %d' % -rc}]})
  ctx.samples = [t for t in ts if 'kind' not in t][:1] + [t for t in ts if 'kind' in t][:1]
  ctx.validate(ts, 'ShmTrace')
  ctx.cov.update(histories=sum('kind' not in t for t in ts), pipelines=sum('kind' in t for t in ts),
                 operations=sum(len(t['ev']) for t in ts),
                 kinds={k: sum(t.get('kind') == k for t in ts) for k in ('copied', 'batched', 'kept', 'loader', 'failing')})
