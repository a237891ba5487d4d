"""C23: resizable queues."""
import json
import os

from vlib import core

TECHNIQUE = ('TLA+ design models of both queues checked by TLC (FIFO, capacity, no forgotten waiter, progress); TLC-generated schedules run on the '
             'real queues under a cooperative scheduler and with real threads and processes; TLC decides whether every recorded history is linearizable')
NOTE = ('spec/QueueTrace.tla searches all linearizations of each history (including blocked calls: a call may only wait while the specification '
        'disables it). The thread queue is preempted at every lock operation under virtual time; the process queue is driven by threads and by '
        'processes without control over the interleaving. Items of different producer processes are ordered per producer only.')


def run(ctx):
  ctx.model_check('VarQueue', 'VarQueueBig' if ctx.thorough else None, workers=8, what='condition protocol of the resizable thread queue')
  ctx.model_check('VarMpQueue', 'VarMpQueueBig' if ctx.thorough else None, workers=8, what='semaphore protocol of the resizable process queue')
  num = 6000 if ctx.thorough else 1500
  r = ctx.tlc('VarQueue', 'VarQueueGen', args=['-simulate', 'num=%d' % num, '-depth', '29', '-seed', str(ctx.seed * 1000 + 23)], workers=1)
  hs = r.json_lines('HIST')
  if len(hs) < num // 3:
    raise core.MachineryError('history generation failed: ' + r.out[-2000:])
  f = os.path.join(ctx.dir, 'hists.json')
  json.dump(hs, open(f, 'w'))
  k = 6 if ctx.thorough else 1
  ts = ctx.harness('c23', shards=8, HISTS=f, N=150 * k, NMP=12 * k, NST=4 * k, NPROC=2 * k, timeout=800)
  ctx.samples = ts[:2]
  ctx.validate(ts, 'QueueTrace')
  ctx.cov.update(schedules=len(hs), calls=sum(e['e'] == 'inv' for t in ts for e in t['ev']),
                 scheduled=sum('/coop' in t['id'] for t in ts), blocked=sum(e['e'] == 'quiet' for t in ts for e in t['ev']),
                 resizes=sum(e['e'] == 'inv' and e['op'] == 'cap' for t in ts for e in t['ev']))
