"""C24: checkpoint files."""
import json
import os

from vlib import core

TECHNIQUE = ('TLA+ design model of checkpoint directories (synchronous and background saves, loads, crashes, several processes) checked by TLC; '
             'TLC-generated job histories replayed with CheckpointHandler and the asynchronous API, traces validated by TLC')
NOTE = ('The processes of a job are driven in one process (the process index is a stand-in, except in one trace). Every element read before and '
        'after a restore is judged by spec/CheckpointTrace.tla; processes read different data. Bounded by the generated histories: up to 3 '
        'processes, 2 directories, 2 writes in progress. Orbax itself is not installed; its protocol (save returns a coroutine that is awaited in '
        'another thread once the directory exists) is played by the harness.')


def run(ctx):
  ctx.model_check('Checkpoint', 'CheckpointBig' if ctx.thorough else None, workers=8, what='files hold the position at the time of the save; own file only')
  num = 3000 if ctx.thorough else 600
  r = ctx.tlc('CheckpointGen', args=['-simulate', 'num=%d' % num, '-depth', '25', '-seed', str(ctx.seed * 1000 + 24)], workers=1, DEPTH=22)
  hs = r.json_lines('HIST')
  if len(hs) < num // 2:
    raise core.MachineryError('history generation failed: ' + r.out[-2000:])
  f = os.path.join(ctx.dir, 'hists.json')
  json.dump(hs, open(f, 'w'))
  ts = ctx.harness('c24', shards=8, HISTS=f, N=200 if ctx.thorough else 32, PER=3, timeout=800)
  ctx.samples = ts[:2]
  ctx.validate(ts, 'CheckpointTrace')
  ctx.cov.update(histories=len(hs), saves=sum(e['e'] in ('save', 'saveend') for t in ts for e in t['ev']),
                 restores=sum(e['e'] in ('restore', 'loadend') for t in ts for e in t['ev']),
                 missing=sum(e['e'] == 'missing' for t in ts for e in t['ev']),
                 kinds={k: sum(t.get('kind') == k for t in ts) for k in ('ds', 'dl', 'sp', 'el', 'mp')})
