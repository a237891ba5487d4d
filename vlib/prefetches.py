"""The checks of prefetching (C03, C04, C05)."""
import json
import os

MODEL = {'pool': 'Pool', 'thread': 'Thread', 'proc': 'Proc'}


def run(ctx, kind, quick, thorough, what, big=None, shards=8, parallel=8):
  m = MODEL[kind]
  ctx.model_check(m + 'Prefetch', big if ctx.thorough else None, what=what, workers=8, timeout=800)
  n = thorough if ctx.thorough else quick
  r = ctx.tlc(m + 'Prefetch', m + 'Gen', args=['-simulate', 'num=%d' % n, '-depth', '300', '-seed', str(ctx.seed * 1000 + 7)], workers=1)
  hs, seen = [], set()
  for h in r.json_lines('HIST'):
    k = json.dumps(h, sort_keys=True)
    if k not in seen:
      seen.add(k)
      hs.append(h)
  if len(hs) < n // 2:
    raise RuntimeError('generation of schedules failed: ' + r.out[-2000:])
  f = os.path.join(ctx.dir, 'hists.json')
  json.dump(hs, open(f, 'w'))
  ts = ctx.harness('c03', shards=shards, parallel=parallel, KIND=kind, HISTS=f, N=n, timeout=800)
  ctx.samples = ts[:2]
  ctx.validate(ts, module='PrefetchTrace', timeout=800)
  ctx.cov.update(schedules=len(ts), events=sum(len(t['ev']) for t in ts),
                 reads=sum(e['e'] == 'b' for t in ts for e in t['ev']),
                 restores=sum(e['e'] == 'call' and e['op'] in ('set', 'seek') for t in ts for e in t['ev']),
                 failures=sum(e['e'] in ('err', 'd') for t in ts for e in t['ev']))
  return ts
