"""Random access: lengths, single, repeated, batched and concurrent accesses, passes."""
import os
from concurrent import futures

import common
import pipes
from pipes import enc

out = common.Out()
PID = os.environ.get('PID', 'C09')
r = common.rng(PID)
N = int(os.environ.get('N', '40'))
TOPS = os.environ.get('TOPS', 'map mapidx rmap shuffle wshufm slice reindex repeat seed concat select zip batch filter flatmap').split()


def inf_repeat(p):
  """An endless repeat is bounded by a slice above it."""
  n = pipes.plen(p)
  if not n:
    return p
  k = r.choice([1, 2, 3])
  rep = {'op': 'repeat', 'p': p, 'n': 40, 'inf': True, 'reseed': r.random() < .5}
  stop = r.randrange(1, n * k + 2)
  return {'op': 'slice', 'p': rep, 'start': r.choice([pipes.NOARG, 0, r.randrange(stop)]), 'stop': stop, 'step': r.choice([1, 2])}


for n in range(N):
  t = out.begin({'id': '%s/%d/%d' % (PID, common.SHARD, n), 'ev': []}, 60)
  ev = t['ev']
  top = TOPS[(common.SHARD * N + n) % len(TOPS)]
  g = pipes.Gen(r, maxlen=20, maxn=9, files=True)
  p, kind = g.mtree(r.choice([1, 2, 3, 4]), top=top)
  if r.random() < .15 and pipes.plen(p) <= 20:
    p = inf_repeat(p)
  # an endless dataset has no following epochs
  EPOCHS = 1 if p.get('p', {}).get('inf') else 3
  t['pipeline'], t['ops'] = p, '>'.join(pipes.ops_of(p))
  t['ast'] = {'op': 'src', 'xs': [[0]]}
  try:
    ln = pipes.plen(p)
    if ln > 60:
      out.cancel()
      continue
    p = pipes.resolve(p, max(ln * EPOCHS, 1))
    t['pipeline'], t['ast'] = p, pipes.clean(p)
    d = pipes.mbuild(p)
    ev.append({'e': 'len', 'v': len(d)})
    if ln:
      for k in range(r.choice([4, 8, 16])):
        c = r.randrange(12)
        if k == 0:
          c = 3     # most trees get at least one pass
        if c <= 4 and c > 2:
          ev.append({'e': 'pass', 'v': [enc(x) for x in d]})
        elif c == 2:
          it = d.to_iter_dataset(allow_nones=True)
          ev.append({'e': 'passall', 'v': [enc(x) for x in it]})
        elif c <= 1:
          js = [r.randrange(ln * EPOCHS) for _ in range(r.randrange(0, 6))]
          if r.random() < .5:
            a = r.randrange(ln * EPOCHS)
            js = list(range(a, min(a + r.randrange(1, 9), ln * EPOCHS)))
          ev.append({'e': 'items', 'is': js, 'v': [enc(x) for x in d._getitems(js)]})
        elif c == 5:
          js = [r.randrange(ln * EPOCHS) for _ in range(12)]
          with futures.ThreadPoolExecutor(4) as ex:
            xs = list(ex.map(lambda j: enc(d[j]), js))
          ev += [{'e': 'at', 'i': j, 'v': x} for j, x in zip(js, xs)]
        elif c == 6:
          d = pipes.mbuild(p)
        elif c == 7:
          a, b = r.randrange(ln), r.randrange(ln + 1)
          s = d[a:b]
          ev += [{'e': 'at', 'i': a + j, 'v': enc(s[j])} for j in range(len(s))]
        else:
          for j in [r.randrange(ln * EPOCHS) for _ in range(3)] + [r.randrange(ln)]:
            ev.append({'e': 'at', 'i': j, 'v': enc(d[j])})
            if r.random() < .3:
              ev.append({'e': 'at', 'i': j, 'v': enc(d[j])})
  except pipes.BadTable:
    out.cancel()
    continue
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('access', e))
  out.end(t)
