"""Random pipelines x generated histories; reference = uninterrupted run."""
import json
import os

import common
import pipes
import special

hists = json.load(open(os.environ['HISTS']))
out = common.Out()
PID = os.environ.get('PID', 'C01')
r = common.rng(PID)
g = pipes.Gen(r, maxlen=16, maxn=8, files=True)
N = int(os.environ.get('N', '20'))
PER = int(os.environ.get('PER', '4'))
IMMUT = os.environ.get('IMMUT') == '1'
STATEFUL = ['rmap', 'filter', 'flatmap', 'batch', 'rebatch', 'limit', 'repeat', 'wshuf', 'cache', 'thr', 'zip',
            'mix', 'inter', 'mt', 'map', 'mapidx']
n = 0
h = common.SHARD


def fail(e, ops, pipeline):
  out.end({'id': '%s/%d/%d/ref' % (PID, common.SHARD, n), 'ref': [], 'ops': ops,
           'ev': [common.raised('uninterrupted run', e)], 'pipeline': pipeline})


while n < N:
  if n % 4 == 3:
    sk = special.KINDS[(common.SHARD + n // 4 * common.NSHARDS) % len(special.KINDS)]
    desc, mk = special.make(r, sk)
    desc, ops, enc = 'special:%s shard %d n %d' % (sk, common.SHARD, n), sk, special.encd
  else:
    top = STATEFUL[(common.SHARD * N + n) % len(STATEFUL)]
    p, kind = g.itree(r.choice([1, 2, 2, 3, 3, 4]), top=top)
    desc, ops, enc = p, '>'.join(pipes.ops_of(p)), pipes.enc
    mk = lambda p=p: pipes.ibuild(p)
  out.begin({'id': '%s/%d/%d/ref' % (PID, common.SHARD, n), 'ref': [], 'ops': ops, 'ev': [], 'pipeline': desc})
  try:
    ref = common.reference(mk, enc)
  except Exception as e:  # pylint: disable=broad-except
    n += 1
    fail(e, ops, desc)
    continue
  out.cancel()
  if len(ref) > 80:
    continue
  n += 1
  for _ in range(PER):
    t = out.begin({'id': '%s/%d/%d/%d' % (PID, common.SHARD, n, h), 'ref': ref, 'ops': ops,
                   'ev': [], 'pipeline': desc})
    common.Client(mk, enc, t).run(hists[h % len(hists)], immut=IMMUT)
    h += common.NSHARDS
    out.end(t)
