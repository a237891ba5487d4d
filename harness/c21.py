"""Failing user functions: position of the error, recovery from saved states."""
import json
import os

import common
import pipes

hists = json.load(open(os.environ['HISTS']))
out = common.Out()
r = common.rng('c21')
g = pipes.Gen(r, maxlen=16, maxn=9, files=True)
N = int(os.environ.get('N', '20'))
PER = int(os.environ.get('PER', '4'))
NPROC = int(os.environ.get('NPROC', '2'))
TOPS = ['rmap', 'filter', 'flatmap', 'batch', 'rebatch', 'limit', 'repeat', 'wshuf', 'cache', 'thr', 'zip',
        'mix', 'inter', 'mt', 'map', 'mapidx', 'thr', 'mt']


class Healing(common.Client):
  """When an error surfaces its cause is removed; iterators that may have met
  it continue only from a state that was saved before (or anew)."""

  def __init__(self, flag, *a):
    super().__init__(*a, err_code=lambda e: [-9, e.k] if isinstance(e, pipes.Boom) else [-9, 0])
    self.flag = flag
    self.stale = set()
    self.ended = set()
    self.endsnap = set()   # snapshots taken at the end
    open(flag, 'w').close()

  def recover(self, i):
    ok = [s for s in self.snaps]
    if ok:
      self.set(i, ok[(len(self.ev) + i) % len(ok)])
    else:
      self.new(i)
    self.stale.discard(i)

  def new(self, i, fresh=False):
    super().new(i, fresh)
    self.stale.discard(i)
    self.ended.discard(i)

  def set(self, i, s):
    try:
      self.its[i].set_state(self.snaps[s])
    except pipes.Boom:
      self.ev.append({'e': 'seterr', 'i': i, 's': s})
      self.heal()
      return
    except Exception as e:  # pylint: disable=broad-except
      self.ev.append(common.raised('set_state', e))
      raise common.Stop() from e
    self.ev.append({'e': 'set', 'i': i, 's': s})
    self.stale.discard(i)
    self.ended.discard(i)
    if s in self.endsnap:
      self.ended.add(i)

  def get(self, i, s):
    if i in self.stale:
      self.recover(i)
    super().get(i, s)
    self.endsnap.discard(s)
    if i in self.ended:
      self.endsnap.add(s)

  def json(self, s, f):
    super().json(s, f)
    self.endsnap.discard(s)
    if f in self.endsnap:
      self.endsnap.add(s)

  def deepcopy(self, s, f):
    super().deepcopy(s, f)
    self.endsnap.discard(s)
    if f in self.endsnap:
      self.endsnap.add(s)

  def next(self, i):
    if i in self.stale:
      self.recover(i)
    if i in self.ended and os.path.exists(self.flag) and pipes.has(p, ('zip',)):
      return False   # zip reads on in the longer inputs after the end
    r = super().next(i)
    if not r:
      self.ended.add(i)
    if self.ev[-1]['e'] == 'err' and os.path.exists(self.flag):
      self.heal()
      return True
    return r

  def heal(self):
    if os.path.exists(self.flag):
      os.remove(self.flag)
      self.ev.append({'e': 'heal'})
    self.stale = set(self.its)


h = common.SHARD
for n in range(N + NPROC):
  proc = n >= N
  flag = os.path.join(common.SCRATCH, 'flag-%d-%d' % (common.SHARD, n))

  def cand():
    p, _ = g.itree(r.choice([1, 2, 2, 3]), top=['proc', 'mp'][n % 2] if proc else TOPS[(common.SHARD * N + n) % len(TOPS)])
    return None if proc and p['op'] not in ('proc', 'mp') else p

  def mk(q):
    m = r.choice([1, 2, 3, 5, 7, 11])
    return {'op': 'fail', 'p': q, 'm': m, 'r': r.randrange(m), 'k': r.randrange(1, 4), 'flag': flag}
  got = common.draw(out, 'C21', n, cand)
  if not got:
    continue
  p = pipes.insert(got[0], r, .2, mk)
  t0 = {'ast': pipes.clean(p), 'bad': pipes.clean(p, healthy=False), 'ops': '>'.join(pipes.ops_of(p)), 'pipeline': p}
  for _ in range(1 if proc else PER):
    t = out.begin({'id': 'C21/%d/%d/%d' % (common.SHARD, n, h), 'ev': [], **t0}, 90)
    Healing(flag, lambda: pipes.ibuild(p), pipes.enc, t).run(hists[h % len(hists)][:(8 if proc else 99)])
    if os.path.exists(flag):
      os.remove(flag)
    h += common.NSHARDS
    out.end(t)
