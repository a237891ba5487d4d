"""C02: saved states are immutable values and saving has no side effects."""
import json

from vlib.checks import c01

TECHNIQUE = 'TLA+ iterator state machine; TLC-generated histories sharing snapshots (JSON copies), state immutability observed at every step'
NOTE = ('After every API call all saved states are compared deeply with their value when they were saved; every save, restore '
        'and JSON copy must leave the trace a behaviour of spec/IterTrace.tla. Bounded by generated pipelines and histories.')


def run(ctx):
  hs, f = c01.histories(ctx, 3000 if ctx.thorough else 600, 22, seed=2)
  n = 150 if ctx.thorough else 24
  ts = ctx.harness('c01', shards=8, HISTS=f, N=n, PER=6 if ctx.thorough else 4, IMMUT=1, PID='C02', timeout=700)
  ctx.samples = ts[:2]
  ctx.validate(ts)
  ctx.cov.update(histories=len(hs), pipelines=len({json.dumps(t['pipeline']) for t in ts}),
                 snapshots=sum(e['e'] == 'get' for t in ts for e in t['ev']),
                 json_copies=sum(e['e'] == 'copy' for t in ts for e in t['ev']),
                 restores=sum(e['e'] == 'set' for t in ts for e in t['ev']))
