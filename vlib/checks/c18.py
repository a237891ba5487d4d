"""C18: randomness is a function of seed and position."""
TECHNIQUE = ('TLA+ specification of a lazily sampled random function (spec/Obs.tla, event draw): recorded draws of all random '
             'transformations over access orders, threads, processes, restores and separate runs validated by TLC')
NOTE = ('Draws are identified by transformation, seed and position; the same identity must give the same draw in every access path and in '
        'eight separate processes with different hash seeds, different identities must give different draws (60-bit draws). Epochs of '
        'iterators made by IterDataset.repeat reuse the generators of the first epoch by design and are not required to differ.')


def run(ctx):
  ts = ctx.harness('c18', shards=8, N=60 if ctx.thorough else 12, timeout=800, HASHSEED=1)
  # the same pipelines built in separate processes share their draws
  cross = {}
  for t in ts:
    if 'cross' in t:
      c = cross.setdefault(t['cross'], {'id': 'C18/' + t['cross'], 'ev': []})
      c['ev'] += t['ev']
  alone = [t for t in ts if 'cross' not in t] + list(cross.values())
  ctx.samples = alone[:2]
  ctx.validate(alone, module='Obs', timeout=800)
  ctx.cov.update(draws=sum(e['e'] == 'draw' for t in alone for e in t['ev']), cross_process_pipelines=len(cross))
