"""C06: interleaving."""
from vlib.checks import c01

TECHNIQUE = ('TLA+ slot machine of interleaving model-checked against the round-robin reference (spec/Interleave.tla); TLC-generated '
             'save/restore histories replayed on real interleaves, thread and process workers, validated by TLC against that reference')
NOTE = ('The order of all elements is computed by the specification from the inputs alone, for random inputs (empty, short, nested), '
        'cycle lengths, buffers, thread counts, worker processes and delays. Bounded by the generated pipelines and schedules the '
        'machine produces; trusts harness/pipes.py.')


def run(ctx):
  ctx.model_check('Interleave', 'InterleaveBig' if ctx.thorough else None, workers=8, timeout=800,
                  what='slot machine with background opening, saves and restores = round-robin reference')
  hs, f = c01.histories(ctx, 3000 if ctx.thorough else 600, 14, seed=6)
  ts = ctx.harness('c06', shards=8, HISTS=f, N=150 if ctx.thorough else 30, PER=4 if ctx.thorough else 3,
                   NPROC=8 if ctx.thorough else 2, NOPEN=40 if ctx.thorough else 8, timeout=800)
  ctx.samples = ts[:2]
  ctx.validate(ts)
  ctx.cov.update(histories=len(hs), restores=sum(e['e'] == 'set' for t in ts for e in t['ev']),
                 worker_process_traces=sum(t['ops'].startswith('mp') for t in ts),
                 open_bound_traces=sum(any(e['e'] == 'atmost' for e in t['ev']) for t in ts))
