"""C16: resuming data loaders."""
from vlib.checks import c01

TECHNIQUE = ('TLA+ iterator state machine over the specification of data loaders (spec/Loader.tla); the conversion of loader states is model-checked '
             '(spec/LoaderDesign.tla); TLC-generated save/restore histories replayed into real loaders, traces validated by TLC')
NOTE = ('Every recorded trace of saves and restores of data loader iterators, with 0 to 4 worker processes, in one and in identically built '
        'loaders, must be a behaviour of spec/IterTrace.tla; states of differently configured loaders must be refused without effect. '
        'Bounded by the generated histories and 20 records.')


def run(ctx):
  ctx.model_check('LoaderDesign', 'LoaderDesignBig' if ctx.thorough else None,
                  what='the state conversion of data loaders is invertible in every reachable state', workers=8, timeout=800)
  hs, f = c01.histories(ctx, 3000 if ctx.thorough else 500, 16)
  ts = ctx.harness('c15', shards=8, PID='C16', HISTS=f, N=200 if ctx.thorough else 26, timeout=800)
  ctx.samples = ts[:2]
  ctx.validate(ts, timeout=800)
  ctx.cov.update(loaders=len(ts), histories=len(hs), restores=sum(e['e'] == 'set' for t in ts for e in t['ev']),
                 refused=sum(e['e'] == 'truth' for t in ts for e in t['ev']))
