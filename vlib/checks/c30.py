"""C30: the helper that tests checkpointing."""
TECHNIQUE = ('TLA+ specification of what passes (spec/CkptHelper.tla), checked by TLC to promise all clients exact resumption '
             '(spec/CkptHelperDesign.tla); verdicts of the real helper validated by TLC (spec/CkptHelperTrace.tla)')
NOTE = ('Datasets given by tables, most with one fault (elements lost, repeated or changed after a restore, states that change structure or '
        'are not what was restored, states that are changed in place, no elements), and random real pipelines.')


def run(ctx):
  k = 10 if ctx.thorough else 1
  ctx.model_check('CkptHelperDesign', 'CkptHelperDesignBig' if ctx.thorough else None, workers=8,
                  what='a dataset that passes can be saved and restored in any order')
  ts = ctx.harness('c30', shards=8, N=150 * k, NP=15 * k, timeout=800)
  ctx.samples = ts[:2]
  ctx.validate(ts, module='CkptHelperTrace')
  res = [e['res'] for t in ts for e in t['ev'] if e['e'] == 'helper']
  ctx.cov.update(datasets=len(ts), accepted=res.count('pass'), refused=res.count('fail'))
