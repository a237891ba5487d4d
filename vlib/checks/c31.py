"""C31: options and the limits of filters."""
TECHNIQUE = ('TLA+ specification of merged options and of filters that count in windows (spec/Options.tla); propagation through all small '
             'pipelines checked by TLC (spec/OptionsDesign.tla); iterators of the real code validated by TLC (spec/OptionsTrace.tla)')
NOTE = ('Pipelines of 1 to 6 transformations over up to 4100 elements: sparse random-access datasets, filters, options in any place, threads, '
        'one process, zip and sequential interleave; limits next to the counts of the windows; several iterators and restores. Parts of a pipeline '
        'that are joined do not set the same option differently (which wins is not documented), and shares equal to a limit are left out.')


def run(ctx):
  k = 10 if ctx.thorough else 1
  ctx.model_check('OptionsDesign', 'OptionsDesignBig' if ctx.thorough else None, workers=8,
                  what='every iterator works with the merged options of its pipeline')
  ts = ctx.harness('c31', shards=8, N=40 * k, timeout=800)
  ctx.samples = [dict(t, ev=[dict(e, vals=e['vals'][:5]) if 'vals' in e else e for e in t['ev']]) for t in ts[:2]]
  ctx.validate(ts, module='OptionsTrace')
  ends = [e['end'] for t in ts for e in t['ev'] if e['e'] == 'read']
  ctx.cov.update(pipelines=len(ts), limits_exceeded=ends.count('over'), ends=ends.count('end'))
