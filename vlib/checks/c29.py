"""C29: specifications of elements."""
import collections
TECHNIQUE = ('TLA+ specification of element specs (spec/ElementSpec.tla), checked by TLC to describe the elements of all small pipelines '
             '(spec/ElementSpecDesign.tla); specs and elements of random real pipelines validated by TLC (spec/ElementSpecTrace.tla)')
NOTE = ('Random pipelines of up to 7 transformations that support element specs, over structured elements. The spec must be the one the '
        'transformations imply, be found without running user code, and describe the structure, shapes and types of every element. '
        'Transformations without support for element specs (which raise) are left out.')


def run(ctx):
  k = 10 if ctx.thorough else 1
  ctx.model_check('ElementSpecDesign', 'ElementSpecDesignBig' if ctx.thorough else None, workers=8, what='specs describe the elements')
  ts = ctx.harness('c29', shards=8, N=60 * k, NP=2 * k, timeout=800)
  ctx.samples = ts[:2]
  ctx.validate(ts, module='ElementSpecTrace')
  ctx.cov.update(pipelines=len(ts), elements=sum(e['e'] == 'el' for t in ts for e in t['ev']),
                 datasets=dict(collections.Counter(t['ds'] for t in ts)))
