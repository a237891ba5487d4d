#!/usr/bin/env python3
"""python3 check.py Cxx: decides one property on the current tree of /repo."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vlib import core  # noqa: E402


def main():
  prop = sys.argv[1]
  os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
  mod = importlib.import_module('vlib.checks.' + prop.lower())
  ctx = core.Ctx(prop)
  try:
    ctx.prepare(force_ext=getattr(mod, 'FORCE_EXT', False))
    mod.run(ctx)
    rc = ctx.finish(level=getattr(mod, 'LEVEL', 'model_checking'), assumptions=getattr(mod, 'ASSUMPTIONS', ()))
  except core.MachineryError as e:
    print('MACHINERY ERROR: %s' % e, file=sys.stderr)
    if ctx.violations:
      rc = ctx.finish(level=getattr(mod, 'LEVEL', 'model_checking'))
    else:
      rc = 3
  except Exception:  # e.g. of summaries of what a broken tree left out
    traceback.print_exc()
    rc = ctx.finish(level=getattr(mod, 'LEVEL', 'model_checking')) if ctx.violations else 3
  finally:
    if not os.environ.get('VERIF_KEEP'):
      ctx.cleanup()
    else:
      print('kept', ctx.dir)
  sys.exit(rc)


if __name__ == '__main__':
  main()
