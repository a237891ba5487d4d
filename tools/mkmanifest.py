"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
  pid = json.loads(line)['id']
  try:
    m = importlib.import_module('vlib.checks.' + pid.lower())
  except ModuleNotFoundError:
    na.append({'property': pid, 'reason': 'check under construction'})
    continue
  checks.append({'property': pid, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + pid,
                 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + pid,
                 'technique': m.TECHNIQUE, 'level': getattr(m, 'LEVEL', 'model_checking'), 'level_note': m.NOTE})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'TLA+ specifications in spec/, checked with TLC and bound to the code by generated histories and '
                    'trace validation; see DESIGN.md.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
