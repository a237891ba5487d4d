"""C28: sources deliver every record exactly once."""
import collections
import json
import os
TECHNIQUE = ('TLA+ model of a reader of row groups (spec/FileReader.tla) checked by TLC; histories generated by TLC (spec/FileGen.tla) run '
             'on real files; results of readers, random access sources and ranges validated by TLC (spec/SourceTrace.tla)')
NOTE = ('TFRecord, Parquet and ArrayRecord files of arbitrary records (also empty ones), row groups and numbers of files, in-memory sources '
        'of every supported type and ranges up to 2**61. Truncated TFRecord files must be noticed; checksums and the file formats '
        'themselves (pyarrow, array_record) are trusted. '
        'Values that multiprocessing.ShareableList cannot hold (long non-ASCII strings, trailing NULs) are known findings.')


def run(ctx):
  k = 12 if ctx.thorough else 1
  ctx.model_check('FileReader', 'FileReaderBig' if ctx.thorough else None, 'reader of row groups with saves and restores')
  r = ctx.tlc('FileGen', args=['-simulate', 'num=%d' % (200 * k), '-depth', '35', '-seed', str(ctx.seed * 1000 + 28)], workers=1, DEPTH=24)
  hs = r.json_lines('HIST')
  f = os.path.join(ctx.dir, 'hists')
  with open(f, 'w') as o:
    o.writelines(json.dumps(h) + '\n' for h in hs)
  ts = ctx.harness('c28', shards=8, HISTS=f, N=30 * k, timeout=800)
  ctx.samples = ts[:2]
  ctx.validate(ts, module='SourceTrace')
  ctx.cov.update(generated_histories=len(hs), traces_of=dict(collections.Counter(t['k'] for t in ts)),
                 events=dict(collections.Counter(t['k'] + ' ' + e['e'] + ' ' + e.get('r', '') for t in ts for e in t['ev'])))
