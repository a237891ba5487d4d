"""Packing iterators (first-fit, best-fit and concat-then-split) against the
packed rows of spec/Pack.tla. KIND=bins (C13) or cts (C14)."""
import json
import os

import numpy as np

import common
import packs
import grain
from grain import experimental as gex
from grain._src.python.dataset import dataset

out = common.Out()
PID = os.environ.get('PID', 'C13')
CTS = PID == 'C14'
r = common.rng(PID)
N = int(os.environ.get('N', '40'))
MD = dataset.MapDataset


def lengths(cap, kind):
  if kind == 'scalar':
    return 1
  if kind == 'short':
    return r.randrange(0, cap // 2 + 1)
  if kind == 'full':
    return r.choice([cap, cap, r.randrange(0, cap + 1)])
  if kind == 'long':
    return r.randrange(0, 3 * cap + 2)
  return r.randrange(0, cap + 1)


def case():
  """Random configuration and elements."""
  nf = r.choice([1, 1, 2, 2, 3])
  names = r.sample(['a', 'b', 'c', 'inputs', 'x'], nf)
  if r.random() < .5:
    names.sort()
  fs, shapes, dts, kinds = [], [], [], []
  n = r.choice([0, 1, 2, 5, 9, 14])
  align = not CTS and r.random() < .25
  padd = not CTS and r.random() < .3
  bos = CTS and r.random() < .4
  group = 0
  for i in range(nf):
    cap = r.choice([1, 2, 3, 4, 6, 8])
    meta = int(i > 0 and r.random() < .25)
    dt = r.choice(['int32', 'int64', 'float32', 'int16'])
    # trailing dimensions
    sh = r.choice([(), (), (), (2,), (2, 2)])
    kind = r.choice(['any', 'any', 'short', 'full', 'scalar'] if not CTS or meta else ['any', 'short', 'full', 'long', 'long', 'scalar'])
    if kind == 'scalar':
      sh = ()
    fs.append({'cap': cap, 'align': r.choice([1, 2, 3, 4]) if align else 1, 'pad': r.choice([0, -1, 7]) if padd else 0,
               'meta': meta, 'bos': 0})
    shapes.append(sh)
    dts.append(dt)
    kinds.append(kind)
  if bos:
    ks = [i for i in range(nf) if not fs[i]['meta'] and not shapes[i]]
    for i in ks:
      if r.random() < .7:
        fs[i]['bos'] = 1
    bos = any(f['bos'] for f in fs)
  els = []
  for e in range(n):
    el = []
    for i in range(nf):
      ln = lengths(fs[i]['cap'], kinds[i])
      el.append([(e + 1) * 100 + i * 30 + j + 1 for j in range(ln)])
    els.append(el)
  bad = 0
  if not CTS and n > 1 and r.random() < .12:
    # too long: fails where it is read
    bad = r.randrange(1, n + 1)
    i = r.randrange(nf)
    if kinds[i] == 'scalar':
      bad = 0
    else:
      els[bad - 1][i] = list(range(1, fs[i]['cap'] + 2))
  nm = int(not CTS and nf < 3 and r.random() < .3)
  ms = []
  for e in range(n):
    if nm and not els[e][0]:
      els[e][0] = [(e + 1) * 100]      # elements are told apart by their values
    ms.append([(e + 1) * 10 + j for j in range(r.choice([1, 1, 2]))] if nm else [])
  if not CTS and r.random() < .3:
    ks = [i for i in range(nf) if not shapes[i]]
    if ks:
      group = r.choice(ks) + 1
  t = {'kind': 'cts' if CTS else r.choice(['first', 'best']), 'fs': fs, 'els': els, 'ms': ms, 'nm': nm, 'bad': bad,
       'nbins': r.choice([1, 1, 2, 3, 5]), 'maxseq': r.choice([0, 0, 1, 2, 3]), 'full': r.randrange(2), 'bos': -5,
       'shuffle': 0 if CTS else r.randrange(2), 'group': 0, 'names': names, 'ev': []}
  if t['shuffle'] and group:
    t['group'] = group
  return t, names, shapes, dts, kinds


def build(t, names, shapes, dts, kinds):
  fs = t['fs']
  d = MD.source(packs.Elements(t['els'], t['ms'] if t['nm'] else None, names, shapes, dts, kinds))
  c = r.randrange(4)
  it = d.to_iter_dataset(grain.ReadOptions(num_threads=r.choice([0, 1, 4]), prefetch_buffer_size=r.choice([1, 3])))
  if c == 1:
    it = gex.ThreadPrefetchIterDataset(it, prefetch_buffer_size=r.choice([1, 4]))
  elif c == 2:
    it = gex.InterleaveIterDataset([it], cycle_length=1)
  ls = {nm: f['cap'] for nm, f in zip(names, fs)}
  meta = tuple(nm for nm, f in zip(names, fs) if f['meta'])
  if CTS:
    kw = {}
    if any(f['bos'] for f in fs):
      kw = dict(bos_handling=gex.BOSHandling.REPLACE_FIRST_TOKEN_WITH_BOS,
                bos_features=tuple(nm for nm, f in zip(names, fs) if f['bos']), bos_token_id=t['bos'])
    return gex.ConcatThenSplitIterDataset(it, length_struct=ls, meta_features=meta,
                                          split_full_length_features=bool(t['full']), **kw)
  cls = gex.BestFitPackIterDataset if t['kind'] == 'best' else gex.FirstFitPackIterDataset
  kw = {}
  if any(f['align'] != 1 for f in fs):
    kw['pack_alignment_struct'] = {nm: f['align'] for nm, f in zip(names, fs)}
  if any(f['pad'] != 0 for f in fs):
    kw['padding_struct'] = {nm: f['pad'] for nm, f in zip(names, fs)}
  if t['maxseq']:
    kw['max_sequences_per_bin'] = t['maxseq']
  if t['group']:
    kw['shuffle_bins_group_by_feature'] = names[t['group'] - 1]
  return cls(it, length_struct=ls, num_packing_bins=t['nbins'], seed=t['seed'], shuffle_bins=bool(t['shuffle']),
             meta_features=meta + (('note',) if t['nm'] else ()), **kw)


def encode(row, t, names, shapes, dts, kinds):
  """[features, meta lists] of a row, or a complaint."""
  want = set()
  f_ = []
  for nm, f, sh, dt, kind in zip(names, t['fs'], shapes, dts, kinds):
    v = row[nm]
    want.add(nm)
    if not isinstance(v, np.ndarray) or v.dtype != np.dtype(dt) or v.shape != (f['cap'],) + sh:
      return 'shape or type of feature %s: %s' % (nm, getattr(v, 'shape', type(v)))
    flat = v.reshape(f['cap'], -1)
    if (flat != flat[:, :1]).any():
      return 'cells of feature %s mixed up' % nm
    vs = [int(x) for x in flat[:, 0]]
    if any(a != float(b) for a, b in zip(vs, flat[:, 0])):
      return 'values of feature %s changed' % nm
    if f['meta']:
      f_.append({'v': vs, 's': [], 'p': []})
    else:
      s, p = row[nm + '_segment_ids'], row[nm + '_positions']
      want |= {nm + '_segment_ids', nm + '_positions'}
      if s.dtype != np.int32 or p.dtype != np.int32:
        return 'type of segment ids or positions'
      f_.append({'v': vs, 's': [int(x) for x in s], 'p': [int(x) for x in p]})
  m = []
  if t['nm']:
    want.add('note')
    m = [[int(y) for y in np.asarray(x).reshape(-1)] for x in row['note']]
  if set(row) != want:
    return 'features %s' % sorted(set(row) ^ want)
  return f_, m


def run(i):
  t, *args = case()
  t['id'] = '%s/%d/%d' % (PID, common.SHARD, i)
  t['seed'] = r.choice([0, 1, r.randrange(2**31)])
  out.begin(t)
  ev = t['ev']
  held = []
  try:
    ds = build(t, *args)
    it = iter(ds)
    pos, saves, done = 0, [], 0

    def see():
      """One read; returns whether there was a row."""
      nonlocal pos
      try:
        row = next(it)
      except StopIteration:
        ev.append({'e': 'end'})
        return False
      except ValueError as e:
        if t['bad'] and 'truncated to max length' in str(e):
          ev.append({'e': 'err'})
          return None
        raise
      x = encode(row, t, *args)
      if isinstance(x, str):
        ev.append({'e': 'truth', 'v': 0, 'what': x})
        return None
      ev.append({'e': 'row', 'f': x[0], 'm': x[1]})
      held.append((row, x))
      return True
    restores = r.choice([0, 0, 1, 3])
    ev.append({'e': 'save'})
    saves.append(it.get_state())
    while True:
      ok = see()
      if ok is None:
        break
      if ok and r.random() < .4:
        ev.append({'e': 'save'})
        saves.append(it.get_state())
      if not ok or (restores and r.random() < .15):
        if not ok:
          ev.append({'e': 'save'})
          saves.append(it.get_state())
        if not restores:
          break
        restores -= 1
        k = r.randrange(len(saves))
        st = saves[k]
        c = r.randrange(3)
        if c == 0:
          st = json.loads(json.dumps(st))
        if r.random() < .6:
          it = iter(ds)
          if r.random() < .3:
            for _ in range(r.randrange(3)):
              next(it, None)
        it.set_state(st)
        ev.append({'e': 'restore', 'id': k + 1})
    # rows handed out stay as they were
    same = all(encode(row, t, *args) == x for row, x in held)
    ev.append({'e': 'truth', 'v': int(same), 'what': 'a row changed after it was handed out'})
    if t['bad'] == 0 and r.random() < .3:
      ev.append({'e': 'restore', 'id': 1})
      it = iter(ds)
      while see():
        pass
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('packing', e))
  out.end(t)


def legacy(i):
  """The operation of data loaders: called directly (more than once, with
  other elements each time) or as the last operation of a loader."""
  while True:
    t, names, shapes, dts, kinds = case()
    if t['kind'] == 'first' and 'scalar' not in kinds:
      break
  t.update(id='%s/legacy/%d/%d' % (PID, common.SHARD, i), kind='legacy', nm=0, ms=[[] for _ in t['els']], shuffle=0, group=0)
  for f in t['fs']:
    f.update(align=1, pad=0, meta=0)
  names = sorted(names)
  t['names'] = names
  out.begin(t)
  ev = t['ev']
  try:
    els = packs.Elements(t['els'], None, names, shapes, dts, kinds)
    op = gex.PackAndBatchOperation(length_struct={nm: f['cap'] for nm, f in zip(names, t['fs'])}, batch_size=t['nbins'],
                                   max_sequences_per_bin=t['maxseq'] or None)
    loader = r.random() < .3 and len(els) and not t['bad']
    held = []
    if loader:
      w = grain.DataLoader(data_source=els, sampler=grain.samplers.SequentialSampler(len(els)), operations=[op], worker_count=0)
    for _ in range(r.choice([1, 2, 2, 3])):
      ev.append({'e': 'restore', 'id': 1} if ev else {'e': 'save'})
      if r.random() < .3 and not loader:
        # other elements before, possibly abandoned in the middle
        for x in op(grain.Record(grain.RecordMetadata(index=k), els[k]) for k in range(len(els)) if k + 1 != t['bad']):
          if r.random() < .3:
            break
      its = iter(w) if loader else op(grain.Record(grain.RecordMetadata(index=k, record_key=k), els[k]) for k in range(len(els)))
      while True:
        try:
          b = next(its)
        except StopIteration:
          ev.append({'e': 'end'})
          break
        except ValueError as e:
          if t['bad'] and 'truncated to max length' in str(e):
            ev.append({'e': 'err'})
            break
          raise
        data, seg, po = b if loader else b.data
        rows = []
        for k in range(t['nbins']):
          row = {}
          for nm in names:
            row.update({nm: data[nm][k], nm + '_segment_ids': seg[nm][k], nm + '_positions': po[nm][k]})
          x = encode(row, t, names, shapes, dts, kinds)
          if isinstance(x, str):
            ev.append({'e': 'truth', 'v': 0, 'what': x})
            break
          rows.append(x[0])
          held.append((row, x))
        else:
          ok = loader or b.metadata.record_key is None
          ev.append({'e': 'batch', 'rows': rows, 'last': -1 if loader else (b.metadata.index if ok else -2),
                     'n': int(all(len(y[nm]) == t['nbins'] for nm in names for y in (data, seg, po)))})
          continue
        break
      if ev[-1]['e'] == 'truth':
        break
    same = all(encode(row, t, names, shapes, dts, kinds) == x for row, x in held)
    ev.append({'e': 'truth', 'v': int(same), 'what': 'a batch changed after it was handed out'})
  except Exception as e:  # pylint: disable=broad-except
    ev.append(common.raised('packing', e))
  out.end(t)


for i in range(N):
  run(i)
  if not CTS and i % 4 == 0:
    legacy(i)
