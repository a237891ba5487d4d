"""Random access sources, ranges and readers of files."""
import concurrent.futures as cf
import copy
import json
import os
import pickle
import struct

import common
import grain
from grain._src.core import sharding  # pylint: disable=unused-import
from grain import experimental as gex

out = common.Out()
r = common.rng('C28')
DIR = os.path.join(common.SCRATCH, 'src%d' % common.SHARD)
os.makedirs(DIR, exist_ok=True)
N = int(os.environ.get('N', '30'))
B = 2 ** 53
names = iter(range(10 ** 9))


def path():
  return os.path.join(DIR, 'f%d' % next(names))


def err(e):
  return ('%s: %s' % (type(e).__name__, e))[:200]


# --- records -----------------------------------------------------------------
def record():
  x = r.random()
  if x < .15:
    return b''
  n = r.randrange(1, 6) if x < .9 else r.randrange(1, 20000)
  return r.randbytes(n) if x < .95 else b'\0' * n


def enc(b):
  if isinstance(b, bytes) and len(b) <= 20:
    return b.hex() or '-'
  import hashlib
  return type(b).__name__ + hashlib.sha1(b if isinstance(b, bytes) else repr(b).encode()).hexdigest()[:12]


def crc_table():
  t = []
  for i in range(256):
    c = i
    for _ in range(8):
      c = (c >> 1) ^ (0x82F63B78 if c & 1 else 0)
    t.append(c)
  return t


CRC = crc_table()


def crc(b):
  c = 0xFFFFFFFF
  for x in b:
    c = CRC[(c ^ x) & 0xFF] ^ (c >> 8)
  c ^= 0xFFFFFFFF
  return (((c >> 15) | (c << 17)) + 0xA282EAD8) & 0xFFFFFFFF


def tfrecord(f, xs, cut):
  b = b''
  starts = [0]
  for x in xs:
    n = struct.pack('<Q', len(x))
    b += n + struct.pack('<I', crc(n)) + x + struct.pack('<I', crc(x))
    starts.append(len(b))
  if cut:   # within the last record
    b = b[:r.randrange(starts[-2] + 1, starts[-1])]
  with open(f, 'wb') as o:
    o.write(b)


def row(i):
  return {'id': i, 'name': 'row %d' % i if i % 7 else '', 'x': i / 4, 'raw': struct.pack('<i', i), 'odd': i % 2 == 1}


def enc_row(x):
  return '%d|%s|%s|%s|%s' % (x['id'], x['name'], float(x['x']), bytes(x['raw']).hex(), bool(x['odd'])) if len(x) == 5 else repr(x)


def parquet(f, groups):
  import pyarrow as pa
  import pyarrow.parquet as pq
  sch = pa.schema([('id', pa.int64()), ('name', pa.string()), ('x', pa.float64()), ('raw', pa.binary()), ('odd', pa.bool_())])
  with pq.ParquetWriter(f, sch) as w:
    for g in groups:
      rows = [row(i) for i in g]
      w.write_table(pa.table({k.name: [x[k.name] for x in rows] for k in sch}, schema=sch), row_group_size=max(len(g), 1))


# --- readers of files --------------------------------------------------------
def open_files(sizes):
  fmt = r.choice(['tfrecord', 'parquet', 'parquet'])
  files, paths = [], []
  i = 0
  cut = fmt == 'tfrecord' and len(sizes) == 1 and sum(sizes[0]) > 0 and r.random() < .3
  for f in sizes:
    p = path()
    if fmt == 'tfrecord':
      xs = [record() for _ in range(sum(f))]
      tfrecord(p, xs, cut)
      files.append([[enc(x) for x in (xs[:-1] if cut else xs)]])
    else:
      gs = []
      for n in f:
        gs.append(list(range(i, i + n)))
        i += n
      parquet(p, gs)
      files.append([[enc_row(row(k)) for k in g] for g in gs])
    paths.append(p)
  if len(paths) > 1 and r.random() < .25:   # a file is listed again
    k = r.randrange(len(paths))
    at = r.randrange(len(paths) + 1)
    files.insert(at, files[k])
    paths.insert(at, paths[k])
  if fmt == 'tfrecord':
    if len(paths) == 1:
      ds = gex.TFRecordIterDataset(paths[0])
    else:
      ds = gex.InterleaveIterDataset([gex.TFRecordIterDataset(p) for p in paths], cycle_length=16)
    return ds, enc, files, cut, paths
  how = r.random()
  if len(paths) == 1 and how < .5:
    ds = gex.ParquetIterDataset(paths[0])
  elif how < .7:
    ds = gex.ParquetIterDataset(paths, memory_map=True)
  else:
    ds = gex.ParquetIterDataset(tuple(paths))
  return ds, enc_row, files, cut, paths


def through(s, via):
  if via == 'json':
    return json.loads(json.dumps(s))
  return pickle.loads(pickle.dumps(s)) if via == 'pickle' else s


def read(it, dec, ev):
  try:
    x = next(it)
  except StopIteration:
    ev.append({'e': 'next', 'r': 'end'})
  except Exception as e:  # pylint: disable=broad-except
    ev.append({'e': 'next', 'r': 'err', 'what': err(e)})
  else:
    ev.append({'e': 'next', 'r': 'ok', 'x': dec(x)})
  return ev[-1]['r'] == 'ok'


def files(h):
  sizes = h['files']
  if r.random() < .04:   # more empty groups than the stack has frames
    sizes = [[2] + [0] * 1200 + [1, 0, 2]]
  ds, dec, fs, cut, paths = open_files(sizes)
  t = out.begin({'k': 'file', 'files': fs, 'cut': int(cut), 'ev': []})
  ev, it, saved = t['ev'], None, []
  for o in h['ops']:
    op, it0 = o['op'], it
    e = {'e': op}
    if op in ('next', 'drain', 'all'):
      for _ in range({'next': 1, 'drain': o.get('n'), 'all': 10 ** 6}[op]):
        if not read(it, dec, ev):
          break
      if op == 'all':
        read(it, dec, ev)
      if ev[-1]['r'] == 'err':
        break
      continue
    try:
      if op == 'open':
        it = iter(ds)
      elif op == 'save':
        s = it.get_state()
        saved.append((s, copy.deepcopy(s)))
        if r.random() < .5:
          saved[-1] = (saved[-1][1],) * 2
      else:
        s = saved[o['s'] - 1]
        if o['fresh']:
          it = iter(pickle.loads(pickle.dumps(ds)))
        it.set_state(through(s[0], o['via']))
        e['s'] = o['s']
      e['r'] = 'ok'
    except Exception as x:  # pylint: disable=broad-except
      e.update(r='err', what=err(x))
    ev.append(e)
    if e['r'] == 'err':
      break
  out.end(t)
  del it, it0
  for p in set(paths):
    os.remove(p)


# --- random access -----------------------------------------------------------
def value():
  v = some_value()
  if isinstance(v, str) and len(v.encode()) > 8 * (len(v) // 8 + 1):   # see known()
    return v[:2]
  return v


def some_value():
  x = r.randrange(6)
  return [None, r.random() < .5, r.randrange(-2 ** 62, 2 ** 62), r.random(), 'é%d' % r.randrange(99) * r.randrange(4),
          r.randbytes(r.randrange(9)) + b'x'][x]


def get(src, i, dec, e):
  try:
    e.update(r='ok', x=dec(src[i]))
  except Exception:  # pylint: disable=broad-except
    e['r'] = 'err'
  return e


def access():
  kind = r.choice(['ar', 'ar', 'ars', 'shm', 'shm', 'list'])
  n = r.choice([0, 1, 2, 5, 11, 23])
  done = []
  dec = enc
  if kind in ('ar', 'ars'):
    from array_record.python import array_record_module
    xs, ps = [], []
    for _ in range(1 if kind == 'ar' else r.randrange(2, 5)):
      p = path()
      w = array_record_module.ArrayRecordWriter(p, 'group_size:%d' % r.choice([1, 1, 2, 3, 8]))
      part = [record() for _ in range(max(n, 1) if kind == 'ar' else r.randrange(1, 9))]
      for x in part:
        w.write(x)
      w.close()
      done.append(p)
      if r.random() < .3:
        a = r.randrange(len(part))
        b = r.randrange(a, len(part)) + 1
        ps.append('%s[%d:%d]' % (p, a, b))
        part = part[a:b]
      else:
        ps.append(p)
      xs += part
    if r.random() < .2 and kind == 'ars':   # the same file again
      ps.append(ps[0])
      xs += xs[:0]
      n0 = len(grain.sources.ArrayRecordDataSource(ps[0]))
      xs += xs[:n0]
    src = grain.sources.ArrayRecordDataSource(ps[0] if len(ps) == 1 and r.random() < .5 else ps)
  elif kind == 'shm':
    xs = [value() for _ in range(n)]
    src = grain.sources.SharedMemoryDataSource(xs, name='vs28_%d_%d' % (os.getpid(), next(names)) if r.random() < .5 else None)
  else:
    xs = [value() for _ in range(n)]
    src = xs
  t = out.begin({'k': 'list', 'xs': [dec(x) for x in xs], 'ev': []})
  ev, n, now = t['ev'], len(xs), src
  owner = src
  for _ in range(r.randrange(4, 12)):
    x = r.random()
    if x < .15:
      ev.append({'e': 'len', 'n': len(now)})
    elif x < .35 and n:   # several threads read the same source
      ii = [[r.randrange(n) for _ in range(r.randrange(1, 12))] for _ in range(4)]
      with cf.ThreadPoolExecutor(4) as ex:
        for i, f in [(i, ex.submit(lambda i=i: [dec(now[k]) for k in i])) for i in ii]:
          ev.append({'e': 'gets', 'i': i, 'x': f.result()})
    elif x < .5 and n and kind != 'list':
      i = r.sample(range(n), r.randrange(1, n + 1))
      if kind == 'shm':
        ds = grain.MapDataset.source(now)
        ev.append({'e': 'gets', 'i': i, 'x': [dec(v) for v in (ds._getitems(i) if hasattr(ds, '_getitems') else [ds[k] for k in i])]})
      else:
        ev.append({'e': 'gets', 'i': i, 'x': [dec(v) for v in (now.__getitems__(i) if hasattr(now, '__getitems__') else [now[k] for k in i])]})
    elif x < .6:
      now = pickle.loads(pickle.dumps(now))
    elif x < .65 and kind == 'shm':
      now = grain.sources.SharedMemoryDataSource(name=owner.shm.name)
    elif x < .9 and n:
      i = r.randrange(n)
      ev.append(get(now, i, dec, {'e': 'get', 'i': i}))
    else:
      i = r.choice([n, n + 1, n + 100, -1, -n, -n - 1])
      ev.append(get(now, i, dec, {'e': 'get', 'i': i}))
  out.end(t)
  if kind == 'shm':
    del now
    owner.unlink()
  for p in done:
    os.remove(p)


# --- ranges ------------------------------------------------------------------
def pair(x):
  h = (x + B // 2) // B
  return [max(-10 ** 9, min(10 ** 9, h)), max(-10 ** 9, min(10 ** 9, x - h * B))]


def ranges():
  mode = r.choice(['small', 'small', 'one', 'big'])
  few = lambda: r.randrange(-40, 41)
  if mode == 'small':
    a, b, s = few(), few(), r.choice([-7, -3, -2, -1, 1, 1, 2, 3, 5, 9])
  elif mode == 'one':
    s = r.choice([1, -1])
    a = r.randrange(-200, 200) * B + few()
    b = a + s * (r.randrange(0, 200) * B + few())
  else:
    s = r.choice([1, -1]) * B
    a = r.randrange(-20, 20) * B + few()
    b = a + s * r.randrange(0, 12) + few()
  t = out.begin({'k': 'range', 'start': pair(a), 'stop': pair(b), 'step': pair(s), 'ev': []})
  ev = t['ev']
  how = r.randrange(3)
  try:
    src = gex_range(a, b, s, how)
    ev.append({'e': 'make', 'r': 'ok'})
  except Exception as e:  # pylint: disable=broad-except
    src = None
    ev.append({'e': 'make', 'r': 'err', 'what': err(e)})
  if src is not None:
    ev.append({'e': 'len', 'n': pair(len(src))})
    n = len(range(a, b, s))
    for _ in range(8):
      if mode == 'one' and n:
        i = min(r.randrange(0, n // B + 1) * B + r.randrange(0, 30), n - 1)
      else:
        i = r.randrange(n) if n else 0
      if not n or (how == 0 and r.random() < .3):
        if how:   # indices of datasets are taken modulo their length
          continue
        i = r.choice([n, n + 1, n + 30, -1, -2])
      ev.append(get(src, i, pair, {'e': 'get', 'i': pair(i)}))
  out.end(t)


def gex_range(a, b, s, how):
  if how == 2:
    return grain.MapDataset.range(b) if a == 0 and s == 1 else grain.MapDataset.range(a, b, s)
  src = grain.sources.RangeDataSource(a, b, s)
  return grain.MapDataset.source(src) if how else src


def known():
  """Values that ShareableList does not hold."""
  for name, x in (('text', 'é' * 7), ('nul', b'a\0')):
    src = grain.sources.SharedMemoryDataSource([x])
    t = out.begin({'k': 'list', 'xs': [enc(x)], 'ev': [], 'fingerprint': 'shm-source-' + name})
    t['ev'].append(get(src, 0, enc, {'e': 'get', 'i': 0}))
    out.end(t)
    src.unlink()


hists = [h for k, h in enumerate(map(json.loads, open(os.environ['HISTS']))) if k % common.NSHARDS == common.SHARD]
if common.SHARD == 0:
  known()
for h in hists:
  files(h)
for _ in range(N):
  access()
  ranges()
  ranges()
