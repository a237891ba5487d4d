"""Runner library: scratch copy of the code under test, harness processes, TLC."""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
EXT = 'grain/_src/python/experimental/index_shuffle'


class MachineryError(Exception):
  pass


class Ctx:
  """One run of one check."""

  def __init__(self, prop):
    self.prop = prop
    self.tier = os.environ.get('VERIF_TIER', 'quick')
    self.seed = int(os.environ.get('VERIF_SEED', '1'))
    self.thorough = self.tier == 'thorough'
    self.t0 = time.time()
    for f in glob.glob(os.path.join(VERIF, 'evidence', 'replay', prop + '-*.json')):
      os.remove(f)
    self.dir = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    self.code = os.path.join(self.dir, 'code')
    self.violations = []      # (what, details)
    self.late = []            # harnesses that did not finish in time
    self.known = []
    self.cov = {}             # coverage numbers
    self.states = 0
    self.transitions = 0
    self.traces = 0
    self.samples = []
    self.notes = []

  # ---------------------------------------------------------------- code
  def prepare(self, force_ext=False):
    """Copies the code under test and brings its build products up to date."""
    def ignore(d, names):
      return [n for n in names if n == '__pycache__' or n.endswith('_test.py') or n == 'testdata']
    shutil.copytree(os.path.join(REPO, 'grain'), os.path.join(self.code, 'grain'), ignore=ignore)
    so = os.path.join(self.code, EXT, 'python/index_shuffle_module.so')
    srcs = sorted(p for e in ('*.cc', '*.h') for p in
                  glob.glob(os.path.join(self.code, 'grain/**', e), recursive=True))
    if force_ext or not os.path.exists(so) or not self._stamp_ok(srcs):
      if os.path.exists(so):
        os.remove(so)
      inc = subprocess.run([PY, '-m', 'pybind11', '--includes'], capture_output=True, text=True).stdout.split()
      cc = sorted(p for p in glob.glob(os.path.join(self.code, EXT, '**/*.cc'), recursive=True)
                  if not p.endswith('_test.cc'))
      r = subprocess.run(
          ['g++', '-std=c++17', '-O2', '-g0', '-fPIC', '-shared', '-fvisibility=hidden',
           '-Wno-deprecated-declarations', '-Wno-parentheses', '-Wno-sign-compare', '-I.'] + inc + cc +
          ['-o', so, '-labsl_strings', '-labsl_strings_internal', '-labsl_raw_logging_internal'],
          cwd=self.code, capture_output=True, text=True)
      if r.returncode:
        raise MachineryError('building the extension failed: ' + r.stderr[-2000:])
      self.notes.append('extension rebuilt')
    protos = sorted(os.path.relpath(p, self.code) for p in
                    glob.glob(os.path.join(self.code, 'grain/**/*.proto'), recursive=True))
    if not all(os.path.exists(os.path.join(self.code, p[:-6] + '_pb2.py')) for p in protos):
      r = subprocess.run([PY, '-m', 'grpc_tools.protoc', '-I.', '--python_out=.'] + protos,
                         cwd=self.code, capture_output=True, text=True)
      if r.returncode:
        raise MachineryError('protoc failed: ' + r.stderr[-2000:])

  def _stamp_ok(self, srcs):
    """Whether the extension in /repo was built from these sources (see build.sh)."""
    try:
      rel = sorted(os.path.relpath(p, self.code) for p in srcs)
      out = ''
      for p in rel:
        out += hashlib.sha256(open(os.path.join(self.code, p), 'rb').read()).hexdigest() + '  ' + p + '\n'
      out += hashlib.sha256(open('/opt/vp/build.sh', 'rb').read()).hexdigest() + '  /opt/vp/build.sh\n'
      return open('/opt/vp/state/ext').read().strip() == hashlib.sha256(out.encode()).hexdigest()
    except OSError:
      return False

  # ------------------------------------------------------------- harness
  def env(self, **kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    e.update(PYTHONPATH=self.code + ':' + os.path.join(VERIF, 'harness'),
             JAX_PLATFORMS='cpu', TF_CPP_MIN_LOG_LEVEL='3', PYTHONHASHSEED='0',
             PYTHONPYCACHEPREFIX=os.path.join(self.dir, 'pyc'), TMPDIR=self.dir,
             VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, SCRATCH=self.dir,
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    e.update({k: str(v) for k, v in kw.items()})
    return e

  def harness(self, module, shards=1, timeout=300, parallel=8, died=None, **kw):
    """Runs harness/<module>.py in `shards` processes; returns all JSON lines.

    A process that does not finish in time has its partial output used, plus
    a record {"hang": ...}; the harness itself watches over single traces, so
    this is the last resort.
    """
    if not self.thorough:
      timeout = min(timeout, 480)
    todo = list(range(shards))
    running = []
    res = []
    logs = []
    while todo or running:
      while todo and len(running) < parallel:
        k = todo.pop(0)
        out = os.path.join(self.dir, '%s.%d.jsonl' % (module, k))
        log = open(os.path.join(self.dir, '%s.%d.log' % (module, k)), 'w+')
        # -c: spawned worker processes must not run the harness again
        p = subprocess.Popen([PY, '-c', 'import %s' % module],
                             env=self.env(PYTHONHASHSEED=k if 'HASHSEED' in kw else 0, SHARD=k, NSHARDS=shards, OUT=out, **kw),
                             stdin=subprocess.DEVNULL, stdout=log, stderr=log, cwd=self.dir, start_new_session=True)
        running.append((k, p, out, log, time.time()))
      time.sleep(0.05)
      for j in list(running):
        k, p, out, log, t = j
        rc = p.poll()
        hang = False
        if rc is None and time.time() - t > timeout:
          hang = True
        if rc is None and not hang:
          continue
        running.remove(j)
        try:
          os.killpg(p.pid, 9)
        except OSError:
          pass
        p.wait()
        recs = []
        if os.path.exists(out):
          for line in open(out):
            try:
              recs.append(json.loads(line))
            except ValueError:
              pass
        if hang:
          # What was recorded is judged; without a violation this is an error.
          log.seek(0)
          self.late.append('harness %s shard %d did not finish in %ds: %s' % (module, k, timeout, log.read()[-3000:]))
        elif died and rc in (-11, -7, -6):   # a crash of the code under test
          recs.append(died(k, rc))
        elif rc not in (0, 17):   # 17: the harness ended itself after recording a hang
          log.seek(0)
          raise MachineryError('harness %s shard %d failed (%s): %s' % (module, k, rc, log.read()[-4000:]))
        res.append((k, recs))
        log.close()
    res.sort(key=lambda x: x[0])
    recs = []
    for k, rs in res:
      for x in rs:
        if 'died' in x:    # the code under test fails where nothing may fail
          self.violation('operation failed: ' + x['died'], {'harness': module, 'shard': k, 'what': x['died']})
        else:
          recs.append(x)
    return recs

  # ----------------------------------------------------------------- TLC
  def tlc(self, module, cfg=None, args=(), workers=4, timeout=600, heap='4g', spec_dir=None, cfg_text=None, **env):
    """Runs TLC; returns its output. Raises on anything but a completed run."""
    md = tempfile.mkdtemp(prefix='tlc-', dir=self.dir)
    d = spec_dir or SPEC
    if cfg_text is not None:
      cfg = os.path.join(md, module + '_run.cfg')
      open(cfg, 'w').write(cfg_text)
    else:
      cfg = os.path.join(d, (cfg or module) + '.cfg')
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JAR, 'tlc2.TLC', '-config', cfg,
           '-workers', str(workers), '-metadir', md, '-noGenerateSpecTE'] + list(args) + [os.path.join(d, module + '.tla')]
    e = dict(os.environ)
    e.update({k: str(v) for k, v in env.items()})
    e.pop('JAVA_TOOL_OPTIONS', None)
    try:
      r = subprocess.run(cmd, env=e, cwd=md, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
      raise MachineryError('TLC on %s did not finish in %ds' % (module, timeout))
    out = r.stdout
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    if m:
      self.states += int(m.group(2))
      self.transitions += int(m.group(1))
    res = TlcResult(r.returncode, out, r.stderr)
    shutil.rmtree(md, ignore_errors=True)
    return res

  def model_check(self, module, cfg=None, what=None, **kw):
    """Exhaustive check of a design specification: an error is a machinery
    error (the committed design must satisfy its properties)."""
    t = time.time()
    r = self.tlc(module, cfg, **kw)
    if r.rc != 0:
      raise MachineryError('TLC found an error in %s: %s' % (module, r.out[-3000:]))
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', r.out)
    d = {'module': cfg or module, 'distinct_states': int(m.group(2)) if m else 0,
         'transitions': int(m.group(1)) if m else 0, 'wall_s': round(time.time() - t, 1)}
    if what:
      d['what'] = what
    self.cov.setdefault('design_models', []).append(d)
    return r

  def validate(self, traces, module='IterTrace', cfg=None, chunk=400, workers=4, timeout=600, **env):
    """Validates recorded traces against a trace specification.

    Every trace gets a verdict; rejected traces become violations.
    """
    bad = []
    acc = 0
    parts = [traces[c:c + chunk] for c in range(0, len(traces), chunk)]
    crashed = []
    n = 0
    while parts:
      part = parts.pop(0)
      n += 1
      f = os.path.join(self.dir, 'traces-%s-%d.ndjson' % (module, n))
      with open(f, 'w') as fh:
        for t in part:
          fh.write(json.dumps(t['trace'] if 'trace' in t else t) + '\n')
      r = self.tlc(module, cfg, workers=workers, timeout=timeout, TRACES=f, **env)
      verdicts = {}
      for m in re.finditer(r'<<"ACCEPT", (\d+)>>', r.out):
        verdicts[int(m.group(1))] = None
      for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(-?\d+),\s*"((?:[^"\\]|\\.)*)"((?:[^>]|>(?!>))*)>>', r.out):
        verdicts[int(m.group(1))] = (int(m.group(2)), m.group(3), m.group(4).strip(' ,\n'))
      if 'Parsing or semantic analysis failed' in r.out:
        raise MachineryError('%s does not parse: %s' % (module, r.out[-2000:]))
      if r.rc != 0 or len(verdicts) != len(part):
        # Evaluation failed on some trace: find it by bisection, so that the
        # others still get a verdict.
        if len(part) > 1:
          h = len(part) // 2
          parts[:0] = [part[:h], part[h:]]
        else:
          crashed.append((part[0], r.out[-3000:]))
        if len(crashed) > 3:
          break
        continue
      for k, t in enumerate(part):
        v = verdicts[k + 1]
        if v is None:
          acc += 1
        else:
          bad.append((t, v))
    self.traces += acc + len(bad)
    for t, v in bad:
      self.violation(v[1] + (' (at %s)' % v[2] if v[2] else ''), {'event': v[0], 'clause': v[1], 'where': v[2], 'trace': t})
    if crashed:
      raise MachineryError('TLC could not evaluate a trace: %s\n%s' % (json.dumps(crashed[0][0])[:3000], crashed[0][1]))
    return acc, bad

  # ------------------------------------------------------------- results
  def violation(self, what, details):
    self.violations.append((what, details))

  def finish(self, level='model_checking', assumptions=(), extra=None):
    if self.late and not self.violations:
      raise MachineryError(self.late[0])
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    known = load_known()
    out = []
    new = []
    for what, det in self.violations:
      k = None
      fp = det.get('fingerprint') if isinstance(det, dict) else None
      if fp is None and isinstance(det, dict) and isinstance(det.get('trace'), dict):
        fp = det['trace'].get('fingerprint')
      for e in known:
        if e['property'] == self.prop and fp is not None and e['fingerprint'] == fp:
          k = e
      if k:
        self.known.append(k)
      else:
        new.append((what, det))
    seen = set()
    for k in self.known:
      if k['fingerprint'] not in seen:
        seen.add(k['fingerprint'])
        print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
    for n, (what, det) in enumerate(new[:5]):
      path = os.path.join(rdir, '%s-%d.json' % (self.prop, n))
      with open(path, 'w') as f:
        json.dump({'property': self.prop, 'what': what, 'details': det, 'seed': self.seed, 'tier': self.tier}, f, indent=1, default=str)
      print('%s: %s' % (self.prop, what))
      print('VIOLATION property=%s replay=%s' % (self.prop, path))
    cov = dict(self.cov)
    cov.setdefault('states', self.states)
    cov.setdefault('transitions', self.transitions)
    cov.setdefault('traces_validated_against_impl', self.traces)
    cov.setdefault('samples', [short(t) for t in self.samples[:3]])
    if extra:
      cov.update(extra)
    if self.notes:
      cov['notes'] = self.notes
    ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
          'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
    with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
      json.dump(ev, f, indent=1, default=str)
    return 1 if new else 0

  def cleanup(self):
    shutil.rmtree(self.dir, ignore_errors=True)


def short(t):
  if isinstance(t, dict) and isinstance(t.get('ev'), list) and len(t['ev']) > 25:
    return {**t, 'ev': t['ev'][:25] + ['... %d more' % (len(t['ev']) - 25)]}
  return t


class TlcResult:
  def __init__(self, rc, out, err):
    self.rc, self.out, self.err = rc, out, err

  def json_lines(self, tag):
    """Values printed with PrintT("<tag> " \\o ToJson(x))."""
    res = []
    for line in self.out.splitlines():
      if line.startswith('"' + tag + ' '):
        res.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return res


def load_known():
  res = []
  try:
    for line in open(os.path.join(VERIF, 'known_findings.jsonl')):
      line = line.strip()
      if line.startswith('{'):
        res.append(json.loads(line))
  except OSError:
    pass
  return res


def gen_histories(ctx, num, depth, kinds='', seed=0):
  """Client histories generated by TLC from IterGen.tla."""
  r = ctx.tlc('IterGen', args=['-simulate', 'num=%d' % num, '-depth', str(depth + 3), '-seed', str(ctx.seed * 1000 + seed)],
              workers=1, DEPTH=depth, KINDS=kinds)
  hs = [h[:-1] for h in r.json_lines('HIST')]
  if len(hs) < num // 2:
    raise MachineryError('history generation failed: ' + r.out[-2000:])
  return hs
