"""P07: lookup-table caches never change results, for any history or fault.

Requests run in forked children of a server process that has the library imported
and a file-operation shim preloaded.  The shim counts the file operations below the
scratch cache directory and injects a kill, a torn write, ENOSPC or a pause at a
chosen one, so all crash points of a cache write can be enumerated on the real code.
"""
import json
import os
import shutil
import subprocess
import sys
import time

import numpy as np

from monitors import cacheproc, ref

KILL, TORN, ONCE, FULL, PAUSE, DELAY = 1, 2, 3, 4, 5, 6
MODES = {KILL: 'kill before', TORN: 'torn, then kill', ONCE: 'one failing operation',
         FULL: 'disk full from here on'}
KINDS = ('cg', 'wd', 'sh', 'tc')


class Server:

  def __init__(self, env):
    self.dir = os.path.join(env.scratch, 'p07')
    os.mkdir(self.dir)
    so = os.path.join(self.dir, 'faults.so')
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'shim', 'faults.c')
    for cc in ('gcc', 'clang', 'cc'):
      if shutil.which(cc):
        subprocess.run([cc, '-shared', '-fPIC', '-O1', '-o', so, src, '-ldl'], check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        break
    e = dict(os.environ, LD_PRELOAD=so, E3X_SHIM=so, E3X_X64='1' if env.x64 else '0')
    self.log = open(os.path.join(self.dir, 'log'), 'wb')
    self.p = subprocess.Popen([sys.executable, '-m', 'monitors.cacheproc'], stdin=subprocess.PIPE,
                              stdout=subprocess.PIPE, stderr=self.log, env=e, text=True)
    line = self.p.stdout.readline()
    assert 'ready' in line, 'cache server did not start'
    self.k = 0

  def _ask(self, cmd):
    self.p.stdin.write(json.dumps(cmd) + '\n')
    self.p.stdin.flush()
    return json.loads(self.p.stdout.readline())

  def start(self, ops, prefix, **kw):
    self.k += 1
    out = os.path.join(self.dir, 'res%d' % self.k)
    pid = self._ask(dict(ops=ops, prefix=prefix, out=out, **kw))['pid']
    return pid, out

  def finish(self, job):
    pid, out = job
    st = self._ask(dict(wait=pid))['status']
    if not os.path.exists(out):
      return dict(killed=os.WIFSIGNALED(st), status=st, results=[], arrays={}, events=0)
    with open(out) as f:
      r = json.load(f)
    with np.load(out + '.npz') as z:
      r['arrays'] = {k: z[k] for k in z.files}
    r['killed'] = False
    os.remove(out)
    os.remove(out + '.npz')
    return r

  def run(self, ops, prefix, **kw):
    return self.finish(self.start(ops, prefix, **kw))

  def close(self):
    try:
      self._ask  # keep lint quiet
      self.p.stdin.write(json.dumps(dict(quit=True)) + '\n')
      self.p.stdin.flush()
      self.p.wait(timeout=10)
    except Exception:  # pylint: disable=broad-except
      self.p.kill()
    self.log.close()


class World:

  def __init__(self, mon, env):
    self.mon, self.env = mon, env
    self.srv = Server(env)
    self.n = 0
    self.base = {}
    self.tol = 100 * env.eps

  def fresh(self):
    self.n += 1
    d = os.path.join(self.srv.dir, 'w%d' % self.n)
    os.mkdir(d)
    return d

  def truth(self, kind, degree):
    """Value without any cache, checked against the closed form."""
    if (kind, degree) not in self.base:
      r = self.srv.run([['get', kind, degree]], '/nonexistent')
      if not self.mon.expect('no cache', r['results'] == ['ok'], 'request without cache failed: %s' % r['results']):
        self.base[kind, degree] = None
        return None
      v = self.base[kind, degree] = r['arrays']['r0']
      if kind == 'cg':
        want = ref.cg(degree, degree, degree, True)
        self.mon.close('no cache = closed form', v, want, self.tol)
      elif kind == 'sh':
        self.mon.close('no cache = closed form', v, ref.sph(np.asarray(cacheproc.VEC), degree), self.tol * 20)
      elif kind == 'wd':
        self.mon.close('no cache = closed form', v, ref.wigner(np.asarray(cacheproc.ROT), degree, True), self.tol * 20)
    return self.base[kind, degree]

  def verify(self, label, ops, r, may_raise=False):
    """Every 'get' returned the true value (or raised, where allowed)."""
    gets = [(i, op) for i, op in enumerate(ops) if op[0] == 'get']
    if not self.mon.expect(label + ': requests answered', len(r['results']) == len(gets),
                           'process ended early: status %s' % r.get('status')):
      return
    for (i, op), res in zip(gets, r['results']):
      if res == 'ok':
        want = self.truth(op[1], op[2])
        if want is not None:
          self.mon.close(label + ': value', r['arrays']['r%d' % i], want, self.tol)
      else:
        self.mon.expect(label + ': no failure', may_raise, 'request %s %s' % (op, res))


def top(env, kind):
  return dict(cg=2, wd=2, sh=4, tc=3)[kind] + (env.thorough and kind in ('cg', 'sh', 'tc'))


def history(w, kinds, restarts):
  """Random histories without faults: values always right, never an error."""
  mon, env, rng = w.mon, w.env, w.env.rng
  d = w.fresh()
  nopkg = bool(rng.integers(2))
  mon.begin(what='history', kinds=kinds, restarts=restarts, package_tables=not nopkg, id=w.n)
  paths = {k: [os.path.join(d, '%s_%d.npz' % (k, j)) for j in range(2)] for k in kinds}
  cur = {}
  ops_all = []
  for _ in range(env.n(6, 14)):
    k = kinds[rng.integers(len(kinds))]
    u = rng.random()
    if k not in cur or u < 0.15:
      c = rng.random()
      cur[k] = paths[k][rng.integers(2)] if c < 0.75 else (
          None if c < 0.88 else os.path.join(d, 'missing', 'x.npz'))
      ops_all.append(['set', k, cur[k]])
    elif u < 0.22:
      ops_all.append(['rm', cur[k]])
      continue
    deg = int(rng.integers(0, top(env, k) + 1))
    ops_all.append(['get', 'ct' if k == 'tc' and 0 < deg < 3 and rng.integers(2) else k, deg])
  # Cut the history into processes.
  batch, cfg = [], {}
  def flush():
    nonlocal batch
    if not any(o[0] == 'get' for o in batch):
      batch = []
      return
    r = w.srv.run(batch, d, no_package=nopkg)
    w.verify('history', batch, r)
    batch = [['set', k, v] for k, v in cfg.items()]
  for op in ops_all:
    if op[0] == 'rm':
      flush()
      if op[1] and os.path.exists(op[1]):
        os.remove(op[1])
      continue
    if op[0] == 'set':
      cfg[op[1]] = op[2]
    batch.append(op)
    if restarts and op[0] == 'get' and rng.random() < 0.6:
      flush()
  flush()
  shutil.rmtree(d)


def pregenerate(w, kind):
  """Tables generated by the documented parallel command line."""
  mon, env, rng = w.mon, w.env, w.env.rng
  d = w.fresh()
  path = os.path.join(d, 'pre.npz')
  module = dict(cg='_clebsch_gordan_lut', wd='_wigner_d_lut', sh='_spherical_harmonics_lut',
                tc='_tensor_conversion_lut')[kind]
  first = int(rng.integers(0, 2))
  second = first + int(rng.integers(0, 2))
  mon.begin(what='pre-generated', kind=kind, first=first, second=second)
  for deg, procs in ((first, int(rng.integers(1, 4))), (second, int(rng.integers(2, 4)))):
    r = subprocess.run([sys.executable, '-m', 'e3x.so3.' + module, '--max_degree', str(deg), '--path', path,
                        '--num_processes', str(procs)], cwd=d, stdout=subprocess.DEVNULL,
                       stderr=subprocess.PIPE, timeout=150)
    mon.expect('pre-generation succeeds', r.returncode == 0, r.stderr[-400:].decode('utf8', 'replace'))
  ops = [['set', kind, path]] + [['get', kind, g] for g in (second, first, second + 1, 0)]
  w.verify('pre-generated', ops, w.srv.run(ops, d))
  shutil.rmtree(d)


def prepare(w, kind, d, d0, nopkg):
  path = os.path.join(d, 'c.npz')
  if d0 is not None:
    ops = [['set', kind, path], ['get', kind, d0]]
    w.verify('before fault', ops, w.srv.run(ops, d, no_package=nopkg))
  return path


def crash_points(w, kind, d0, d1):
  """Enumerates the file operations of one cache write with every fault mode."""
  mon, env, rng = w.mon, w.env, w.env.rng
  d = w.fresh()
  nopkg = kind in ('sh', 'tc')
  path = prepare(w, kind, d, d0, nopkg)
  saved = open(path, 'rb').read() if os.path.exists(path) else None
  ops = [['set', kind, path], ['get', kind, d1]]
  mon.begin(what='operations of one cache write', kind=kind, start=d0, request=d1)
  r = w.srv.run(ops, d, no_package=nopkg)
  w.verify('counted write', ops, r)
  total = r['events']
  mon.notes.append('%s %s->%s: %d file operations observed in one cache write' % (kind, d0, d1, total))
  points = [(k, m) for k in range(1, total + 1) for m in MODES]
  if not env.thorough:
    # First, last and random ones.
    rng.shuffle(points)
    points = points[:env.n(4)] + [(1, KILL), (1, ONCE), (total, TORN), (total, ONCE), (2, FULL)]
    points = sorted(set(p for p in points if p[0] <= total))
  for k, m in points:
    if not mon.time_left():
      break
    if os.path.exists(path):
      os.remove(path)
    if saved is not None:
      with open(path, 'wb') as f:
        f.write(saved)
    mon.begin(what='fault', kind=kind, start=d0, request=d1, operation=k, of=total, mode=MODES[m])
    r = w.srv.run(ops, d, target=k, mode=m, no_package=nopkg)
    if m in (ONCE, FULL):
      w.verify('failing write does not fail the request', ops, r)
    else:
      mon.expect('crash was injected', r['killed'] or r['results'] == ['ok'], 'status %s' % r.get('status'))
      if not r['killed']:
        w.verify('after fault point', ops, r)
    # Later requests: right or error, in a new process; twice, and a smaller degree.
    later = [['set', kind, path], ['get', kind, d1], ['get', kind, 0 if d0 is None else d0]]
    w.verify('after ' + MODES[m], later, w.srv.run(later, d, no_package=nopkg), may_raise=True)
    if rng.random() < 0.2:
      if os.path.exists(path):
        os.remove(path)
      w.verify('after cleaning up', later, w.srv.run(later, d, no_package=nopkg))
  shutil.rmtree(d)


def damage(w, kind, degree, count):
  mon, env, rng = w.mon, w.env, w.env.rng
  d = w.fresh()
  nopkg = kind in ('sh', 'tc')
  path = prepare(w, kind, d, degree, nopkg)
  if not os.path.exists(path):
    mon.notes.append('%s: no cache file was written' % kind)
    return
  n = os.path.getsize(path)
  jobs = []
  for _ in range(count):
    u = rng.random()
    a = int(rng.integers(0, n))
    if u < 0.4:
      jobs.append(['cut', a])
    elif u < 0.75:
      jobs.append(['flip', a, int(1 << rng.integers(8))])
    elif u < 0.85:
      jobs.append(['zero', a, min(n, a + int(rng.integers(1, 600)))])
    elif u < 0.95:
      jobs.append(['drop', a, min(n, a + int(rng.integers(1, 200)))])
    else:
      jobs.append(['append', int(rng.integers(1, 100))])
  jobs += [['cut', 0], ['cut', 1], ['cut', n - 1], ['cut', n // 2]]
  mon.begin(what='damaged file', kind=kind, degree=degree, size=n, damages=len(jobs))
  for ask in (degree, max(degree - 1, 0)):
    ops = [['set', kind, path], ['damage', path, kind, ask, jobs]]
    r = w.srv.run(ops, d, no_package=nopkg)
    if not mon.expect('damage survey completed', 'damage' in r, 'status %s' % r.get('status')):
      return
    want = w.truth(kind, ask)
    outcome = {}
    for i, (job, res) in enumerate(zip(jobs, r['damage'])):
      outcome[res] = outcome.get(res, 0) + 1
      if res == 'ok' and want is not None:
        got = r['arrays']['d%d' % i]
        mon.case['damage'] = job
        mon.close('damaged file: right value or error', got, want, w.tol)
      else:
        mon.expect('damaged file: right value or error', True)
    mon.notes.append('%s damage outcomes: %s' % (kind, json.dumps(outcome, sort_keys=True)))
  # A cache of another kind under this path.
  for other in KINDS:
    if other == kind:
      continue
    ops = [['set', other, path], ['get', other, 1]]
    w.verify('cache file of another kind', ops, w.srv.run(ops, d, no_package=True), may_raise=True)
  shutil.rmtree(d)


def interleave(w, kind, da, db):
  """Process A stops at operation k of its cache write; B runs completely; A goes on."""
  mon, env, rng = w.mon, w.env, w.env.rng
  d = w.fresh()
  nopkg = kind in ('sh', 'tc')
  path = os.path.join(d, 'c.npz')
  opa = [['set', kind, path], ['get', kind, da]]
  opb = [['set', kind, path], ['get', kind, db], ['get', kind, da]]
  r = w.srv.run(opa, d, no_package=nopkg)
  total = r['events']
  ks = list(range(1, total + 1))
  if not env.thorough:
    rng.shuffle(ks)
    ks = ks[:2]
  for k in ks:
    if not mon.time_left():
      break
    if os.path.exists(path):
      os.remove(path)
    flag = os.path.join(w.srv.dir, 'pause%d' % w.srv.k)
    mon.begin(what='interleaving', kind=kind, a=da, b=db, operation=k, of=total)
    ja = w.srv.start(opa, d, target=k, mode=PAUSE, pause=flag, no_package=nopkg)
    t0 = time.time()
    while not os.path.exists(flag + '.at') and time.time() - t0 < 40 and not os.path.exists(ja[1]):
      time.sleep(0.002)
    paused = os.path.exists(flag + '.at')
    rb = w.srv.run(opb, d, no_package=nopkg)
    open(flag + '.go', 'w').close()
    ra = w.srv.finish(ja)
    mon.expect('interleaving reached', paused or ra['results'], 'the writer neither paused nor ended')
    w.verify('paused writer', opa, ra, may_raise=False)
    w.verify('second process', opb, rb, may_raise=True)
    later = [['set', kind, path], ['get', kind, da], ['get', kind, db]]
    w.verify('after interleaved writes', later, w.srv.run(later, d, no_package=nopkg), may_raise=True)
  shutil.rmtree(d)


def stress(w, kind, procs):
  mon, env, rng = w.mon, w.env, w.env.rng
  d = w.fresh()
  nopkg = kind in ('sh', 'tc')
  path = os.path.join(d, 'c.npz')
  mon.begin(what='concurrent processes', kind=kind, processes=procs, id=w.n)
  jobs = []
  for _ in range(procs):
    ops = [['set', kind, path]] + [['get', kind, int(rng.integers(0, 3 if kind != 'wd' else 2))] for _ in range(3)]
    jobs.append((ops, w.srv.start(ops, d, mode=DELAY, no_package=nopkg)))
  for ops, j in jobs:
    w.verify('concurrent processes', ops, w.srv.finish(j), may_raise=True)
  later = [['set', kind, path], ['get', kind, 1], ['get', kind, 2]]
  w.verify('after concurrent processes', later, w.srv.run(later, d, no_package=nopkg), may_raise=True)
  shutil.rmtree(d)


def run(mon, env):
  w = World(mon, env)
  try:
    s = env.shard + (4 if env.x64 else 0)  # 0..7
    kind = KINDS[s % 4]
    nxt = KINDS[(s + 1) % 4]
    mon.section('history', history, w, [kind], bool(s >= 4))
    if s % 2 or env.thorough:
      mon.section('history', history, w, [kind, nxt], True)
    start = [None, 0][s >= 4]
    mon.section('crash', crash_points, w, kind, start, 1)
    mon.section('damage', damage, w, kind, 1 + (kind == 'tc'), env.n(60, 1500))
    mon.section('interleave', interleave, w, kind, *((1, 0) if s >= 4 else (0, 1)))
    if s in (0, 1, 2, 3) or env.thorough:
      mon.section('pregenerate', pregenerate, w, kind)
    mon.section('stress', stress, w, kind, env.n(3, 6))
    if env.thorough:
      mon.section('crash', crash_points, w, kind, [0, None][s >= 4], 1)
      mon.section('crash', crash_points, w, kind, 1, 2)
      while mon.time_left():
        mon.section('history', history, w, [KINDS[i] for i in env.rng.permutation(4)[:env.rng.integers(1, 5)]],
                    bool(env.rng.integers(2)))
        mon.section('stress', stress, w, KINDS[env.rng.integers(4)], 6)
  finally:
    w.srv.close()
