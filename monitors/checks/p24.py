"""P24: a call returns the same bits whatever happened before, meanwhile and elsewhere.

Histories of calls (programs of the catalogue in both precisions, eager, compiled and
differentiated, mixed with rejected and aborted calls) are replayed in other orders,
from concurrent threads and in fresh processes, and compared bit by bit with the first
result; arguments, earlier results and all global state are watched."""
import json
import os
import subprocess
import sys

import jax
import jax.numpy as jnp
import numpy as np

import e3x
from monitors import core, jobs as J
from monitors.checks import p23

MODES = ('eager', 'eager', 'eager', 'jit', 'grad')


class Watcher(core.Monitor):
  """Runs calls (also rejected ones) only to see what they leave behind."""

  def __init__(self, mon, watch):
    self.real, self.watch_state = mon, watch
    self.calls, self.case, self.notes = 0, {}, []

  def begin(self, **case):
    self.case = case

  def run(self, label, fn, *args, **kwargs):
    before = J.configuration()
    given = [np.array(a) for a in args if isinstance(a, jax.Array)]
    out = None
    try:
      out = fn(*args, **kwargs)
    except Exception:  # pylint: disable=broad-except
      pass
    self.calls += 1
    after = J.configuration()
    self.real.calls += 1
    self.real.expect('configuration unchanged by a rejected call', before == after, str(label), before=before, after=after)
    same = all(np.array_equal(a, np.array(b), equal_nan=True) for a, b in zip(given, [a for a in args if isinstance(a, jax.Array)]))
    self.real.expect('arguments unchanged by a rejected call', same, str(label))
    return out

  call = run

  def raises(self, label, exc, fn, *args, **kwargs):
    self.run(label, fn, *args, **kwargs)

  def expect(self, *a, **k):
    return True

  close = finite = expect

  def violation(self, *a, **k):
    pass


class World:

  def __init__(self, mon, env):
    self.mon, self.env, self.rng = mon, env, env.rng
    self.top = 3
    self.settings = [[], [], ['4pi'], [None, False], [None, False, True], ['orthonormal'], ['orthonormal', False], ['4pi', True, True]][
        int(self.rng.integers(8))]
    J.configure(self.settings)
    self.jobs = J.Jobs(env.seed, env.x64, self.top)
    self.first, self.kept = {}, []
    self.state = J.global_state()

  def choose(self, indices, n):
    out = []
    for i in indices:
      p = self.jobs.programs[i]
      modes = [m for m in MODES if m == 'eager' or (p.traceable and (m == 'jit' or (p.smooth and p.floats)))]
      out.append((int(i), bool(self.rng.random() < (0.7 if self.env.x64 else 0.3)), modes[self.rng.integers(len(modes))]))
    return out[:n]

  def name(self, job):
    return '%s, %s, %s' % (self.jobs.programs[job[0]].name, 'double' if job[1] else 'single', job[2])

  def watch(self, where):
    s = J.global_state()
    for k in s:
      self.mon.expect('unchanged: ' + k, s[k] == self.state[k], '%s changed %s' % (where, k), before=self.state[k][:300], after=s[k][:300])
    self.state = s

  def observe(self, job, watch):
    """One call; the first is the reference for all others."""
    mon, name = self.mon, self.name(job)
    args = self.jobs.prepare(job[0], job[1])
    before = J.fingerprint(args)
    try:
      out = self.jobs.run(job, job not in self.first or self.rng.random() < 0.15)
    except Exception as e:  # pylint: disable=broad-except
      if core.compiler_failure(e):
        mon.note_compiler(e)
        return False
      mon.violation(self.jobs.programs[job[0]].name, 'raised %s: %s' % (type(e).__name__, str(e)[:300]), job=name)
      return False
    got = J.fingerprint(out)
    mon.calls += 1
    mon.expect('arguments are not modified', J.fingerprint(args) == before, name)
    if watch:
      self.watch(name)
    if job not in self.first:
      self.first[job] = got
      self.kept.append((job, out, got))
    else:
      mon.expect('same result in any history', got == self.first[job], name, config=self.jobs.programs[job[0]].config)
    return True

  def disturbance(self):
    """Rejected and aborted calls must not leave anything behind."""
    rng, so, nn = self.rng, e3x.so3, e3x.nn
    bad = [lambda: so.spherical_harmonics(jnp.zeros((2, 4)), 2), lambda: so.spherical_harmonics(jnp.zeros((2, 3)), -1),
           lambda: so.wigner_d(jnp.zeros((3, 4)), 1), lambda: e3x.Config.set_normalization('wrong'),
           lambda: so.rotation(jnp.zeros((2, 3)), jnp.zeros((3,))), lambda: nn.add(jnp.zeros((1, 1, 2)), jnp.zeros((1, 1, 3))),
           lambda: nn.Dense(-1).init(jax.random.PRNGKey(0), jnp.zeros((1, 4, 2))), lambda: nn.Tensor(max_degree=9).init(
               jax.random.PRNGKey(0), jnp.zeros((1, 4, 2)), jnp.zeros((1, 4, 2))),
           lambda: jax.jit(lambda x: so.solid_harmonics(x, 2) + 1 / 0)(jnp.zeros(3)),
           lambda: jax.jit(lambda x: bool(so.wigner_d(x, 2)[0, 0] > 0))(jnp.eye(3)),
           lambda: jax.vmap(lambda x: e3x.ops.norm(x)[7] + float(x))(jnp.zeros((2, 3))),
           lambda: nn.basis(jnp.zeros((2, 3)), num=2, max_degree=1, radial_fn=lambda *a, **k: 1 / 0),
           lambda: nn.basis(jnp.ones((2, 3)), num=2, max_degree=1, radial_fn=nn.basic_gaussian, angular_fn=lambda *a, **k: 1 / 0),
           lambda: nn.basis(jnp.ones((2, 3)), num=2, max_degree=1, radial_fn=nn.basic_gaussian, damping_fn=lambda *a, **k: 1 / 0),
           lambda: so.solid_harmonics(jnp.zeros((2, 4)), 1), lambda: so.solid_harmonics(jnp.zeros((2, 3)), -1),
           lambda: nn.TensorDense(tensor_kernel_init=lambda *a, **k: 1 / 0).init(jax.random.PRNGKey(0), jnp.ones((1, 4, 2))),
           lambda: e3x.ops.evaluate_derivatives(lambda x: 1 / 0, jnp.zeros(2), 2),
           lambda: so.lebedev_quadrature(precision=10**6), lambda: so.tensor_to_irreps(jnp.eye(3), 2),
           lambda: e3x.ops.evaluate_derivatives(lambda x: x, jnp.zeros(2), -1),
           lambda: e3x.ops.indexed_sum(jnp.zeros(3), dst_idx=jnp.zeros(2, int), num_segments=2)]
    try:
      bad[rng.integers(len(bad))]()
    except Exception:  # pylint: disable=broad-except
      pass

  def rejected(self, n):
    """Calls with invalid arguments (those of P23) under the present configuration."""
    entries = [f for f in p23.CATALOGUE if f is not p23.config]
    heavy = {p23.attention, p23.message_passing, p23.products}
    chosen = [f for f in entries if f not in heavy] + [f for f in heavy if self.rng.integers(4) == 0]
    quiet = Watcher(self.mon, self.watch)
    c = p23.Ctx(quiet, self.env)
    for k in self.rng.permutation(len(chosen))[:n]:
      if not self.mon.time_left():
        return
      self.mon.begin(what='rejected calls', entry=chosen[k].__name__, settings=self.settings)
      try:
        chosen[k](c)
      except Exception:  # pylint: disable=broad-except
        pass
      self.watch('rejected calls: ' + chosen[k].__name__)

  def spawn(self, tag, sequences, parts='all', top=None, tables=True):
    env = self.env
    spec = dict(seed=env.seed, x64=env.x64, top=self.top if top is None else top, parts=parts, sequences=sequences, settings=self.settings,
                tables=(env.opts.get('tables') or {}) if tables else {}, out=os.path.join(env.scratch, tag + '.json'))
    path = os.path.join(env.scratch, tag + '.spec')
    with open(path, 'w') as f:
      json.dump(spec, f)
    p = subprocess.Popen([sys.executable, '-m', 'monitors.jobs', path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return p, spec['out']

  def collect(self, handle, timeout=300):
    p, out = handle
    try:
      p.wait(timeout)
    except subprocess.TimeoutExpired:
      p.kill()
      p.wait()
      return None
    if not os.path.exists(out):
      return None
    with open(out) as f:
      return [[(tuple(j), d, e) for j, d, e in s] for s in json.load(f)]

  def compare(self, label, results, want):
    if results is None:
      self.mon.notes.append(label + ': a process gave no answer')
      return
    for seq in results:
      for job, got, err in seq:
        self.mon.calls += 1
        if err is not None:
          if core.compiler_failure(err):
            continue
          self.mon.violation(label, 'raised ' + err, job=job)
        elif job in want:
          self.mon.expect(label, got == want[job], 'job %s gave other bits' % (job,))


def tables_in_threads(mon, env):
  """First use of every lookup table from several threads of a fresh process."""
  w = World.__new__(World)
  w.mon, w.env, w.rng, w.top, w.settings = mon, env, env.rng, 2, []
  probe = J.Jobs(env.seed, env.x64, 1, 'table')
  idx = [i for i in range(len(probe))]
  jobs = [(i, env.x64, 'eager') for i in idx] + [(i, env.x64, 'jit') for i in idx if probe.programs[i].traceable]
  del probe
  use = bool(env.rng.integers(2))  # with a complete cache or generated in memory
  n = int(env.rng.integers(2, 9))
  mon.begin(what='tables from threads', threads=n, cached=use)
  alone = w.spawn('alone', [jobs], 'table', 1, use)
  seqs = [[jobs[k] for k in env.rng.permutation(len(jobs))] for _ in range(n)]
  if env.rng.integers(2):
    seqs = [list(seqs[0]) for _ in range(n)]  # all threads need the same table first
  many = w.spawn('many', seqs, 'table', 1, use)
  return w, alone, many


def run(mon, env):
  rng = env.rng
  background = []
  pending = tables_in_threads(mon, env) if env.thorough or env.shard < 2 else None
  w = World(mon, env)
  order = rng.permutation(len(w.jobs))
  n = env.n(24, 90)
  todo = w.choose(order[:n], n)
  # Sequential history in which every job occurs for the first time.
  for j in todo:
    if not mon.time_left():
      break
    mon.begin(job=w.name(j), config=w.jobs.programs[j[0]].config, settings=w.settings)
    w.observe(j, watch=True)
  done = [j for j in todo if j in w.first]
  # The same jobs, in fresh processes: reversed, and alone.
  if done and (env.thorough or env.shard >= 2):
    some = [done[i] for i in rng.permutation(len(done))[:env.n(8, 40)]]
    background.append(('fresh process, other order', w.spawn('reversed', [some[::-1]])))
    for k in range(env.n(1, 4)):
      background.append(('alone in a fresh process', w.spawn('single%d' % k, [[done[rng.integers(len(done))]]])))
  w.rejected(env.n(16, 40))
  # Random histories with repetitions, disturbances and other configurations between.
  mon.begin(what='history', length=3 * len(done))
  for _ in range(env.n(2, 6)):
    for i in rng.permutation(len(done)):
      if not mon.time_left():
        break
      if rng.random() < 0.15:
        w.disturbance()
        w.watch('a rejected call')
      w.observe(done[i], watch=rng.random() < 0.3)
  # Threads.
  for rep in range(env.n(2, 8)):
    if not mon.time_left() or not done:
      break
    n = int(rng.integers(2, 9))
    if rng.integers(2):
      seqs = [[done[i] for i in rng.permutation(len(done))[:env.n(12, 40)]] for _ in range(n)]
    else:  # neighbours use the same few programs at the same time
      few = [done[i] for i in rng.permutation(len(done))[:3]]
      seqs = [[few[rng.integers(len(few))] for _ in range(env.n(10, 40))] for _ in range(n)]
    mon.begin(what='threads', threads=n, jobs=[len(s) for s in seqs], rep=rep)
    w.compare('same result from concurrent threads', J.in_threads(w.jobs, seqs, interval=[1e-6, 1e-5, 1e-4][rng.integers(3)],
                                                                        fresh=[0.0, 0.1][rng.integers(2)]), w.first)
    w.watch('concurrent calls')
  # Results of earlier calls were not modified.
  for job, out, digest in w.kept:
    mon.expect('earlier results are not modified', J.fingerprint(out) == digest, w.name(job))
  for label, h in background:
    mon.begin(what=label)
    w.compare(label, w.collect(h), w.first)
  if pending is None:
    return
  t, alone, many = pending
  a = t.collect(alone)
  b = t.collect(many)
  if a is not None and b is not None:
    want = {j: d for s in a for j, d, e in s if e is None}
    mon.section('tables', t.compare, 'tables first used by concurrent threads', b, want)
