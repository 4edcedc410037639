"""Jobs (program x precision x mode) whose results are compared bit by bit between
histories, threads and processes.  Also an entry point: runs a list of jobs in a
fresh process, one after the other or from several threads."""
import argparse
import contextlib
import gc
import hashlib
import json
import os
import random
import sys
import threading
import warnings

import jax
import numpy as np

import e3x
from monitors import catalogue, core

PARTS = dict(table=(catalogue.so3,), rest=(catalogue.ops, catalogue.functions, catalogue.features, catalogue.wrappers, catalogue.layers,
                                           catalogue.matrices, catalogue.model))


def leaves(x):
  return jax.tree_util.tree_leaves(x)


def fingerprint(x):
  return core.digest(*leaves(x)) + str(jax.tree_util.tree_structure(x))


class Jobs:

  def __init__(self, seed, x64, top=3, parts='all'):
    rng = np.random.default_rng([seed, int(x64), 77])
    chosen = sum(PARTS.values(), ()) if parts == 'all' else PARTS[parts]
    self.programs = catalogue.programs(rng, top, chosen)
    self.args, self.compiled = {}, {}

  def __len__(self):
    return len(self.programs)

  def prepare(self, i, double):
    """Arguments are made once and shared by all calls and threads."""
    if (i, double) not in self.args:
      with jax.enable_x64(double):
        self.args[i, double] = [catalogue.cast(a, np.float64 if double else np.float32) for a in self.programs[i].args]
    return self.args[i, double]

  def run(self, job, fresh=True):
    """fresh: traced and compiled again instead of reusing the compiled program."""
    i, double, mode = job
    p = self.programs[i]
    args = self.prepare(i, double)

    def loss(*v):
      a = list(args)
      for k, u in zip(p.floats, v):
        a[k] = u
      return sum(jax.numpy.sum(o) for o in leaves(p.fn(*a)))
    with jax.enable_x64(double):
      if mode == 'eager':
        return jax.block_until_ready(p.fn(*args))
      f = None if fresh else self.compiled.get(job)
      if f is None:
        f = jax.jit(lambda *a: p.fn(*a)) if mode == 'jit' else jax.jit(jax.grad(loss, argnums=tuple(range(len(p.floats)))))
        self.compiled[job] = f
      return jax.block_until_ready(f(*args) if mode == 'jit' else f(*[args[k] for k in p.floats]))


def configure(settings):
  """Global defaults [normalization, cartesian order, fused tensor]; missing or None: unchanged."""
  setters = (e3x.Config.set_normalization, e3x.Config.set_cartesian_order, e3x.Config.set_use_fused_tensor)
  for f, v in zip(setters, settings):
    if v is not None:
      f(v)


def configuration():
  return str({k: str(v) for k, v in vars(e3x.Config).items() if not k.startswith('__') and not callable(v)
              and not isinstance(v, (staticmethod, classmethod))})


def global_state():
  """Everything outside of the arguments that a call could modify."""
  s = {}
  st = np.random.get_state()
  s['numpy random state'] = core.digest(st[1]) + str(st[2:])
  s['random state'] = hashlib.sha256(repr(random.getstate()).encode()).hexdigest()
  s['environment'] = hashlib.sha256(repr(sorted(os.environ.items())).encode()).hexdigest()
  s['jax configuration'] = hashlib.sha256(repr(sorted((k, str(v)) for k, v in jax.config.values.items())).encode()).hexdigest()
  s['thread-local jax configuration'] = '%s %s %s' % (jax.config.jax_enable_x64, jax.config.jax_default_matmul_precision, jax.config.jax_disable_jit)
  s['numpy error handling'] = str(np.geterr())
  s['numpy print options'] = str(np.get_printoptions())
  s['working directory'] = os.getcwd()
  s['e3x configuration'] = configuration()
  s['warning filters'] = str([f[:1] for f in warnings.filters])
  s['recursion limit'] = str(sys.getrecursionlimit())
  s['garbage collector'] = str((gc.isenabled(), gc.get_threshold()))
  s['import path'] = str(sys.path)
  return s


def in_threads(jobs, sequences, interval=1e-5, fresh=1.0):
  """Runs one sequence of jobs per thread; returns [(job, fingerprint or error)]."""
  old = sys.getswitchinterval()
  out = [[] for _ in sequences]
  barrier = threading.Barrier(len(sequences))

  def work(k):
    rng = random.Random(k)
    barrier.wait()
    for job in sequences[k]:
      try:
        out[k].append((job, fingerprint(jobs.run(job, rng.random() < fresh)), None))
      except Exception as e:  # pylint: disable=broad-except
        out[k].append((job, None, '%s: %s' % (type(e).__name__, str(e)[:300])))
  threads = [threading.Thread(target=work, args=(k,)) for k in range(len(sequences))]
  try:
    sys.setswitchinterval(interval)
    for t in threads:
      t.start()
    for t in threads:
      t.join()
  finally:
    sys.setswitchinterval(old)
  return out


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('spec')
  a = ap.parse_args()
  with open(a.spec) as f:
    spec = json.load(f)
  from absl import logging as absl_logging
  absl_logging.set_verbosity(absl_logging.FATAL)
  if spec['x64']:
    jax.config.update('jax_enable_x64', True)
  if spec['tables'].get('cg'):
    e3x.Config.set_clebsch_gordan_cache(spec['tables']['cg'])
  if spec['tables'].get('wd'):
    e3x.Config.set_wigner_d_cache(spec['tables']['wd'])
  configure(spec.get('settings') or [])
  jobs = Jobs(spec['seed'], spec['x64'], spec['top'], spec['parts'])
  seqs = [[tuple(j) for j in s] for s in spec['sequences']]
  if len(seqs) == 1:
    out = []
    for j in seqs[0]:
      try:
        out.append((j, fingerprint(jobs.run(j)), None))
      except Exception as e:  # pylint: disable=broad-except
        out.append((j, None, '%s: %s' % (type(e).__name__, str(e)[:300])))
    out = [out]
  else:
    out = in_threads(jobs, seqs)
  with open(spec['out'] + '.tmp', 'w') as f:
    json.dump(out, f)
  os.replace(spec['out'] + '.tmp', spec['out'])
  sys.stdout.flush()
  os._exit(0)


if __name__ == '__main__':
  main()
