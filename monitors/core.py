"""Monitor core: observes executions of the real e3x code and records verdicts.

A check is a module monitors/checks/pXX.py with a function run(mon, env).  The
driver (run.py) starts several worker processes (shards, float32/float64); each
worker drives the real library under a generated workload, and the Monitor object
compares every observed event (a call and its result) with an oracle.
"""

import hashlib
import json
import os
import time
import traceback

import numpy as np


class TooManyViolations(Exception):
  pass


class Skip(Exception):
  """Raised by Monitor.call after an unexpected exception (already recorded)."""


def digest(*arrays) -> str:
  h = hashlib.sha256()
  for a in arrays:
    a = np.asarray(a)
    h.update(str(a.dtype).encode())
    h.update(str(a.shape).encode())
    h.update(np.ascontiguousarray(a).tobytes())
  return h.hexdigest()[:16]


def jsonable(x, limit=64):
  """Converts contexts to something JSON can hold (large arrays are summarised)."""
  if isinstance(x, dict):
    return {str(k): jsonable(v, limit) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return [jsonable(v, limit) for v in x]
  if isinstance(x, (str, int, bool, type(None))):
    return x
  if isinstance(x, (float,)):
    return x if np.isfinite(x) else repr(x)
  try:
    a = np.asarray(x)
  except Exception:  # pylint: disable=broad-except
    return repr(x)[:200]
  if a.dtype == object:
    return repr(x)[:200]
  if a.size <= limit:
    return {'shape': list(a.shape), 'dtype': str(a.dtype),
            'values': [v if not isinstance(v, float) or np.isfinite(v) else repr(v)
                       for v in a.ravel().tolist()]}
  return {'shape': list(a.shape), 'dtype': str(a.dtype), 'digest': digest(a)}


def compiler_failure(e):
  """Known failures of the installed XLA compiler itself (no verdict on e3x)."""
  return 'hlo verifier' in str(e)


class Monitor:
  """Collects observed events and violations of one worker."""

  def __init__(self, pid, shard, seed, tier, x64, budget_s):
    self.pid = pid
    self.shard = shard
    self.seed = seed
    self.tier = tier
    self.x64 = x64
    self.t0 = time.time()
    self.budget_s = budget_s
    self.evaluations = 0
    self.comparisons = 0
    self.values_compared = 0
    self.calls = 0
    self.covered = set()
    self.by_label = {}
    self.max_ratio = {}
    self.samples = []
    self.violations = []
    self.stopped_early = False
    self.case = None
    self.notes = []

  # -- workload bookkeeping -------------------------------------------------
  def time_left(self):
    left = self.budget_s - (time.time() - self.t0)
    if left <= 0 and not self.stopped_early:
      self.stopped_early = True
    return left > 0

  def begin(self, **case):
    """Starts a case (one generated configuration/input)."""
    self.case = case
    self.evaluations += 1
    key = json.dumps(jsonable(case, 8), sort_keys=True, default=str)
    new = key not in self.covered
    self.covered.add(key)
    if new and len(self.samples) < 4:
      self.samples.append(jsonable(case, 8))

  # -- observation ----------------------------------------------------------
  def call(self, label, fn, *args, **kwargs):
    """Runs real code on valid inputs; an exception is itself a violation."""
    self.calls += 1
    try:
      return fn(*args, **kwargs)
    except (TooManyViolations, Skip):
      raise
    except Exception as e:  # pylint: disable=broad-except
      if compiler_failure(e):
        self.note_compiler(e)
        raise Skip() from e
      self.violation(label, 'raised %s: %s' % (type(e).__name__, str(e)[:300]),
                     trace=traceback.format_exc()[-1500:])
      raise Skip() from e

  def count(self, what, n=1):
    """Counts observed events (for the evidence file)."""
    if n:
      self.by_label['(count) ' + what] = self.by_label.get('(count) ' + what, 0) + n

  def note_compiler(self, e):
    self.notes.append('case skipped, XLA compiler failure: ' + str(e)[:80])

  def raises(self, label, exc, fn, *args, **kwargs):
    """Invalid input: the call must raise one of exc."""
    self.calls += 1
    self.comparisons += 1
    self.by_label[label] = self.by_label.get(label, 0) + 1
    try:
      out = fn(*args, **kwargs)
    except exc:
      return
    except Exception as e:  # pylint: disable=broad-except
      self.violation(label, 'raised %s (%s) instead of %s' % (
          type(e).__name__, str(e)[:200], exc))
      return
    self.violation(label, 'accepted an invalid argument', got=out if not isinstance(out, tuple) else None)

  def section(self, name, fn, *args, **kwargs):
    """Runs one part of a workload.  A Skip ends only this part.  An unexpected
    exception (wrong shapes, types, ...) is a violation, too: it never happens on
    a tree on which the property holds."""
    try:
      return fn(*args, **kwargs)
    except Skip:
      return None
    except (TooManyViolations, MemoryError, OSError, ImportError):
      raise
    except Exception as e:  # pylint: disable=broad-except
      if 'RESOURCE_EXHAUSTED' in str(e):
        raise
      if compiler_failure(e):
        self.note_compiler(e)
        return None
      self.violation('exception:' + name, 'raised %s: %s' % (
          type(e).__name__, str(e)[:300]), trace=traceback.format_exc()[-1500:])
      return None

  def expect(self, label, cond, msg='', **ctx):
    self.comparisons += 1
    self.by_label[label] = self.by_label.get(label, 0) + 1
    if not bool(cond):
      self.violation(label, msg, **ctx)
      return False
    return True

  def close(self, label, got, want, tol, scale=None, msg='', **ctx):
    """|got-want| <= tol*max(scale,...) elementwise; shapes must agree exactly."""
    got = np.asarray(got)
    want = np.asarray(want)
    self.comparisons += 1
    self.values_compared += int(want.size)
    self.by_label[label] = self.by_label.get(label, 0) + 1
    if got.shape != want.shape:
      self.violation(label, 'shape %s, expected %s' % (got.shape, want.shape), **ctx)
      return False
    if got.size == 0:
      return True
    if got.dtype == bool or want.dtype == bool:
      ok = bool(np.all(got == want))
      if not ok:
        self.violation(label, msg or 'boolean mismatch', got=got, want=want, **ctx)
      return ok
    g = got.astype(np.float64)
    w = want.astype(np.float64)
    if scale is None:
      scale = np.maximum(1.0, np.max(np.abs(w)) if np.all(np.isfinite(w)) else 1.0)
    with np.errstate(all='ignore'):
      diff = np.abs(g - w)
      same = (g == w)
      bound = np.broadcast_to(np.asarray(tol * scale, dtype=np.float64), diff.shape)
      ok = same | (diff <= bound)
      ok &= np.isfinite(g) | same
    if np.all(ok):
      with np.errstate(all='ignore'):
        r = np.where(same, 0.0, diff / np.where(bound > 0, bound, 1))
      m = float(np.max(r)) if r.size else 0.0
      if m > self.max_ratio.get(label, 0.0):
        self.max_ratio[label] = m
      return True
    bad = np.argwhere(~ok)
    i = tuple(bad[0])
    self.violation(
        label,
        '%s: %d of %d values differ; first at %s: got %r expected %r (bound %.3g)'
        % (msg or 'mismatch', len(bad), got.size, i, float(g[i]), float(w[i]),
           float(bound[i])), **ctx)
    return False

  def finite(self, label, x, msg='', **ctx):
    x = np.asarray(x)
    self.comparisons += 1
    self.values_compared += int(x.size)
    self.by_label[label] = self.by_label.get(label, 0) + 1
    if not np.all(np.isfinite(x)):
      bad = np.argwhere(~np.isfinite(x))
      self.violation(label, '%s: %d non-finite values, first at %s' % (
          msg or 'not finite', len(bad), tuple(bad[0])), **ctx)
      return False
    return True

  def violation(self, label, msg, **ctx):
    self.violations.append(dict(
        label=label, msg=msg, case=jsonable(self.case, 200),
        ctx=jsonable(ctx, 400), shard=self.shard, x64=self.x64, seed=self.seed,
        tier=self.tier, evaluation=self.evaluations))
    if len(self.violations) >= 25:
      raise TooManyViolations()

  def result(self):
    return dict(
        evaluations=self.evaluations, calls=self.calls,
        comparisons=self.comparisons, values_compared=self.values_compared,
        covered=sorted(self.covered), by_label=self.by_label,
        max_ratio=self.max_ratio, samples=self.samples,
        violations=self.violations, stopped_early=self.stopped_early,
        notes=self.notes, wall_s=time.time() - self.t0)


class Env:
  """What a check needs to know about its surroundings."""

  def __init__(self, pid, shard, nshards, seed, tier, x64, scratch, opts):
    self.pid = pid
    self.shard = shard
    self.nshards = nshards
    self.seed = seed
    self.tier = tier
    self.thorough = tier == 'thorough'
    self.x64 = x64
    self.scratch = scratch
    self.opts = opts
    self.rng = np.random.default_rng([seed, shard, 1 if x64 else 0, int(pid[1:])])
    self.dtype = np.float64 if x64 else np.float32
    self.eps = float(np.finfo(self.dtype).eps)

  def n(self, quick, thorough=None):
    """Number of cases per shard for this tier."""
    if self.thorough:
      return thorough if thorough is not None else quick * 8
    return quick

  def mine(self, i):
    """Deterministic partition of enumerated cases among shards."""
    return i % self.nshards == self.shard


def load_known(path):
  if not os.path.exists(path):
    return []
  with open(path) as f:
    return json.load(f)['findings']
