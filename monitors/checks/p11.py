"""P11: activations are the documented gated nonlinearities."""
import math

import jax
import jax.numpy as jnp
import numpy as np
from scipy import special

import e3x
from monitors import nets, ref


def sigmoid(x):
  return special.expit(x)


def softplus(x):
  return np.logaddexp(x, 0)


def hard_sigmoid(x):
  return np.clip(x + 3, 0, 6) / 6


def expm1_over(x):
  """expm1(x)/x for x <= 0."""
  s = np.where(np.abs(x) < 1e-300, 1.0, x)
  return np.where(np.abs(x) < 1e-300, 1.0, np.expm1(np.minimum(s, 0)) / s)


def ssp_gate(x):
  s = np.where(np.abs(x) < 1e-10, 1.0, x)
  small = 0.5 + np.log1p(2 * np.sinh(np.clip(s, -2, 2) / 4) ** 2) / s
  big = (np.logaddexp(s, 0) - math.log(2)) / s
  return np.where(np.abs(x) < 1e-10, 0.5 + x / 8, np.where(np.abs(s) < 1, small, big))


LAM, ALF = 1.0507009873554804934193349852946, 1.6732632423543772848170429916717

# name -> (kwargs list, gate(x, **kw) in float64, kinks)
GATES = {
    'relu': ([{}], lambda x: (x > 0) * 1.0, [0]),
    'leaky_relu': ([{}, dict(negative_slope=0.2), dict(negative_slope=0.0), dict(negative_slope=-0.5)],
                   lambda x, negative_slope=1e-2: np.where(x >= 0, 1.0, negative_slope), [0]),
    'elu': ([{}, dict(alpha=0.5), dict(alpha=2.5)],
            lambda x, alpha=1.0: np.where(x > 0, 1.0, alpha * expm1_over(x)), [0]),
    'selu': ([{}], lambda x: LAM * np.where(x > 0, 1.0, ALF * expm1_over(x)), [0]),
    'celu': ([{}, dict(alpha=0.5), dict(alpha=2.5)],
             lambda x, alpha=1.0: np.where(x > 0, 1.0, expm1_over(x / alpha)), [0]),
    'silu': ([{}], sigmoid, []),
    'swish': ([{}], sigmoid, []),
    'gelu': ([{}, dict(approximate=True), dict(approximate=False)],
             lambda x, approximate=True: (
                 0.5 * (1 + np.tanh(math.sqrt(2 / math.pi) * (x + 0.044715 * x ** 3)))
                 if approximate else special.ndtr(x)), []),
    'mish': ([{}, dict(fast=True), dict(fast=False)],
             lambda x, fast=True: np.tanh(softplus(x)), []),
    'serf': ([{}], lambda x: special.erf(softplus(x)), []),
    'shifted_softplus': ([{}], ssp_gate, []),
    'hard_tanh': ([{}], lambda x: np.where(np.abs(x) > 1, 1 / np.maximum(np.abs(x), 1), 1.0), [-1, 1]),
    'soft_sign': ([{}], lambda x: 1 / (np.abs(x) + 1), [0]),
    'relu6': ([{}], lambda x: np.where(x > 0, np.minimum(1.0, 6 / np.maximum(x, 1)), 0.0), [0, 6]),
    'hard_silu': ([{}], hard_sigmoid, [-3, 3]),
    'hard_swish': ([{}], hard_sigmoid, [-3, 3]),
    'bent_identity': ([{}], lambda x: x / (2 * (np.sqrt(x * x + 1) + 1)) + 1, []),
}
DIFF_GATES = ('elu', 'selu', 'celu')  # quotient rule loses eps/|x| near zero


def scalars(env, n):
  rng = env.rng
  parts = [
      rng.normal(size=n // 4) * 3, rng.uniform(-9, 9, size=n // 4),
      np.sign(rng.normal(size=n // 4)) * 10.0 ** rng.uniform(-12, 0, size=n // 4),
      np.sign(rng.normal(size=n // 8)) * 10.0 ** rng.uniform(0, 2.5, size=n // 8),
      np.sign(rng.normal(size=n // 8)) * 10.0 ** rng.uniform(2, 12, size=n // 8)]
  special_ = [0.0, -0.0, 1.0, -1.0, 3.0, -3.0, 6.0, -6.0, 0.1, -0.1, 0.5, -0.5, 2.0, -2.0,
              1e-7, -1e-7, 2e-7, -2e-7, 1e-30, -1e-30, 1e12, -1e12, 88.0, -88.0, 89.0,
              -89.0, 104.0, -104.0, 710.0, -710.0, 746.0, -746.0, 20.0, -20.0, 1e-4,
              -1e-4, 1e-16, -1e-16, 5.999, 6.001, 1 + 1e-6, -1 - 1e-6]
  return np.concatenate(parts + [special_])


def values(mon, env, name, kw):
  rng = env.rng
  gate = GATES[name][1]
  f = getattr(e3x.nn, name)
  s = scalars(env, 160).astype(env.dtype)
  P, L = int(rng.integers(1, 3)), int(rng.integers(0, 4))
  x = nets.features(rng, env.dtype, (), P, L, len(s))
  x[0, 0] = s
  mon.begin(fn=name, kw=kw, P=P, L=L)
  y = np.asarray(mon.call(name, f, jnp.asarray(x), **kw))
  mon.expect('shape and precision', y.shape == x.shape and y.dtype == env.dtype,
             '%s %s' % (y.shape, y.dtype))
  s64 = s.astype(np.float64)
  with np.errstate(all='ignore'):
    g = gate(s64, **kw)
  tol = 16 * env.eps
  # The gate is accurate in absolute terms; arguments of tanh/erf are rounded.
  sc = np.abs(s64) * np.minimum(1.0, np.abs(g) * (1 + np.abs(s64)) + env.eps)
  if name == 'gelu':  # 1 + tanh/erf: absolute accuracy of the gate
    sc = np.abs(s64)
  mon.close('activated scalar', y[0, 0], g * s64, tol,
            scale=np.maximum(sc, np.abs(g * s64)) + 1e-30)
  mon.close('common gate', y, x.astype(float) * g, tol,
            scale=np.abs(x.astype(float)) * np.maximum(1.0, np.abs(g)) + 1e-30)
  # Exactly one gate per feature: ratios agree to rounding.
  big = np.abs(x) > 1e-20
  with np.errstate(all='ignore'):
    ratio = np.where(big, y.astype(float) / x, np.nan).reshape(-1, len(s))
    spread = np.nanmax(ratio, axis=0) - np.nanmin(ratio, axis=0)
    ref_ = np.nanmax(np.abs(ratio), axis=0)
  if ratio.shape[0] > 1:
    mon.close('one gate for all components', np.nan_to_num(spread), np.zeros(len(s)), 4 * env.eps,
              scale=np.nan_to_num(ref_) + 1e-30)
  mon.finite('finite values', y)
  # Batch/feature independence.
  i = int(rng.integers(len(s)))
  x2 = x.copy()
  j = (i + 1) % len(s)
  x2[..., j] = rng.normal(size=x2[..., j].shape)
  y2 = np.asarray(mon.call(name, f, jnp.asarray(x2), **kw))
  keep = np.arange(len(s)) != j
  mon.close('features are independent', y2[..., keep], y[..., keep], 0.0)
  xb = np.stack([x, x2])
  yb = np.asarray(mon.call(name, f, jnp.asarray(xb), **kw))
  mon.close('batch entries are independent', yb, np.stack([y, y2]), 4 * env.eps,
            scale=np.abs(np.stack([y, y2])) + 1e-30)


def gradients(mon, env, name, kw):
  """d out_c/d in_c = gate, d out_c/d s = gate'(s) x_c (+ gate for c = s)."""
  rng = env.rng
  gate, kinks = GATES[name][1], GATES[name][2]
  f = getattr(e3x.nn, name)
  s = scalars(env, 64).astype(env.dtype)
  x = nets.features(rng, env.dtype, (), 1, 1, len(s))
  x[0, 0] = s
  mon.begin(fn=name, kw=kw, what='gradient')
  c = rng.normal(size=x.shape).astype(env.dtype)
  fn = lambda v: jnp.sum(f(v, **kw) * c)
  gr = np.asarray(mon.call('gradient', jax.jit(jax.grad(fn)), jnp.asarray(x)), np.float64)
  mon.finite('finite gradients', gr, case_s=s)
  t = np.asarray(mon.call('jvp', jax.jit(lambda v: jax.jvp(fn, (v,), (jnp.ones_like(v),))[1]), jnp.asarray(x)))
  mon.finite('finite forward derivative', t)
  s64 = s.astype(np.float64)
  with np.errstate(all='ignore'):
    g = gate(s64, **kw)
    h = np.maximum(np.abs(s64) * 1e-4, 1e-5)
    dg = (8 * (gate(s64 + h, **kw) - gate(s64 - h, **kw))
          - (gate(s64 + 2 * h, **kw) - gate(s64 - 2 * h, **kw))) / (12 * h)
  mon.close('gradient w.r.t. gated components', gr[0, 1:], c[0, 1:].astype(float) * g,
            16 * env.eps, scale=np.abs(c[0, 1:]) * np.maximum(1, np.abs(g)) + 1e-30)
  smooth = np.ones(len(s), bool)
  for k in kinks:
    smooth &= np.abs(s64 - k) > 3 * h
  smooth &= np.abs(s64) < 1e4
  mix = np.sum(c[0, 1:].astype(float) * x[0, 1:], axis=0)
  absmix = np.sum(np.abs(c[0, 1:].astype(float) * x[0, 1:]), axis=0)
  want = c[0, 0] * (g + s64 * dg) + mix * dg
  err = 64 * env.eps * (np.abs(c[0, 0]) * (np.abs(g) + np.abs(s64 * dg) + 1) * (1 + np.abs(s64)) + absmix)
  if name in DIFF_GATES:
    err = err + 8 * env.eps / np.maximum(np.abs(s64), env.eps) * absmix
  err = err + 3e-9 * (1 + absmix)
  mon.close('gradient w.r.t. scalar', gr[0, 0][smooth], want[smooth], 1.0, scale=err[smooth])


def huge(mon, env, name, kw):
  """Largest finite scalars for functions whose documented formula stays finite."""
  f = getattr(e3x.nn, name)
  top = float(np.finfo(env.dtype).max)
  vals = [1e20, -1e20, 1e30, -1e30, top / 16, -top / 16]
  if name in ('gelu', 'bent_identity'):
    vals = [1e12, -1e12]
  s = np.asarray(vals, env.dtype)
  x = np.zeros((1, 4, len(s)), env.dtype)
  x[0, 0] = s
  x[0, 1:] = 1.5
  mon.begin(fn=name, kw=kw, what='huge')
  y = mon.call(name, f, jnp.asarray(x), **kw)
  with np.errstate(all='ignore'):
    g = GATES[name][1](s.astype(np.float64), **kw)
  mon.close('huge scalars', y, x.astype(float) * g, 16 * env.eps,
            scale=np.abs(x.astype(float)) * np.maximum(np.abs(g), 1))
  gr = mon.call('gradient', jax.jit(jax.grad(lambda v: jnp.sum(f(v, **kw)[0, 1:]))), jnp.asarray(x))
  mon.finite('finite gradients for huge scalars', gr)
  gr = mon.call('gradient', jax.jit(jax.grad(lambda v: jnp.sum(f(v, **kw)[0, 0]))), jnp.asarray(x))
  mon.finite('finite gradients for huge scalars', gr)


def pseudo(mon, env, name, kw):
  """The odd scalar and all others are gated by the even scalar only."""
  rng = env.rng
  f = getattr(e3x.nn, name)
  x = nets.features(rng, env.dtype, (2,), 2, 2, 3)
  mon.begin(fn=name, kw=kw, what='pseudotensors')
  y = np.asarray(mon.call(name, f, jnp.asarray(x), **kw))
  flip = x.copy()
  flip[:, 1] *= -1
  z = np.asarray(mon.call(name, f, jnp.asarray(flip), **kw))
  mon.close('odd components do not gate', z[:, 0], y[:, 0], 0.0)
  mon.close('odd components are gated linearly', z[:, 1], -y[:, 1], 0.0)


def invalid(mon, env, name):
  f = getattr(e3x.nn, name)
  for shape in ((3,), (1, 4), ()):
    mon.begin(fn=name, what='too few dimensions', shape=shape)
    mon.raises('dimensions', (ValueError,), f, jnp.zeros(shape, env.dtype))


def run(mon, env):
  jobs = [(n, kw) for n, v in GATES.items() for kw in v[0]]
  for r in range(env.n(1, 40)):
    for i, (n, kw) in enumerate(jobs):
      if env.mine(i + r) and mon.time_left():
        mon.section('values', values, mon, env, n, kw)
        mon.section('gradients', gradients, mon, env, n, kw)
        mon.section('huge', huge, mon, env, n, kw)
        mon.section('pseudo', pseudo, mon, env, n, kw)
        mon.section('invalid', invalid, mon, env, n)
