"""P14: radial basis functions match their documented formulas."""
import functools

import jax
import jax.numpy as jnp
import numpy as np

import e3x
from monitors import jets
from monitors.jets import LD, Jet

FAMILIES = ('bernstein', 'chebyshev', 'fourier', 'gaussian')


def variants():
  out = [('sinc', 'basic', {})]
  for f in FAMILIES:
    out.append((f, 'basic', {}))
    for kind in ('shifted', 'damped', 'cuspless'):
      for w in (False, True):
        out.append((f, 'reciprocal', dict(kind=kind, use_reciprocal_weighting=w)))
    for c in (False, True):
      for w in (False, True):
        out.append((f, 'exponential', dict(cuspless=c, use_exponential_weighting=w)))
  return out


def points(rng, dtype, limit, far):
  t = np.finfo(dtype)
  l = dtype(limit)
  x = np.concatenate([
      np.array([0, t.tiny, 1e-30, 1e-12, t.eps / 4, t.epsneg, t.eps, 4 * t.eps, 1e-5, 1e-3, 0.01, 0.1], dtype),
      np.linspace(0, limit, 9).astype(dtype), rng.uniform(0, limit, size=16).astype(dtype),
      np.array([l, np.nextafter(l, dtype(0)), np.nextafter(l, dtype(1e9)), l * dtype(1 - 1e-3), l * dtype(1 - 1e-5),
                l * dtype(1 + 1e-3), 2 * l, 10 * l], dtype),
      np.array(far, dtype), np.exp(rng.uniform(-8, 3, size=12)).astype(dtype)])
  return x


def oracle(family, mapping, kw, x, num, limit, gamma):
  """Jet of the basis (last axis num) and, for error bounds, derivatives in u."""
  X = Jet.var(x)
  weight = None
  if mapping == 'basic':
    u = X / LD(limit)
    t = u * 2 - 1
  else:
    if mapping == 'reciprocal':
      m = jets.reciprocal(X, kw['kind'])
      weighted = kw['use_reciprocal_weighting']
    else:
      m = jets.exponential(X, gamma, kw['cuspless'])
      weighted = kw['use_exponential_weighting']
    u, t = 1 - m, m * 2 - 1
    if weighted:
      weight = Jet([np.expand_dims(c, -1) for c in m.c])
  if family == 'chebyshev':
    if mapping == 'basic':
      far = u.c[0] > 1
      t = Jet([np.where(far, LD(k == 0), c) for k, c in enumerate(t.c)])
    f = jets.chebyshev(t, num)
  else:
    f = getattr(jets, family)(u, num)
  # Derivatives with respect to u, for bounds.
  uv = np.clip(u.c[0], 0, 1) if family in ('bernstein', 'chebyshev') or mapping != 'basic' else u.c[0]
  U = Jet.var(uv)
  g = jets.chebyshev(U * 2 - 1, num) if family == 'chebyshev' else getattr(jets, family)(U, num)
  if weight is not None:
    f = Jet([a for a in (f * weight).c])
  return f, u, g


def one(mon, env, family, mapping, kw, num):
  rng, dtype, eps = env.rng, env.dtype, env.eps
  limit = float(dtype([0.3, 1.0, 5.0, 12.5][rng.integers(4)])) if mapping == 'basic' else 4.0
  gamma = float(dtype([0.25, 1.0, 2.5][rng.integers(3)]))
  name = 'sinc' if family == 'sinc' else '%s_%s' % (mapping, family)
  kw = dict(kw)
  call = dict(kw)
  if mapping == 'basic':
    call['limit'] = limit if rng.integers(2) else dtype(limit)
  if mapping == 'exponential':
    call['gamma'] = gamma if rng.integers(2) else jnp.asarray(gamma, dtype)
  mon.begin(function=name, num=num, limit=limit if mapping == 'basic' else None,
            gamma=gamma if mapping == 'exponential' else None, **kw)
  far = [] if mapping == 'basic' and family == 'fourier' else [1e3, 1e6, 1e12 if mapping == 'basic' else 1e20]
  x = points(rng, dtype, limit, far)
  fn = getattr(e3x.nn, name)
  f = lambda v: fn(v, num, **call)
  one_ = np.ones_like(x)
  d1 = lambda v: jax.jvp(f, (v,), (one_,))[1]
  d2 = lambda v: jax.jvp(d1, (v,), (one_,))[1]
  co = rng.normal(size=x.shape + (num,)).astype(dtype)
  got = mon.call(name, jax.jit(lambda v: (f(v), d1(v), d2(v), jax.vjp(f, v)[1](co)[0])), x)
  y, y1, y2, r1 = [np.asarray(g) for g in got]
  F, u, g = oracle(family, mapping, kw, x, num, limit, gamma)
  mon.expect('shape', y.shape == x.shape + (num,), 'shape %s' % (y.shape,))
  mon.expect('dtype', y.dtype == dtype, 'dtype %s' % y.dtype)
  for lab, v in (('values finite', y), ('first derivatives finite', y1), ('second derivatives finite', y2),
                 ('reverse derivatives finite', r1)):
    mon.finite(lab, v)
  n = num
  X = x.astype(LD)[:, None]
  uu = np.abs(u.c[0])[:, None] + 1
  g0, g1, g2, g3 = [np.abs(g.d(k)) for k in range(4)]
  # Largest slopes of the family bound neighbours' error in the argument.
  s1 = {'bernstein': n, 'chebyshev': 2 * n, 'fourier': np.pi * n, 'gaussian': 3 * n, 'sinc': np.pi * n}[family]
  lg = 1 + np.log(n) * n if family == 'bernstein' else 4.0
  du = np.abs(u.d(1))[:, None]
  du2 = np.abs(u.d(2))[:, None]
  tol0 = eps * (8 + lg * 8 * np.maximum(g0, 1e-3) + 8 * uu * (g1 + s1))
  mon.close('values', y, F.d(0), 1.0, scale=tol0.astype(float))
  # First derivative: error of argument and of the mapping's own derivative.
  em = 0.0
  if kw.get('kind') == 'damped':
    em = 8 / np.maximum(X, eps ** 0.25) ** 2
  cheb = 0.0
  if family == 'chebyshev':
    # d/du cos(n arccos) has a removable singularity at the ends.
    w = np.maximum(1 - (2 * np.clip(u.c[0], 0, 1) - 1) ** 2, eps)[:, None]
    cheb = n * n / np.sqrt(w)
  bmask = np.where((u.c[0][:, None] < 4 * eps) | (u.c[0][:, None] > 1 - 4 * eps), 4 * n * n, 0) if family == 'bernstein' else 0
  tol1 = eps * (16 * du * (g1 * lg + uu * (g2 + s1 * s1) + s1 * lg + cheb + bmask) + (8 + em) * (g1 + g0 + 1)
                + 8 * (g0 + 1))
  # At the kink x = limit both one-sided derivatives are right; skip there.
  edge = np.zeros_like(x, bool)
  if mapping == 'basic':
    edge = np.abs(x.astype(float) / limit - 1) < 4 * eps
  far_in = np.isfinite(tol1.astype(float))
  keep = ~edge
  mon.close('first derivatives', y1[keep], F.d(1)[keep], 1.0, scale=tol1.astype(float)[keep])
  mon.close('reverse-mode derivatives', r1[keep], np.sum(co * F.d(1), axis=-1).astype(float)[keep], 2.0,
            scale=(np.sum(np.abs(co) * tol1, axis=-1) + 1e-30).astype(float)[keep])
  # Second derivatives: checked away from the ends of the range, loosely.
  mid = keep & (u.c[0] > 0.02) & (u.c[0] < 0.98)
  if mapping == 'basic' and family in ('fourier', 'gaussian'):
    mid = keep & (u.c[0] < 3)
  tol2 = eps * 400 * n * lg * ((du ** 2) * (g2 + s1 ** 2 + uu * (g3 + s1 ** 3) + 50 * n * n) + du2 * (g1 + s1 + uu * g2)
                               + (g0 + g1 + 1) * (1 + np.where(em > 0, 1 / np.maximum(X, eps ** 0.25) ** 2, 0)))
  if mid.any():
    mon.close('second derivatives', y2[mid], F.d(2)[mid], 1.0, scale=tol2.astype(float)[mid])
  # Elementwise: any shape, any neighbours.
  k = int(rng.integers(len(x)))
  z = mon.call(name, f, jnp.asarray(x[k]))
  mon.close('scalar input', z, y[k], 1.0, scale=tol0.astype(float)[k])
  q = mon.call(name, f, jnp.asarray(x[:12].reshape(3, 4)))
  mon.close('matrix input', q, y[:12].reshape(3, 4, num), 1.0, scale=tol0.astype(float)[:12].reshape(3, 4, num))


def structure(mon, env):
  """Bernstein: partition of unity; nesting of indices (first functions do not
  depend on num for chebyshev/fourier/sinc)."""
  rng, dtype, eps = env.rng, env.dtype, env.eps
  num = int(rng.integers(2, 40))
  mon.begin(what='structure', num=num)
  x = rng.uniform(0, 4, size=(5, 3)).astype(dtype)
  for name, kw in (('basic_bernstein', dict(limit=4.0)), ('reciprocal_bernstein', {}), ('exponential_bernstein', {})):
    y = mon.call(name, getattr(e3x.nn, name), x, num, **kw)
    mon.close('partition of unity', jnp.sum(y, -1), np.ones_like(x), eps * (50 + 8 * num * np.log(num + 1)))
    mon.expect('nonnegative', np.all(np.asarray(y) >= 0), name)
  for name in ('basic_chebyshev', 'basic_fourier', 'sinc', 'reciprocal_chebyshev', 'exponential_fourier'):
    kw = dict(limit=4.0) if name.startswith('basic') or name == 'sinc' else {}
    a = np.asarray(mon.call(name, getattr(e3x.nn, name), x, num, **kw))
    b = np.asarray(mon.call(name, getattr(e3x.nn, name), x, num - 1, **kw))
    mon.close('lower functions independent of num', a[..., :num - 1], b, 8 * eps * (num + 1) ** 2)
  # Default limit/gamma.
  for name, kw in (('basic_gaussian', dict(limit=1.0)), ('basic_bernstein', dict(limit=1.0)), ('sinc', dict(limit=1.0)),
                   ('exponential_gaussian', dict(gamma=1.0, cuspless=False, use_exponential_weighting=False)),
                   ('reciprocal_gaussian', dict(kind='shifted', use_reciprocal_weighting=False)),
                   ('exponential_bernstein', dict(gamma=1.0, cuspless=False, use_exponential_weighting=False)),
                   ('reciprocal_fourier', dict(kind='shifted', use_reciprocal_weighting=False))):
    a = mon.call(name, getattr(e3x.nn, name), x / 4, num)
    b = mon.call(name, getattr(e3x.nn, name), x / 4, num, **kw)
    mon.close('defaults', a, b, 4 * eps)


def run(mon, env):
  vs = variants()
  nums = [1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 24, 32, 48, 64]
  order = env.rng.permutation(len(vs))
  for rep in range(env.n(1, 12)):
    for i, j in enumerate(order):
      if not env.thorough and (i + env.shard) % 2:
        continue
      if not mon.time_left():
        return
      num = int(nums[env.rng.integers(len(nums))])
      fam, mp, kw = vs[j]
      mon.section(fam, one, mon, env, fam, mp, kw, num)
    mon.section('structure', structure, mon, env)
