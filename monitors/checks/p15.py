"""P15: cutoff, damping, switch, window and mapping functions are correct."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import e3x
from monitors import jets
from monitors.jets import LD, PI, Jet


# ------------------------------------------------------------------- oracles
def o_smooth_cutoff(x, c):
  u = Jet.var(x) / LD(c)
  inside = u.c[0] < 1
  v = u.where(inside, 0)
  a = 1 - 1 / (1 - v * v)
  return a.exp().where(inside, 0), np.abs(a.c[0])


def o_cosine_cutoff(x, c):
  u = Jet.var(x) / LD(c)
  inside = u.c[0] < 1
  return (u.where(inside, 0) * PI).cossin()[0].__mul__(LD(0.5)).__add__(LD(0.5)).where(inside, 0), 0.0


def o_damping(x, gamma):
  z = Jet.var(x) * LD(gamma)
  pos = z.c[0] > 0
  z = z.where(pos, 1)
  zc = z.where(z.c[0] < 1000, 1000)
  # exp(z)-1 without cancellation
  em = zc.exp()
  em = Jet([np.expm1(zc.c[0])] + em.c[1:])
  a = -1 / em
  a = a.where(a.c[0] > -11000, -11000)
  f = a.exp().where(pos, 0)
  return f, np.abs(a.c[0])


def o_switch_jet(u):
  inside = (u.c[0] > 0) & (u.c[0] < 1)
  v = u.where(inside, LD(0.5))
  a = (1 / (1 - v) - 1 / v) * (np.sqrt(LD(3)) / 2)
  lo = a.where(a.c[0] < 0, 0)  # logistic without overflow
  hi = a.where(a.c[0] >= 0, 0)
  big = np.abs(a.c[0]) > 5000
  lo = lo.where(~big, -5000)
  hi = hi.where(~big, 5000)
  e = lo.exp()
  f = (e / (1 + e)).where(a.c[0] < 0, 1 / (1 + (-hi).exp()))
  return f.where(inside, (u.c[0] >= 1).astype(LD)), np.where(inside, np.abs(a.c[0]), 0)


def o_switch(x, x0, x1):
  return o_switch_jet((Jet.var(x) - LD(x0)) / (LD(x1) - LD(x0)))


def o_windows(kind, x, num, limit):
  k = np.arange(num, dtype=LD)
  l = LD(limit)
  X = Jet([np.expand_dims(c, -1) + 0 * k for c in Jet.var(x).c])
  if kind == 'smooth':
    t = (X - Jet.const(0, X)) * (LD(num) / l) - Jet([k + 0 * X.c[0]] + [0 * X.c[0]] * 3)
    a, la = o_switch_jet(t + 1)
    b, lb = o_switch_jet(t)
    return a - b, np.maximum(la, lb)
  t = X.c[0] * num / l - k
  if kind == 'triangular':
    v = np.maximum(1 - np.abs(t), 0)
    d = np.where(np.abs(t) < 1, -np.sign(t), 0) * num / l
  else:
    v = ((t >= 0) & (t <= 1)).astype(LD)
    d = 0 * v
  return Jet([v, d, 0 * v, 0 * v]), 0.0


# ----------------------------------------------------------------- workload
def axis(rng, dtype, knots, extra=()):
  """Distances from 0 to huge, exact knots and their float neighbours."""
  t = np.finfo(dtype)
  pts = [0, t.tiny, 1e-30, 1e-12, t.eps / 4, t.epsneg, t.eps, 1e-5, 1e-4, 1e-3, 0.003, 0.01, 0.03, 0.1, 1e3, 1e6, 1e12, 1e18]
  out = [np.array(pts, dtype), np.array(list(extra), dtype)]
  for k in knots:
    k = dtype(k)
    nb = [k, np.nextafter(k, dtype(-np.inf)), np.nextafter(k, dtype(np.inf))]
    nb += [k * dtype(1 + s * d) + dtype(0) for s in (-1, 1) for d in (2 * t.eps, 16 * t.eps, 1e-5, 1e-4, 1e-3, 1e-2)]
    out.append(np.array(nb, dtype))
  top = max(list(np.abs(knots)) + [1.0])
  out.append(rng.uniform(0, 1.2 * top, size=24).astype(dtype))
  out.append(np.linspace(0, 1.1 * top, 23).astype(dtype))
  out.append(np.exp(rng.uniform(-6, 3, size=12)).astype(dtype))
  return np.sort(np.concatenate(out))


def derivs(f, x, co):
  """Values and derivatives through several differentiation routes."""
  one = np.ones_like(x)
  ff = lambda g: lambda v: jax.jvp(g, (v,), (one,))[1]
  s = lambda g: jax.grad(lambda v: jnp.sum(g(v)))
  fs = lambda v: jnp.sum(f(v) * co, axis=-1) if co is not None else f(v)
  run = jax.jit(lambda v: (f(v), ff(f)(v), ff(ff(f))(v), s(fs)(v), s(s(fs))(v), ff(s(fs))(v), s(ff(fs))(v)))
  return [np.asarray(g) for g in run(x)]


def compare(mon, env, name, f, x, F, amp, s, mask=None, kink=None, c=8.0, num=None, mono=None, small=0.0, floor=1.0):
  """s: natural length scale, amp: size of the argument of the exponential."""
  eps, dtype, rng = env.eps, env.dtype, env.rng
  co = rng.normal(size=x.shape + (num,)).astype(dtype) if num else None
  y, y1, y2, r1, rr, fr, rf = mon.call(name, derivs, f, x, co)
  shape = x.shape + ((num,) if num else ())
  mon.expect('shape', y.shape == shape and y1.shape == shape and r1.shape == x.shape, 'shape %s' % (y.shape,))
  mon.expect('dtype', y.dtype == dtype, 'dtype %s' % y.dtype)
  for lab, v in (('values', y), ('first derivatives', y1), ('second derivatives', y2), ('reverse first derivatives', r1),
                 ('second derivatives rr', rr), ('second derivatives fr', fr), ('second derivatives rf', rf)):
    mon.finite(lab + ' finite', v)
  X = np.abs(x.astype(LD))
  if num:
    X = X[:, None]
    s = np.asarray(s)
  amp = np.asarray(amp) + 1.0
  D = [np.abs(F.d(k)) for k in range(4)]
  tol = []
  with np.errstate(all='ignore'):
    for k in range(3):
      # Error in the argument (relative to X + s) plus relative error of factors.
      tk = eps * c * (D[k] * amp * (k + 1) + (X + s) * D[k + 1] * (k + 1) + (floor / np.asarray(s, LD)) ** k + small / np.maximum(X, eps ** 0.5) ** k)
      tol.append(np.minimum(tk, 1e300).astype(float))
  keep = np.ones(x.shape, bool) if kink is None else ~kink
  vk = keep if mask is None else keep & mask
  mon.close('values', y[vk], F.d(0)[vk], 1.0, scale=tol[0][vk], function=name)
  mon.close('first derivatives', y1[keep], F.d(1)[keep], 1.0, scale=tol[1][keep], function=name)
  mon.close('second derivatives', y2[keep], F.d(2)[keep], 4.0, scale=tol[2][keep], function=name)
  if num:
    w1, w2 = np.sum(co * F.d(1), -1), np.sum(co * F.d(2), -1)
    t1, t2 = np.sum(np.abs(co) * tol[1], -1), np.sum(np.abs(co) * tol[2], -1)
  else:
    w1, w2, t1, t2 = F.d(1), F.d(2), tol[1], tol[2]
  mon.close('reverse-mode derivatives', r1[keep], w1[keep], 2.0, scale=t1[keep], function=name)
  for lab, v in (('rr', rr), ('fr', fr), ('rf', rf)):
    mon.close('second derivatives ' + lab, v[keep], w2[keep], 8.0, scale=t2[keep], function=name)
  if mono:
    d = np.diff(y.astype(np.float64)) * mono
    mon.expect('monotone', np.all(d >= -4 * eps), '%s is not monotone' % name, worst=float(d.min()))
    mon.expect('range', np.all((y >= 0) & (y <= 1 + 4 * eps)), '%s leaves [0,1]' % name)
  # Elementwise: eager, scalar and reshaped calls.
  e = np.asarray(mon.call(name, f, jnp.asarray(x)))
  mon.close('eager', e[vk], F.d(0)[vk], 1.0, scale=tol[0][vk], function=name)
  i = int(rng.integers(len(x)))
  if vk[i]:
    mon.close('scalar input', mon.call(name, f, jnp.asarray(x[i])), F.d(0)[i], 1.0, scale=tol[0][i], function=name)
  m = len(x) // 6 * 6
  z = np.asarray(mon.call(name, f, jnp.asarray(x[:m].reshape(2, 3, -1))))
  mon.expect('batched shape', z.shape == (2, 3, m // 6) + shape[1:], 'shape %s' % (z.shape,))
  z = z.reshape((m,) + shape[1:])
  mon.close('matrix input', z[vk[:m]], F.d(0)[:m][vk[:m]], 1.0, scale=tol[0][:m][vk[:m]], function=name)
  return y, y1, y2


def arg(env, v):
  """Parameters as Python floats or numpy scalars (range checks need values)."""
  return [float(v), env.dtype(v)][env.rng.integers(2)]


def length(env):
  v = [1.0, 0.3, 5.0, 12.5, 2.0, 1e-3, 1e4, float(np.exp(env.rng.uniform(-3, 4)))][env.rng.integers(8)]
  return float(env.dtype(v))


def cutoffs(mon, env, name):
  dtype, eps = env.dtype, env.eps
  c = length(env)
  mon.begin(function=name, cutoff=c)
  x = axis(env.rng, dtype, [c, c / 2], extra=[2 * c, 10 * c])
  a = arg(env, c)
  fn = getattr(e3x.nn, name)
  f = (lambda v: fn(v)) if c == 1.0 and env.rng.integers(2) else (lambda v: fn(v, a)) if env.rng.integers(2) else (
      lambda v: fn(v, cutoff=a))
  F, amp = (o_smooth_cutoff if name == 'smooth_cutoff' else o_cosine_cutoff)(x, c)
  # The cosine has a kink in its second derivative at the cutoff.
  kink = (np.abs(x.astype(float) / c - 1) < 4 * eps) if name == 'cosine_cutoff' else None
  y, y1, y2 = compare(mon, env, name, f, x, F, amp, c, kink=kink, mono=-1)
  mon.expect('one at zero', y[0] == 1.0, '%s(0)=%r' % (name, y[0]))
  out = x >= dtype(c)
  mon.expect('zero from the cutoff on', np.all(y[out] == 0), '%s is not zero beyond the cutoff' % name)
  out = x >= dtype(c) * dtype(1 + 2 * eps)
  mon.expect('zero derivatives beyond the cutoff', np.all(y1[out] == 0) and np.all(y2[out] == 0),
             '%s has nonzero derivatives beyond the cutoff' % name)
  at = x == dtype(c)
  mon.close('derivative at the cutoff', y1[at], 0 * y1[at], 16 * eps / c, scale=1.0)
  for bad in (0.0, -1.0, -c):
    mon.raises('nonpositive cutoff', ValueError, fn, jnp.asarray(x), bad)


def damping(mon, env):
  dtype, eps = env.dtype, env.eps
  g = float(dtype([1.0, 0.25, 5.0, 40.0, 1e-2, float(np.exp(env.rng.uniform(-3, 3)))][env.rng.integers(6)]))
  mon.begin(function='smooth_damping', gamma=g)
  x = axis(env.rng, dtype, [0.02 / g, 0.1 / g, 1 / g], extra=[3 / g, 10 / g, 1e2 / g])
  a = arg(env, g)
  f = (lambda v: e3x.nn.smooth_damping(v)) if g == 1.0 and env.rng.integers(2) else (
      lambda v: e3x.nn.smooth_damping(v, gamma=a))
  F, amp = o_damping(x, g)
  # 1-exp(-z) loses z relative digits, which the exponent amplifies.
  z = np.maximum(x.astype(LD) * g, 1e-9)
  amp = amp * (1 + 1 / z) + 1 / z
  y, y1, y2 = compare(mon, env, 'smooth_damping', f, x, F, amp, 1 / g)
  mon.expect('monotone', np.all(np.diff(y.astype(np.float64)) >= -64 * eps), 'damping is not monotone')
  mon.expect('range', np.all((y >= 0) & (y <= 1)), 'damping leaves [0,1]')
  mon.expect('zero with all derivatives at zero', y[0] == 0 and y1[0] == 0 and y2[0] == 0, 'damping is not zero at zero')
  mon.expect('one at infinity', np.all(y[x * g > 60] == 1), 'damping does not tend to one')


def switch(mon, env):
  dtype, eps, rng = env.dtype, env.eps, env.rng
  w = length(env)
  x0 = [0.0, 0.0, float(dtype(w * rng.uniform(0, 2))), float(dtype(-w * rng.uniform(0, 2))), float(dtype(30 * w))][rng.integers(5)]
  x1 = float(dtype(x0 + w))
  w = x1 - x0
  mon.begin(function='smooth_switch', x0=x0, x1=x1)
  x = axis(rng, dtype, [x0, x1, x0 + w / 2], extra=[x1 + w, x1 + 30 * w])
  x = np.sort(np.concatenate([x, (x0 + w * rng.uniform(-0.5, 1.5, size=24)).astype(dtype), (-x[:4]).astype(dtype)]))
  a, b = arg(env, x0), arg(env, x1)
  default = x0 == 0.0 and x1 == 1.0
  f = (lambda v: e3x.nn.smooth_switch(v)) if default else (lambda v: e3x.nn.smooth_switch(v, a, b))
  if not default and rng.integers(2):
    f = lambda v: e3x.nn.smooth_switch(v, x0=a, x1=b)
  F, amp = o_switch(x, x0, x1)
  y, y1, y2 = compare(mon, env, 'smooth_switch', f, x, F, amp, w + abs(x0), mono=1, floor=8.0 * (1 + abs(x0) / w)) if abs(x0) < 3 * w else (
      _far(mon, env, f, x, F, x0, w))
  mon.expect('zero below', np.all(y[x <= x0] == 0) and np.all(y1[x <= x0] == 0), 'switch is not zero below x0')
  mon.expect('one above', np.all(y[x >= x1] == 1) and np.all(y1[x >= x1] == 0), 'switch is not one above x1')
  # f(u) + f(1-u) = 1.
  u = rng.uniform(0, 1, size=16).astype(dtype)
  p = np.asarray(e3x.nn.smooth_switch(jnp.asarray(u))) + np.asarray(e3x.nn.smooth_switch(jnp.asarray(1 - u)))
  mon.close('symmetry', p, np.ones_like(p), 64 * eps, scale=1.0)
  for bad in ((x0, x0), (x1, x0), (x0, x0 - 1)):
    mon.raises('reversed limits', ValueError, e3x.nn.smooth_switch, jnp.asarray(x), *bad)


def _far(mon, env, f, x, F, x0, w):
  eps = env.eps
  y, y1, y2, r1, rr, fr, rf = mon.call('smooth_switch', derivs, f, x, None)
  for v in (y, y1, y2, r1, rr, fr, rf):
    mon.finite('finite', v)
  tol = 64 * eps * (1 + abs(x0) / w)
  mon.close('values', y, F.d(0), tol, scale=1.0)
  mon.close('first derivatives', y1, F.d(1), 8 * tol / w, scale=1.0)
  mon.close('reverse-mode derivatives', r1, F.d(1), 8 * tol / w, scale=1.0)
  mon.expect('monotone', np.all(np.diff(y.astype(np.float64)) >= -4 * eps), 'smooth_switch is not monotone')
  return y, y1, y2


def windows(mon, env, kind):
  dtype, eps, rng = env.dtype, env.eps, env.rng
  num = int([1, 2, 3, 4, 5, 8, 16, 33][rng.integers(8)])
  l = length(env)
  name = kind + '_window'
  mon.begin(function=name, num=num, limit=l)
  fn = getattr(e3x.nn, name)
  a = arg(env, l)
  f = (lambda v: fn(v, num)) if l == 1.0 and rng.integers(2) else (lambda v: fn(v, num, limit=a))
  x = np.concatenate([axis(rng, dtype, [l / num, l, l / 2]), (l / num * np.arange(num + 2)).astype(dtype),
                      (l / num * (np.arange(num + 1) + 0.5)).astype(dtype), np.array([3 * l, 40 * l], dtype)])
  x = np.sort(x)
  F, amp = o_windows(kind, x, num, l)
  t = x.astype(LD) * num / LD(l)
  near = np.abs(t - np.rint(t)) < 16 * eps * (num + 1) + 4 * eps * np.abs(t)
  far = t > num + 2
  kink = (near & ~far) if kind != 'smooth' else None
  mask = ~kink if kind == 'rectangular' else None
  if kind == 'triangular':  # values are continuous at the kinks
    y = np.asarray(mon.call(name, f, jnp.asarray(x)))
    mon.close('values at kinks', y[kink], F.d(0)[kink], 16 * eps * (num + 1), scale=1.0)
  if kind == 'smooth':
    y, y1, y2 = compare(mon, env, name, f, x, F, amp, (1.0 + 0 * x[:, None]) * l / num + 0 * F.d(0), num=num, c=16.0 * (num + 1), floor=8.0)
  else:
    y, y1, y2 = compare(mon, env, name, f, x, F, amp, l, mask=mask, kink=kink, num=num, c=8.0 * (num + 1))
  inner = (x >= 0) & (x <= dtype(l) * dtype(1 - 1 / num)) & (~near if kind == 'rectangular' else True)
  mon.close('partition of the range', y[inner].sum(-1), np.ones(inner.sum()), 16 * eps * num, scale=1.0)
  mon.expect('zero beyond the limit', np.all(y[x > dtype(l) * dtype(1 + 16 * eps)] == 0), '%s does not end at the limit' % name)
  if kind == 'rectangular':
    # Exactly representable bounds: both ends belong to the window.
    n = int(2 ** rng.integers(0, 5))
    b = float(2.0 ** rng.integers(-3, 4))
    x = (b * np.arange(-1, n + 2) / n).astype(dtype)
    y = np.asarray(mon.call(name, fn, jnp.asarray(x), n, b))
    k = np.arange(n) / n * b
    want = (x[:, None] >= k) & (x[:, None] <= k + b / n)
    mon.close('inclusive bounds', y, want.astype(dtype), 0.0, scale=1.0)


def mappings(mon, env, kind):
  dtype, eps, rng = env.dtype, env.eps, env.rng
  if kind in ('shifted', 'damped', 'cuspless'):
    name = 'reciprocal_mapping'
    mon.begin(function=name, kind=kind)
    f = (lambda v: e3x.nn.reciprocal_mapping(v)) if kind == 'shifted' and rng.integers(2) else (
        lambda v: e3x.nn.reciprocal_mapping(v, kind=kind))
    g = 1.0
    oracle = lambda x: jets.reciprocal(Jet.var(x), kind)
  else:
    name = 'exponential_mapping'
    cuspless = kind == 'exp-cuspless'
    g = float(dtype([1.0, 0.25, 2.5, 0.01, 20.0][rng.integers(5)]))
    mon.begin(function=name, gamma=g, cuspless=cuspless)
    a = arg(env, g)
    kw = dict(cuspless=True) if cuspless else {}
    f = (lambda v: e3x.nn.exponential_mapping(v, **kw)) if g == 1.0 and rng.integers(2) else (
        lambda v: e3x.nn.exponential_mapping(v, gamma=a, **kw))
    oracle = lambda x: jets.exponential(Jet.var(x), g, cuspless)
  t = float(eps ** 0.25)
  x = axis(rng, dtype, [1.0, t, 1 / g], extra=[30.0, 100.0, 1e4])
  F = oracle(x)
  amp = 0.0 if name == 'reciprocal_mapping' else np.minimum(g * x.astype(LD), 1e4) + g
  # The quotient's derivatives lose accuracy close to zero.
  small = 0.0
  kinkless = kind != 'damped'
  if not kinkless:
    small = 1.0
    y, y1, y2 = damped(mon, env, f, x, F)
  else:
    y, y1, y2 = compare(mon, env, name, f, x, F, amp, 1 / g if g > 1 else 1.0, mono=-1, small=small)
  mon.expect('one at zero', y[0] == 1, '%s(0)=%r' % (name, y[0]))
  mon.expect('zero at infinity', np.all(np.abs(y[x > 1e12]) < 1e-11), '%s does not vanish at infinity' % name)
  if kind == 'cuspless' or kind == 'exp-cuspless':
    mon.close('no cusp', y1[0], 0.0, 4 * eps * g, scale=1.0)
  if name == 'reciprocal_mapping':
    for bad in ('Shifted', '', 'exponential', None):
      mon.raises('unknown kind', ValueError, e3x.nn.reciprocal_mapping, jnp.asarray(x), kind=bad)


def damped(mon, env, f, x, F):
  eps = env.eps
  y, y1, y2, r1, rr, fr, rf = mon.call('reciprocal_mapping', derivs, f, x, None)
  for lab, v in (('values', y), ('first derivatives', y1), ('second derivatives', y2), ('reverse', r1), ('rr', rr), ('fr', fr), ('rf', rf)):
    mon.finite(lab + ' finite', v)
  X = np.maximum(x.astype(float), eps ** 0.25)
  mon.close('values', y, F.d(0), 8 * eps, scale=np.abs(F.d(0)).astype(float))
  # Truncation of the series (x**4/120) plus cancellation in the quotient.
  t1 = 32 * eps * (1 / X ** 1 / np.maximum(X, 1) + np.minimum(1, 1 / X)) + 2 * np.minimum(x.astype(float), 2 * eps ** 0.25) ** 3 / 30
  t2 = 32 * eps * (1 / X ** 2 + 1) + 2 * np.minimum(x.astype(float), 2 * eps ** 0.25) ** 2 / 10
  mon.close('damped first derivatives', y1, F.d(1), 1.0, scale=t1)
  mon.close('damped reverse-mode derivatives', r1, F.d(1), 1.0, scale=t1)
  for v in (y2, rr, fr, rf):
    mon.close('damped second derivatives', v, F.d(2), 1.0, scale=t2)
  d = -np.diff(y.astype(np.float64))
  mon.expect('monotone', np.all(d >= -4 * eps), 'reciprocal_mapping(damped) is not monotone', worst=float(d.min()))
  return y, y1, y2


def run(mon, env):
  work = [(cutoffs, ('smooth_cutoff',)), (cutoffs, ('cosine_cutoff',)), (damping, ()), (switch, ()), (switch, ())]
  work += [(windows, (k,)) for k in ('rectangular', 'triangular', 'smooth')]
  work += [(mappings, (k,)) for k in ('shifted', 'damped', 'cuspless', 'exp', 'exp-cuspless')]
  for r in range(env.n(3, 30)):
    for fn, args in work:
      if not mon.time_left():
        return
      mon.section(fn.__name__, fn, mon, env, *args)
