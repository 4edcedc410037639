"""P22: derivative and inverse helpers return the exact quantities."""
import math

import jax
import jax.numpy as jnp
import mpmath
import numpy as np

import e3x

mp = mpmath.mp.clone()
mp.dps = 60


# ------------------------------------------------------------------ test functions
def simple():
  """name -> (function, order -> derivative (numpy), interval)."""
  out = {
      'sin': (jnp.sin, lambda k: lambda x: np.sin(x + k * np.pi / 2), (-6, 6)),
      'cos': (jnp.cos, lambda k: lambda x: np.cos(x + k * np.pi / 2), (-6, 6)),
      'exp': (jnp.exp, lambda k: np.exp, (-5, 3)),
      'exp(-3x)': (lambda x: jnp.exp(-3 * x), lambda k: lambda x: (-3.0) ** k * np.exp(-3 * x), (-1, 2)),
      '1/x': (lambda x: 1 / x, lambda k: lambda x: (-1.0) ** k * math.factorial(k) / x ** (k + 1), (0.5, 4)),
      'log': (jnp.log, lambda k: (lambda x: np.log(x)) if k == 0 else (
          lambda x: (-1.0) ** (k - 1) * math.factorial(k - 1) / x ** k), (0.5, 4)),
      'x^5': (lambda x: x ** 5, lambda k: lambda x: (math.perm(5, k) * x ** (5 - k)) if k <= 5 else 0 * x, (-3, 3)),
      'sqrt': (jnp.sqrt, lambda k: lambda x: np.prod([0.5 - i for i in range(k)]) * x ** (0.5 - k), (0.5, 4)),
      'constant': (lambda x: jnp.full_like(x, 2.5), lambda k: lambda x: 0 * x + (2.5 if k == 0 else 0), (-2, 2)),
      'identity': (lambda x: x, lambda k: lambda x: x if k == 0 else 0 * x + (k == 1), (-2, 2)),
      '|x|': (jnp.abs, lambda k: lambda x: np.abs(x) if k == 0 else np.sign(x) if k == 1 else 0 * x, (-2, 2)),
  }
  return out


def expression(rng, depth):
  """Random analytic expression: (jax function, mpmath function, text)."""
  if depth == 0:
    if rng.integers(4) == 0:
      c = float(np.float32(rng.uniform(-2, 2)))
      return (lambda x: x * 0 + c), (lambda x: mp.mpf(c)), '%.4g' % c
    c, d = float(np.float32(rng.uniform(0.3, 1.5))), float(np.float32(rng.uniform(-1, 1)))
    return (lambda x: c * x + d), (lambda x: c * x + d), '(%.4g*x%+.4g)' % (c, d)
  k = rng.integers(8)
  a, A, s = expression(rng, depth - 1)
  if k < 5:
    j, m, n = [(jnp.sin, mp.sin, 'sin'), (jnp.tanh, mp.tanh, 'tanh'), (jnp.arctan, mp.atan, 'atan'),
               (lambda u: jnp.exp(-u * u), lambda u: mp.exp(-u * u), 'gauss'),
               (lambda u: jnp.log(1 + u * u), lambda u: mp.log(1 + u * u), 'log1p2')][k]
    return (lambda x: j(a(x))), (lambda x: m(A(x))), '%s(%s)' % (n, s)
  b, B, t = expression(rng, depth - 1)
  if k == 5:
    return (lambda x: a(x) * b(x)), (lambda x: A(x) * B(x)), '(%s*%s)' % (s, t)
  if k == 6:
    return (lambda x: a(x) - b(x)), (lambda x: A(x) - B(x)), '(%s-%s)' % (s, t)
  return (lambda x: a(x) / (2 + b(x) ** 2)), (lambda x: A(x) / (2 + B(x) ** 2)), '(%s/(2+%s^2))' % (s, t)


SHAPES = [(), (1,), (7,), (0,), (2, 3), (1, 4, 1), (2, 0, 3), (2, 1, 2, 2), (1, 1, 1, 1, 1)]


def evaluate(mon, rng, f, x, order):
  """Calls the helper directly, under jit or under vmap (same result)."""
  how = rng.integers(4)
  g = lambda x: e3x.ops.evaluate_derivatives(f, x, order)
  if how == 1:
    g = jax.jit(g)
  elif how == 2 and x.ndim:
    g = jax.vmap(g)
  elif how == 3:
    return mon.call('evaluate_derivatives', e3x.ops.evaluate_derivatives, f=f, x=x, max_order=order)
  return mon.call('evaluate_derivatives', g, x)


def check(mon, x, out, order, want, tol):
  mon.expect('list', isinstance(out, list) and len(out) == order + 1, 'length %d for order %d' % (len(out), order))
  for k, (y, w) in enumerate(zip(out, want)):
    y = np.asarray(y)
    mon.expect('dtype', y.dtype == x.dtype, '%s for %s' % (y.dtype, x.dtype))
    w = np.asarray(w, np.float64)
    mon.close('derivative' if k else 'value', y, w, tol, scale=1 + (np.max(np.abs(w)) if w.size else 0), order=k)


def closed(mon, env):
  rng, dtype = env.rng, env.dtype
  fs = simple()
  for name, (f, d, (lo, hi)) in fs.items():
    if not mon.time_left():
      return
    shape = SHAPES[rng.integers(len(SHAPES))]
    order = int(rng.integers(0, 9))
    x = np.asarray(rng.uniform(lo, hi, size=shape), dtype)
    mon.begin(function=name, shape=shape, order=order)
    out = evaluate(mon, rng, f, jnp.asarray(x), order)
    want = [d(k)(x.astype(np.float64)) for k in range(order + 1)]
    check(mon, x, out, order, want, 2000 * env.eps)


def composed(mon, env):
  rng, dtype = env.rng, env.dtype
  f, F, text = expression(rng, int(rng.integers(1, 4)))
  shape = [(), (3,), (2, 2), (1, 3)][rng.integers(4)]
  order = int(rng.integers(0, 6))
  x = np.asarray(rng.uniform(-2, 2, size=shape), dtype)
  mon.begin(expression=text, shape=shape, order=order)
  out = evaluate(mon, rng, f, jnp.asarray(x), order)
  cs = [mp.taylor(F, mp.mpf(float(v)), order) for v in x.ravel()]
  want = [np.array([float(c[k] * mp.factorial(k)) for c in cs]).reshape(shape) for k in range(order + 1)]
  check(mon, x, out, order, want, 2e5 * env.eps if env.x64 else 2e4 * env.eps)


def probing(mon, env):
  """The function is only ever evaluated at x, derivatives are elementwise, and
  custom derivative rules and random derivative towers are respected."""
  rng, dtype = env.rng, env.dtype
  order = int(rng.integers(0, 7))
  shape = [(4,), (2, 3)][rng.integers(2)]
  mon.begin(what='tower', order=order, shape=shape)
  vals = [rng.normal(size=shape).astype(dtype) for _ in range(order + 1)]

  def make(k):  # a function whose k-th derivative is exactly the given array
    @jax.custom_jvp
    def f(x):
      return jnp.asarray(vals[k]) + 0 * x
    @f.defjvp
    def _(p, t):
      return f(*p), (make(k + 1)(*p) if k < order else jnp.zeros_like(p[0])) * t[0]
    return f
  x = jnp.asarray(rng.normal(size=shape), dtype)
  before = np.asarray(x).copy()
  out = mon.call('evaluate_derivatives', e3x.ops.evaluate_derivatives, make(0), x, order)
  mon.expect('list', len(out) == order + 1, str(len(out)))
  for k in range(order + 1):
    mon.expect('tower', np.array_equal(np.asarray(out[k]), vals[k]), 'order %d of %d' % (k, order))
  mon.expect('input unchanged', np.array_equal(before, np.asarray(x)), 'input was modified')
  mon.raises('negative order', ValueError, e3x.ops.evaluate_derivatives, jnp.sin, x, -int(rng.integers(1, 5)))
  # Differentiable again: gradient of the k-th derivative is the next one.
  y = jnp.asarray(rng.uniform(-2, 2, size=shape), dtype)
  k = int(rng.integers(0, 4))
  g = mon.call('grad of derivative', jax.grad(lambda y: jnp.sum(e3x.ops.evaluate_derivatives(jnp.sin, y, k)[k])), y)
  mon.close('grad of derivative', g, np.sin(np.asarray(y, np.float64) + (k + 1) * np.pi / 2), 100 * env.eps, scale=1.0)


def programs(mon, env):
  """Functions defined by programs: loops with a data-dependent trip count, scans,
  branches, custom rules in either mode, complex arguments."""
  rng, dtype, eps = env.rng, env.dtype, env.eps

  def newton(x):  # square root by iteration to convergence, then polished
    step = lambda s: (0.5 * (s[0] + x / s[0]), s[1] + 1)
    y, _ = jax.lax.while_loop(lambda s: jnp.any(jnp.abs(s[0] * s[0] - x) > 1e-3 * x) & (s[1] < 60), step, (x, 0))
    for _ in range(5):
      y = 0.5 * (y + x / y)
    return y

  def horner(c):
    def f(x):
      y, _ = jax.lax.scan(lambda a, b: (a * x + b, None), jnp.zeros_like(x), jnp.asarray(c, x.dtype))
      return y
    return f

  def bounded(n):  # x^n, trip count only known at run time
    return lambda x: jax.lax.fori_loop(0, n, lambda i, a: a * x, jnp.ones_like(x))

  @jax.custom_jvp
  def jvp_sin(x):
    return jnp.sin(x)
  jvp_sin.defjvp(lambda p, t: (jvp_sin(*p), jnp.cos(p[0]) * t[0]))

  branch = lambda x: jax.lax.cond(jnp.sum(x) * 0 < 1, lambda x: jnp.exp(x), lambda x: -x, x)
  mapped = lambda x: jnp.reshape(jax.lax.map(jnp.sin, jnp.ravel(x)), x.shape)
  where = lambda x: jnp.where(x > 0, jnp.sin(x), jnp.where(x > 0, 1.0, x) ** 3)
  c = np.asarray(rng.normal(size=5), dtype)
  n = int(rng.integers(1, 6))
  poly = np.polynomial.Polynomial(c[::-1].astype(np.float64))
  fs = [
      ('newton', newton, lambda k: lambda x: np.prod([0.5 - i for i in range(k)]) * x ** (0.5 - k), (0.5, 4), 3),
      ('scan', horner(c), lambda k: lambda x: poly.deriv(k)(x) if k else poly(x), (-2, 2), 5),
      ('fori', lambda x: bounded(jnp.asarray(n))(x), lambda k: lambda x: math.perm(n, k) * x ** (n - k) if k <= n else 0 * x,
       (0.3, 2), 4),
      ('custom_jvp', jvp_sin, lambda k: lambda x: np.sin(x + k * np.pi / 2), (-6, 6), 5),
      ('cond', branch, lambda k: np.exp, (-3, 2), 4),
      ('map', mapped, lambda k: lambda x: np.sin(x + k * np.pi / 2), (-6, 6), 4),
      ('where', where, lambda k: lambda x: np.where(x > 0, np.sin(x + k * np.pi / 2),
                                                    math.perm(3, k) * x ** (3 - k) if k <= 3 else 0 * x), (-2, 2), 4),
  ]
  for name, f, d, (lo, hi), top in fs:
    if not mon.time_left():
      return
    shape = [(), (3,), (2, 2), (1, 3)][rng.integers(4)]
    order = int(rng.integers(1, top + 1))
    x = np.asarray(rng.uniform(lo, hi, size=shape), dtype)
    mon.begin(program=name, shape=shape, order=order)
    g = lambda x: e3x.ops.evaluate_derivatives(f, x, order)
    out = mon.call('evaluate_derivatives', jax.jit(g) if rng.integers(2) else g, jnp.asarray(x))
    check(mon, x, out, order, [d(k)(x.astype(np.float64)) for k in range(order + 1)], 2e4 * eps)
  # Analytic functions of complex arguments.
  shape = [(), (3,), (2, 2)][rng.integers(3)]
  z = rng.normal(size=shape) + 1j * rng.normal(size=shape)
  z = np.asarray(z, np.complex128 if env.x64 else np.complex64)
  order = int(rng.integers(1, 5))
  mon.begin(program='complex', shape=shape, order=order)
  out = mon.call('evaluate_derivatives', e3x.ops.evaluate_derivatives, lambda z: jnp.exp(1j * z) + z ** 2, jnp.asarray(z), order)
  mon.expect('list', len(out) == order + 1, str(len(out)))
  zz = z.astype(np.complex128)
  for k, y in enumerate(out):
    w = 1j ** k * np.exp(1j * zz) + (math.perm(2, k) * zz ** (2 - k) if k <= 2 else 0)
    y = np.asarray(y)
    s = 1 + np.max(np.abs(w))
    mon.close('complex derivative', y.real, w.real, 1000 * eps, scale=s, order=k)
    mon.close('complex derivative', y.imag, w.imag, 1000 * eps, scale=s, order=k)


def softplus(mon, env):
  rng, dtype, eps = env.rng, env.dtype, env.eps
  fi = np.finfo(dtype)
  hi = np.log10(float(fi.max)) - 0.5
  lo = np.log10(float(fi.tiny)) + 0.5
  parts = [10 ** rng.uniform(lo, hi, size=60), 10 ** rng.uniform(-4, 3, size=60), np.log(2) * (1 + rng.normal(size=10) * 1e-3),
           np.array([1e-30, 1e30, np.log(2), 1.0, 10.0, 16.0, 17.0, 20.0, 33.0, 36.0, 37.0, 50.0, 88.0, 89.0, 100.0, 104.0, 709.0, 710.0, 745.0, 746.0,
                     float(fi.eps), float(fi.max), float(fi.tiny) * 4])]
  x = np.asarray(np.concatenate(parts), dtype)
  shape = [x.shape, (1,) + x.shape, x.shape + (1,)][rng.integers(3)]
  x = x.reshape(shape)
  mon.begin(what='inverse_softplus', shape=shape, sample=float(x.ravel()[0]))
  f = e3x.ops.inverse_softplus
  if rng.integers(2):
    f = jax.jit(f)
  y = np.asarray(mon.call('inverse_softplus', f, jnp.asarray(x)))
  mon.expect('dtype', y.dtype == dtype and y.shape == x.shape, '%s %s' % (y.dtype, y.shape))
  mon.finite('finite', y)
  xs = x.ravel()
  want = np.array([float(mp.log(mp.expm1(mp.mpf(float(v)))) if v < 1000 else mp.mpf(float(v))) for v in xs]).reshape(shape)
  mon.close('inverse_softplus', y, want, 8 * eps, scale=np.maximum(np.abs(want), np.minimum(x, 1).astype(float)))
  # Round trip through softplus (as used for parameters), extended precision.
  back = np.array([float(mp.log1p(mp.exp(mp.mpf(float(v)))) if v < 1000 else mp.mpf(float(v))) for v in y.ravel()]).reshape(shape)
  mon.close('round trip', back, x.astype(np.float64), 8 * eps, scale=x.astype(np.float64) * (1 + np.abs(np.log(x.astype(np.float64)))
                                                                                            * (x < 1)))
  g = np.asarray(mon.call('derivative', jax.grad(lambda v: jnp.sum(f(v))), jnp.asarray(x)))
  wg = np.array([float(-1 / mp.expm1(-mp.mpf(float(v))) if v < 1000 else 1) for v in xs]).reshape(shape)
  mon.close('derivative of inverse', g, wg, 20 * eps, scale=wg)
  # Strictly monotone up to rounding, and scalars behave like arrays.
  s = np.sort(x.ravel())
  ys = np.asarray(f(jnp.asarray(s)))
  mon.expect('monotone', np.all(np.diff(ys.astype(float)) >= -8 * eps * np.maximum(np.abs(ys[1:]), 1)), 'not increasing')
  v = xs[rng.integers(len(xs))]
  one = np.asarray(mon.call('inverse_softplus', e3x.ops.inverse_softplus, jnp.asarray(v)))
  mon.close('scalar', one, want.ravel()[list(xs).index(v)], 8 * eps, scale=max(abs(want.ravel()[list(xs).index(v)]), min(float(v), 1)))


def run(mon, env):
  for _ in range(env.n(2, 60)):
    if not mon.time_left():
      return
    mon.section('closed', closed, mon, env)
    for _ in range(4):
      mon.section('composed', composed, mon, env)
    mon.section('probing', probing, mon, env)
    mon.section('programs', programs, mon, env)
    mon.section('softplus', softplus, mon, env)
