"""P01: spherical and solid harmonics against the documented closed form."""
import jax
import jax.numpy as jnp
import numpy as np

import e3x
from monitors import ref

KINDS = ('racah', 'schmidt', '4pi', 'orthonormal')


def vectors(rng, n, lo=-3, hi=3):
  v = rng.normal(size=(n, 3))
  v *= 10.0 ** rng.uniform(lo, hi, size=(n, 1))
  return v


def special_vectors():
  out = []
  for a in (-1, 0, 1):
    for b in (-1, 0, 1):
      for c in (-1, 0, 1):
        if (a, b, c) != (0, 0, 0):
          out.append([a, b, c])
  out += [[1e-6, 1, 0], [0, 1e-6, 1], [1, 0, -1e-6], [1e-5, 1e-5, 1], [3, 4, 0],
          [0, 0, 7.5], [0, -2e3, 0]]
  return np.array(out, float)


def bound(env, L):
  """Error bound per component: monomial expansion loses digits with degree."""
  l = ref.degree_of(L)
  return 8 * env.eps * (l + 1) * 1.35 ** l


def values(mon, env, L):
  rng = env.rng
  tol = bound(env, L)
  big = 1e30 if not env.x64 else 1e250
  small = 1e-16 if not env.x64 else 1e-140
  fam = {
      'generic': vectors(rng, 24),
      'special': special_vectors()[:24],
      'special2': special_vectors()[-24:],
      'huge': vectors(rng, 24, 0, 1) * big,
      'tiny': vectors(rng, 24, 0, 1) * small,
      'mixed': np.concatenate([vectors(rng, 8, 0, 1) * big, vectors(rng, 8),
                               vectors(rng, 8, 0, 1) * small]),
      'batched': vectors(rng, 12).reshape(2, 1, 6, 3),
      'single': vectors(rng, 1)[0],
  }
  flip = bool(rng.integers(2))
  for name, v in fam.items():
    kinds = KINDS if name == 'generic' else (KINDS[rng.integers(4)],)
    for kind in kinds:
      flip = not flip
      for cart in ((True, False) if env.thorough else (flip,)):
        r = jnp.asarray(v, env.dtype)
        mon.begin(what='spherical_harmonics', L=L, family=name, kind=kind, cart=cart)
        y = mon.call('sph', e3x.so3.spherical_harmonics, r, L,
                     cartesian_order=cart, normalization=kind)
        n = np.array([ref.norm_const(kind, l) for l in ref.degree_of(L)])
        want = ref.sph(r, L, cart, kind)
        mon.close('spherical_harmonics', y, want, tol * n, scale=1.0)
        mon.expect('dtype', y.dtype == env.dtype, 'dtype %s' % y.dtype)
        if name == 'generic':
          u = np.asarray(r, np.float64)
          u = jnp.asarray(u / np.linalg.norm(u, axis=-1, keepdims=True), env.dtype)
          y2 = mon.call('sph', e3x.so3.spherical_harmonics, u, L,
                        r_is_normalized=True, cartesian_order=cart,
                        normalization=kind)
          mon.close('r_is_normalized', y2, want, tol * n * 2, scale=1.0)
  for cart in (True, False):
    v = np.concatenate([vectors(rng, 10, -1.0, 0.7), special_vectors()[rng.permutation(26)[:14]]])
    r = jnp.asarray(v, env.dtype)
    mon.begin(what='solid_harmonics', L=L, cart=cart)
    y = mon.call('solid', e3x.so3.solid_harmonics, r, L, cartesian_order=cart)
    d = np.linalg.norm(np.asarray(r, np.float64), axis=-1, keepdims=True)
    mon.close('solid_harmonics', y, ref.solid(r, L, cart), 1.0,
              scale=tol * d ** ref.degree_of(L) + 1e-300)


def elementwise(mon, env, L):
  """One vector's result does not depend on its batch companions."""
  rng = env.rng
  v = vectors(rng, 3)
  mates = np.array([[1e30, 0, 0], [0, 0, 0], [1e-16, 0, 0], [-4e2, 1, 5]])
  r = jnp.asarray(np.concatenate([v, mates]), env.dtype)
  mon.begin(what='elementwise', L=L)
  y = mon.call('sph', e3x.so3.spherical_harmonics, r, L)
  mon.finite('zero vector', y[4])
  for i in (0, 1, 2, 5, 6):
    one = mon.call('sph', e3x.so3.spherical_harmonics, r[i], L)
    mon.close('elementwise', y[i], one, 8 * bound(env, L), scale=1.0)


def derivatives(mon, env, L):
  rng = env.rng
  kind = KINDS[rng.integers(4)]
  cart = bool(rng.integers(2))
  fs = {
      'sph': (lambda r: e3x.so3.spherical_harmonics(
          r, L, cartesian_order=cart, normalization=kind),
              lambda r: ref.sph(r, L, cart, kind)),
      'solid': (lambda r: e3x.so3.solid_harmonics(r, L, cartesian_order=cart),
                lambda r: ref.solid(r, L, cart)),
  }
  v = np.concatenate([vectors(rng, 6, -0.5, 0.5), special_vectors()])
  v = v[np.linalg.norm(v, axis=-1) < 5]
  n = np.array([ref.norm_const(kind, l) for l in ref.degree_of(L)])
  for name, (f, g) in fs.items():
    r = jnp.asarray(v, env.dtype)
    mon.begin(what='gradient', fn=name, L=L, kind=kind, cart=cart)
    jac = mon.call('jacobian', jax.jit(jax.vmap(jax.jacrev(f))), r)
    jfw = mon.call('jacobian', jax.jit(jax.vmap(jax.jacfwd(f))), r)
    x = np.asarray(r, np.float64)
    d = np.linalg.norm(x, axis=-1)[:, None, None]
    h = 1e-5 * d[:, :, 0]
    fd = np.stack([(8 * (g(x + h * e) - g(x - h * e)) - (g(x + 2 * h * e) - g(x - 2 * h * e)))
                   / (12 * h) for e in np.eye(3)], axis=-1)
    l = ref.degree_of(L)[:, None]
    sc = (n[:, None] * (l + 1) / d) if name == 'sph' else (l + 1) * d ** np.maximum(l - 1, 0)
    tol = bound(env, L)[:, None] * 4 + 1e-9
    mon.close('gradient', jac, fd, 1.0, scale=tol * sc)
    mon.close('forward mode', jfw, fd, 1.0, scale=tol * sc)
    if L <= 6:
      z = jnp.concatenate([jnp.zeros((1, 3), env.dtype), r[:4], r[6:12]])
      mon.finite('gradient at zero', mon.call(
          'jac0', jax.jit(jax.vmap(jax.jacrev(f))), z))
      hess = mon.call('hessian', jax.jit(jax.vmap(jax.jacfwd(jax.jacrev(f)))), r)
      mon.finite('second derivative', hess)
      if name == 'solid':  # Laplace equation.
        tr = np.trace(np.asarray(hess, np.float64), axis1=-2, axis2=-1)
        mon.close('laplace', tr, np.zeros_like(tr), 1.0,
                  scale=bound(env, L) * 4 * (ref.degree_of(L) + 1) ** 2
                  * np.maximum(1, d[:, :, 0]) ** ref.degree_of(L))


def run(mon, env):
  top = 15
  todo = [L for L in range(top + 1)]
  for i, L in enumerate(todo):
    if env.mine(i):
      mon.section('values', values, mon, env, L)
      mon.section('elementwise', elementwise, mon, env, L)
      if L <= (15 if env.thorough else 9):
        mon.section('derivatives', derivatives, mon, env, L)
  if env.thorough:
    k = 0
    while mon.time_left() and k < 400:
      L = int(env.rng.integers(0, 16))
      mon.section('values', values, mon, env, L)
      if L <= 8:
        mon.section('derivatives', derivatives, mon, env, L)
      k += 1
