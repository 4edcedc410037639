"""P04: Wigner-D matrices."""
import jax
import jax.numpy as jnp
import numpy as np

import e3x
from monitors import ref


def tol_of(env, L):
  return 60 * env.eps * (1 + ref.degree_of(L)) ** 2


def matrices(mon, env, L, cart):
  rng = env.rng
  rots = np.stack(ref.special_rots(rng) + [ref.random_rot(rng) for _ in range(10)])
  n = len(rots)
  r = jnp.asarray(rots, env.dtype)
  rot64 = np.asarray(r, np.float64)
  tol = tol_of(env, L)
  bound = tol[:, None] + 0 * tol[None, :]
  mon.begin(what='wigner_d', L=L, cart=cart, special=n)
  D = mon.call('wigner_d', e3x.so3.wigner_d, r, L, cartesian_order=cart)
  mon.expect('dtype', D.dtype == env.dtype, str(D.dtype))
  Dn = np.asarray(D, np.float64)
  mon.close('equals rotation of harmonics', Dn, ref.wigner(rot64, L, cart), 1.0, scale=bound)
  deg = ref.degree_of(L)
  off = deg[:, None] != deg[None, :]
  mon.expect('block diagonal', np.all(Dn[:, off] == 0), 'nonzero off-diagonal block')
  g = np.einsum('nij,nkj->nik', Dn, Dn)
  mon.close('orthogonal', g, np.broadcast_to(np.eye(g.shape[-1]), g.shape), 1.0, scale=4 * bound)
  ident = mon.call('wigner_d', e3x.so3.wigner_d, jnp.eye(3, dtype=env.dtype), L,
                   cartesian_order=cart)
  mon.close('identity', ident, np.eye((L + 1) ** 2), 1.0, scale=bound)
  # homomorphism
  p = rng.permutation(n)
  prod = jnp.asarray(rot64 @ rot64[p], env.dtype)
  Dp = mon.call('wigner_d', e3x.so3.wigner_d, prod, L, cartesian_order=cart)
  mon.close('product', Dp, Dn @ Dn[p], 1.0, scale=4 * bound)
  # rotates harmonics of the library itself
  v = jnp.asarray(rng.normal(size=(n, 3)), env.dtype)
  y = e3x.so3.spherical_harmonics(v, L, cartesian_order=cart, r_is_normalized=True)
  vr = jnp.asarray(np.einsum('ni,nij->nj', np.asarray(v, np.float64), rot64), env.dtype)
  yr = e3x.so3.spherical_harmonics(vr, L, cartesian_order=cart, r_is_normalized=True)
  sc = np.linalg.norm(np.asarray(v), axis=-1)[:, None] ** deg
  mon.close('harmonics rotate', np.einsum('ni,nij->nj', np.asarray(y, np.float64), Dn),
            yr, 1.0, scale=8 * tol * np.maximum(sc, 1e-30))
  # batching
  k = int(rng.integers(n))
  none = mon.call('wigner_d', e3x.so3.wigner_d, r[:0].reshape(0, 2, 3, 3), L, cartesian_order=cart)
  mon.expect('empty batch', none.shape == (0, 2, (L + 1)**2, (L + 1)**2), str(none.shape))
  one = mon.call('wigner_d', e3x.so3.wigner_d, r[k], L, cartesian_order=cart)
  mon.close('elementwise', one, Dn[k], 1.0, scale=bound)
  two = mon.call('wigner_d', e3x.so3.wigner_d, r[:6].reshape(2, 1, 3, 3, 3), L,
                 cartesian_order=cart)
  mon.close('batched', two, Dn[:6].reshape(2, 1, 3, *Dn.shape[1:]), 1.0, scale=bound)


def random_batches(mon, env, L, cart):
  r = jnp.asarray(np.stack([ref.random_rot(env.rng) for _ in range(24)]), env.dtype)
  mon.begin(what='wigner_d random', L=L, cart=cart, first=r[0])
  D = mon.call('wigner_d', e3x.so3.wigner_d, r, L, cartesian_order=cart)
  tol = tol_of(env, L)
  mon.close('equals rotation of harmonics', D,
            ref.wigner(np.asarray(r, np.float64), L, cart), 1.0,
            scale=tol[:, None] + 0 * tol)


def gradients(mon, env, L):
  rng = env.rng
  rots = np.stack(ref.octahedral()[::5] + [ref.random_rot(rng) for _ in range(3)])
  r = jnp.asarray(rots, env.dtype)
  mon.begin(what='gradient', L=L)
  jac = np.asarray(mon.call('jac', jax.jit(jax.vmap(jax.jacfwd(
      lambda m: e3x.so3.wigner_d(m, L, cartesian_order=True)))), r), np.float64)
  mon.finite('gradient', jac)
  # Along a rotation about axis a: dD = D(R) * generator.
  a = rng.normal(size=3)
  h = 1e-4
  K = (ref.rot_axis(a, h) - ref.rot_axis(a, -h)) / (2 * np.sin(h))
  dR = rots @ K
  G = (8 * (ref.wigner(ref.rot_axis(a, h), L) - ref.wigner(ref.rot_axis(a, -h), L))
       - (ref.wigner(ref.rot_axis(a, 2 * h), L) - ref.wigner(ref.rot_axis(a, -2 * h), L))) / (12 * h)
  want = ref.wigner(rots, L) @ G
  got = np.einsum('nijkl,nkl->nij', jac, dR)
  tol = tol_of(env, L)
  mon.close('directional derivative', got, want, 1.0,
            scale=(8 * tol * (1 + ref.degree_of(L)) ** 2 + 1e-9)[:, None] + 0 * tol)
  rev = mon.call('jac', jax.jit(jax.vmap(jax.grad(
      lambda m: jnp.sum(e3x.so3.wigner_d(m, L, cartesian_order=False) ** 2)))), r)
  mon.finite('gradient', rev)


def run(mon, env):
  top = env.opts['tables_degree'].get('wd', 2)
  cases = [(L, c) for L in range(top + 1) for c in (True, False)]
  for i, (L, c) in enumerate(cases):
    if env.mine(i):
      mon.section('matrices', matrices, mon, env, L, c)
  for L in range(top + 1):
    if env.mine(L):
      mon.section('gradients', gradients, mon, env, L)
  k = 0
  while mon.time_left() and k < env.n(6, 3000):
    L, c = cases[int(env.rng.integers(len(cases)))]
    mon.section('random', random_batches, mon, env, L, c)
    k += 1
