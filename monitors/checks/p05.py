"""P05: irreps <-> traceless symmetric tensors."""
import itertools
import math

import jax.numpy as jnp
import numpy as np
from scipy.special import eval_legendre

import e3x
from monitors import ref

KINDS = ('racah', 'schmidt', '4pi', 'orthonormal')


def contract(T, u, l):
  for _ in range(l):
    T = np.einsum('...i,...i->...', T, np.broadcast_to(u[(slice(None),) + (None,) * (T.ndim - 2)], T.shape))
  return T


def rotate_tensor(T, R, l):
  """Rotates all l trailing axes: T'[...j...] = sum_i T[...i...] R[i, j]."""
  for k in range(l):
    T = np.moveaxis(np.tensordot(T, R, axes=([T.ndim - l + k], [0])), -1, T.ndim - l + k)
  return T


def one(mon, env, l, cart, kind, shape):
  rng = env.rng
  tol = 30 * env.eps * (1 + l) * 1.4 ** l
  N = ref.norm_const(kind, l)
  tshape = (3,) * l if l else (1,)
  x = jnp.asarray(rng.normal(size=(*shape, 2 * l + 1)), env.dtype)
  mon.begin(what='round trip', l=l, cart=cart, kind=kind, shape=shape)
  kw = dict(cartesian_order=cart, normalization=kind)
  T = mon.call('i2t', e3x.so3.irreps_to_tensor, x, l, **kw)
  mon.expect('shape', T.shape == (*shape, *tshape), str(T.shape))
  mon.expect('dtype', T.dtype == env.dtype, str(T.dtype))
  Tn = np.asarray(T, np.float64)
  sT = max(1.0, np.max(np.abs(Tn)))
  back = mon.call('t2i', e3x.so3.tensor_to_irreps, T, l, **kw)
  mon.close('round trip', back, x, tol)
  if l >= 2:
    b = Tn.ndim - l
    for i, j in itertools.combinations(range(l), 2):
      mon.close('symmetric', np.swapaxes(Tn, b + i, b + j), Tn, 0.0, scale=sT)
    tr = np.trace(Tn, axis1=-2, axis2=-1)
    mon.close('traceless', tr, np.zeros_like(tr), tol, scale=sT)
  if 2 <= l <= 4:
    mon.expect('predicate accepts', bool(e3x.so3.is_traceless_symmetric(
        T, l, atol=1e-4 * sT)), 'rejected a converted tensor')
  # rotation covariance
  R = ref.random_rot(rng)
  D = ref.wigner(R, l, cart)[l * l:, l * l:]
  xr = jnp.asarray(np.asarray(x, np.float64) @ D, env.dtype)
  Tr = mon.call('i2t', e3x.so3.irreps_to_tensor, xr, l, **kw)
  mon.close('rotation', Tr, rotate_tensor(Tn, R, l) if l else Tn, 4 * tol, scale=sT)
  # harmonics of a vector -> traceless part of its outer power
  r = rng.normal(size=(*shape, 3))
  r = np.asarray(jnp.asarray(r, env.dtype), np.float64)
  y = jnp.asarray(ref.solid(r, l, cart, kind)[..., l * l:], env.dtype)
  Ty = np.asarray(mon.call('i2t', e3x.so3.irreps_to_tensor, y, l, **kw), np.float64)
  if l:
    u = rng.normal(size=(*shape, 3))
    S = Ty
    for _ in range(l):
      S = np.einsum('%s...i,%si->%s...' % ('ab'[:len(shape)], 'ab'[:len(shape)], 'ab'[:len(shape)]), S, u) \
          if len(shape) else np.tensordot(S, u, axes=([S.ndim - 1], [0]))
    nr, nu = np.linalg.norm(r, axis=-1), np.linalg.norm(u, axis=-1)
    c = np.sum(r * u, -1) / (nr * nu)
    cl = math.factorial(l) / math.prod(range(1, 2 * l, 2))
    mon.close('outer power', S, cl * (nr * nu) ** l * eval_legendre(l, c), 4 * tol,
              scale=(nr * nu * math.sqrt(3)) ** l)
  else:
    mon.close('outer power', Ty, np.ones((*shape, 1)), tol)
  # tensor -> irreps -> tensor
  T2 = mon.call('i2t', e3x.so3.irreps_to_tensor, mon.call(
      't2i', e3x.so3.tensor_to_irreps, jnp.asarray(Ty, env.dtype), l, **kw), l, **kw)
  mon.close('round trip tensor', T2, Ty, 4 * tol)
  # normalization and order conventions
  base = mon.call('i2t', e3x.so3.irreps_to_tensor, x, l, cartesian_order=cart,
                  normalization='racah')
  mon.close('normalization', Tn, np.asarray(base, np.float64) / N, tol, scale=sT)


def predicate(mon, env, l, n):
  rng = env.rng
  for _ in range(n):
    x = rng.normal(size=(2, 2 * l + 1))
    T = np.asarray(e3x.so3.irreps_to_tensor(jnp.asarray(x, env.dtype), l), np.float64)
    b = 1
    kind = ['ok', 'asym', 'trace', 'batch'][rng.integers(4)]
    mon.begin(what='is_traceless_symmetric', l=l, kind=kind, x=x[0])
    want = True
    if kind == 'asym':  # perturb one index pair only, keep all traces zero
      i, j = sorted(rng.permutation(l)[:2])
      P = np.zeros_like(T)
      idx = [int(v) for v in rng.integers(0, 3, size=l)]
      c, d = rng.permutation(3)[:2]
      idx[i], idx[j] = int(c), int(d)
      jdx = list(idx)
      jdx[i], jdx[j] = idx[j], idx[i]
      k = int(rng.integers(2))
      P[(k, *idx)] = 0.3
      P[(k, *jdx)] = -0.3
      T = T + P
      want = False
    elif kind == 'trace':  # symmetric tensor with trace
      v = rng.normal(size=3)
      S = v
      for _ in range(l - 1):
        S = np.multiply.outer(S, v)
      T = T + S[None] * np.array([0, 1]).reshape((2,) + (1,) * l)
      want = False
    elif kind == 'batch':
      T = T.reshape((2, 1) + (3,) * l)
    got = bool(mon.call('predicate', e3x.so3.is_traceless_symmetric,
                        jnp.asarray(T, env.dtype), l, atol=1e-3, rtol=1e-3))
    mon.expect('predicate', got == want, 'is_traceless_symmetric returned %s' % got)
    # tolerance is honoured
    if kind in ('asym', 'trace'):
      loose = bool(mon.call('predicate', e3x.so3.is_traceless_symmetric,
                            jnp.asarray(T, env.dtype), l, atol=1e3))
      mon.expect('predicate tolerance', loose, 'ignored atol')


def run(mon, env):
  top = env.n(6, 8)
  cases = [(l, c, k) for l in range(top + 1) for c in (True, False) for k in KINDS]
  shapes = [(), (3,), (2, 2)]
  for i, (l, c, k) in enumerate(cases):
    if env.mine(i // 2 if env.thorough else i) and mon.time_left():
      if not env.thorough and l >= 5 and k != KINDS[l % 4 if c else (l + 2) % 4]:
        continue
      mon.section('one', one, mon, env, l, c, k, shapes[int(env.rng.integers(3))])
  for l in (0, 1):
    mon.begin(what='predicate', l=l)
    mon.expect('predicate', bool(e3x.so3.is_traceless_symmetric(
        jnp.asarray(env.rng.normal(size=(4, 3) if l else (4, 1)), env.dtype), l)), 'low degree')
  for l in (2, 3, 4):
    mon.section('predicate', predicate, mon, env, l, env.n(4 if l < 4 else 2, 40 if l < 4 else 10))
