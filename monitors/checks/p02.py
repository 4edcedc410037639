"""P02: Clebsch-Gordan coefficients."""
import jax.numpy as jnp
import numpy as np

import e3x
from monitors import ref


def block_checks(mon, env, L1, L2, L3, cart, rots):
  tol = 20 * env.eps
  mon.begin(what='clebsch_gordan', L=(L1, L2, L3), cart=cart)
  c = np.asarray(mon.call('cg', e3x.so3.clebsch_gordan, L1, L2, L3,
                          cartesian_order=cart))
  mon.close('table', c, ref.cg(L1, L2, L3, cart), tol, scale=1.0)
  mon.expect('dtype', c.dtype == env.dtype, str(c.dtype))
  c = c.astype(np.float64)
  s1, s2, s3 = ref.slices(L1), ref.slices(L2), ref.slices(L3)
  for l1 in range(L1 + 1):
    for l2 in range(L2 + 1):
      for l3 in range(L3 + 1):
        b = c[s1[l1], s2[l2], s3[l3]]
        ok = abs(l1 - l2) <= l3 <= l1 + l2
        if not ok:
          mon.expect('triangle rule', np.all(b == 0), 'nonzero block %s' % ((l1, l2, l3),))
          continue
        g = np.einsum('abi,abj->ij', b, b)
        mon.close('orthonormal', g, np.eye(2 * l3 + 1), 4 * tol, scale=1.0)
        if L1 == L2:
          t = c[s1[l2], s2[l1], s3[l3]]
          mon.close('exchange symmetry', np.swapaxes(t, 0, 1),
                    (-1) ** (l1 + l2 - l3) * b, tol, scale=1.0)
  for R in rots:
    d1, d2, d3 = (ref.wigner(R, L, cart) for L in (L1, L2, L3))
    lhs = np.einsum('abk,ai,bj->ijk', c, d1, d2)
    rhs = np.einsum('ijc,kc->ijk', c, d3)
    mon.close('intertwines rotations', lhs, rhs, 40 * tol, scale=1.0)
  return c


def single(mon, env, n, top):
  for _ in range(n):
    l1, l2, l3 = (int(v) for v in env.rng.integers(0, top + 1, size=3))
    if env.rng.random() < 0.6:
      l3 = int(env.rng.integers(abs(l1 - l2), min(top, l1 + l2) + 1))
    cart = bool(env.rng.integers(2))
    mon.begin(what='clebsch_gordan_for_degrees', l=(l1, l2, l3), cart=cart)
    b = mon.call('cgd', e3x.so3.clebsch_gordan_for_degrees, l1, l2, l3,
                 cartesian_order=cart)
    mon.close('single block', b, ref.cg_block(l1, l2, l3, cart), 20 * env.eps, scale=1.0)
    # superset request, possibly with different maxima per factor
    a = np.minimum(top, np.array([l1, l2, l3]) + env.rng.integers(0, 3, size=3))
    c = mon.call('cg', e3x.so3.clebsch_gordan, int(a[0]), int(a[1]), int(a[2]),
                 cartesian_order=cart)
    sub = np.asarray(c)[ref.slices(l1)[l1], ref.slices(l2)[l2], ref.slices(l3)[l3]]
    mon.close('block of all-degree query', sub, b, 0.0, scale=1.0)


def vectors(mon, env, n):
  """Sign conventions on vectors: dot, cross, symmetric traceless product."""
  c = np.asarray(e3x.so3.clebsch_gordan(1, 1, 2, cartesian_order=True), np.float64)
  s = np.asarray(e3x.so3.clebsch_gordan(1, 1, 2, cartesian_order=False), np.float64)
  for _ in range(n):
    u, v = env.rng.normal(size=(2, 3))
    mon.begin(what='vector coupling', u=u, v=v)
    p = np.einsum('i,j,ijk->k', u, v, c[1:, 1:])
    tol = 30 * env.eps * 10
    mon.close('dot', p[0], u @ v / np.sqrt(3), tol)
    mon.close('cross', p[1:4], np.cross(u, v) / np.sqrt(2), tol)
    # Polarised harmonics: Y2(u+v) - Y2(u) - Y2(v) is bilinear, symmetric.
    y2 = (ref.solid(u + v, 2) - ref.solid(u, 2) - ref.solid(v, 2))[4:]
    k = (p[4:] @ y2) / (y2 @ y2)
    mon.close('symmetric product', p[4:], y2 * np.sqrt(1 / 6), tol)
    perm = [1, 2, 0]
    q = np.einsum('i,j,ijk->k', u[perm], v[perm], s[1:, 1:])
    mon.close('standard order', q, p[[0] + [2, 3, 1] + [5, 7, 8, 6, 4]], tol)
    del k


def run(mon, env):
  top = env.opts['tables_degree'].get('cg', 3)
  rots = [ref.random_rot(env.rng) for _ in range(2)]
  rots.append(ref.octahedral()[int(env.rng.integers(24))])
  i = 0
  for L1 in range(top + 1):
    for L2 in range(top + 1):
      for L3 in range(top + 1):
        i += 1
        if not env.mine(i):
          continue
        if not env.thorough and env.rng.random() < 0.35 and (L1, L2, L3) != (top,) * 3:
          continue
        for cart in ((True, False) if env.thorough or L1 + L2 + L3 < 6
                     else (bool(env.rng.integers(2)),)):
          if mon.time_left():
            mon.section('blocks', block_checks, mon, env, L1, L2, L3, cart, rots)
  for cart in (True, False):
    mon.section('full', block_checks, mon, env, top, top, top, cart, rots)
  mon.section('vectors', vectors, mon, env, env.n(10, 200))
  mon.section('single', single, mon, env, env.n(20, 400), top)
