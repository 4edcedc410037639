"""P03: rotation constructors."""
import math

import jax
import jax.numpy as jnp
import numpy as np

import e3x
from monitors import ref


def proper(mon, env, label, R, tol):
  R = np.asarray(R, np.float64)
  mon.finite(label + ': finite', R)
  g = np.einsum('...ij,...kj->...ik', R, R)
  mon.close(label + ': orthogonal', g, np.broadcast_to(np.eye(3), g.shape), tol, scale=1.0)
  d = np.linalg.det(R)
  mon.close(label + ': determinant', d, np.ones_like(d), tol, scale=1.0)


def axis_angle(mon, env, n):
  rng = env.rng
  tol = 40 * env.eps
  axes = rng.normal(size=(n, 3)) * 10.0 ** rng.uniform(-6, 6, size=(n, 1))
  axes[:6] = np.concatenate([np.eye(3), -np.eye(3)])
  ang = rng.uniform(-2 * np.pi, 2 * np.pi, size=n)
  ang[::5] = rng.choice([0, np.pi, -np.pi, np.pi / 2, 2 * np.pi, 1e-4, np.pi - 1e-3], size=len(ang[::5]))
  a = jnp.asarray(axes, env.dtype)
  t = jnp.asarray(ang, env.dtype)
  mon.begin(what='rotation batch', n=n, seed_draw=float(ang[1]))
  R = mon.call('rotation', e3x.so3.rotation, a, t)
  proper(mon, env, 'rotation', R, tol)
  want = np.stack([ref.rot_axis(x, float(y)) for x, y in
                   zip(np.asarray(a, np.float64), np.asarray(t, np.float64))])
  mon.close('rotation', R, want, tol * 4, scale=1.0)
  for i in range(0, n, max(1, n // 4)):
    mon.begin(what='rotation', axis=axes[i], angle=ang[i])
    one = mon.call('rotation', e3x.so3.rotation, a[i], t[i])
    mon.close('rotation elementwise', one, R[i], tol, scale=1.0)
    f = mon.call('rotation', e3x.so3.rotation, a[i], float(ang[i]))
    mon.close('rotation float angle', f, want[i], tol * 6, scale=1.0)
  # one axis, many angles via broadcasting shapes (..., 3) and (...)
  a2 = jnp.broadcast_to(a[0], (2, 3, 3))
  R2 = mon.call('rotation', e3x.so3.rotation, a2, t[:6].reshape(2, 3))
  mon.expect('shape', R2.shape == (2, 3, 3, 3), str(R2.shape))
  g = mon.call('grad', jax.jit(jax.vmap(jax.jacrev(
      lambda x, y: e3x.so3.rotation(x, y), argnums=(0, 1)))), a, t)
  mon.finite('rotation gradient', g[0])
  mon.finite('rotation gradient', g[1])


def align(mon, env, n):
  rng = env.rng
  fam = {}
  u = rng.normal(size=(n, 3))
  fam['generic'] = (u, rng.normal(size=(n, 3)))
  fam['parallel'] = (u, u * rng.uniform(0.1, 10, size=(n, 1)))
  fam['antiparallel'] = (u, -u * rng.uniform(0.1, 10, size=(n, 1)))
  sp = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1], [-1, -1, -1], [1, 1, 0],
                 [1, -1, 0], [0, 1, 1], [1, 0, -1], [1, -1, 1], [2, 2, 2], [0, 0, -3]], float)
  sp = np.concatenate([sp] * (n // len(sp) + 1))[:n]
  fam['antiparallel special'] = (sp, -sp)
  fam['parallel special'] = (sp, sp)
  fam['axes'] = (sp, sp[rng.permutation(n)])
  fam['near antiparallel'] = (u, -u + rng.normal(size=(n, 3)) * 10.0 ** rng.uniform(-9, -0.5, size=(n, 1)))
  fam['near parallel'] = (u, u + rng.normal(size=(n, 3)) * 10.0 ** rng.uniform(-9, -0.5, size=(n, 1)))
  fam['scales'] = (u * 10.0 ** rng.uniform(-12, 12, size=(n, 1)),
                   rng.normal(size=(n, 3)) * 10.0 ** rng.uniform(-12, 12, size=(n, 1)))
  tol = 40 * env.eps
  for name, (a, b) in fam.items():
    ja, jb = jnp.asarray(a, env.dtype), jnp.asarray(b, env.dtype)
    mon.begin(what='alignment_rotation', family=name, first=(a[0], b[0]))
    R = mon.call('align', e3x.so3.alignment_rotation, ja, jb)
    proper(mon, env, 'alignment_rotation', R, tol)
    x, y = np.asarray(ja, np.float64), np.asarray(jb, np.float64)
    x = x / np.linalg.norm(x, axis=-1, keepdims=True)
    y = y / np.linalg.norm(y, axis=-1, keepdims=True)
    Rn = np.asarray(R, np.float64)
    mon.close('aligns', np.einsum('ni,nij->nj', x, Rn), y, tol, scale=1.0, msg=name)
    # Shortest arc: rotation angle equals the angle between the vectors.
    c = np.sum(x * y, -1)
    tr = (np.trace(Rn, axis1=-2, axis2=-1) - 1) / 2
    mon.close('shortest arc', tr, c, 4 * tol, scale=1.0, msg=name)
    for i in (0, n - 1):
      one = mon.call('align', e3x.so3.alignment_rotation, ja[i], jb[i])
      if 'anti' not in name:
        mon.close('align elementwise', one, Rn[i], 8 * tol, scale=1.0)
      else:
        proper(mon, env, 'alignment_rotation single', one, tol)
        mon.close('aligns', x[i] @ np.asarray(one, np.float64), y[i], tol, scale=1.0)
  mon.finite('align gradient', mon.call('grad', jax.jit(jax.vmap(jax.jacrev(
      e3x.so3.alignment_rotation))), jnp.asarray(fam['generic'][0], env.dtype),
                                        jnp.asarray(fam['generic'][1], env.dtype)))


def euler(mon, env, n):
  rng = env.rng
  a, b, c = rng.uniform(-np.pi, np.pi, size=(3, n))
  k = n // 2
  b[:k] = rng.choice([-1, 1], size=k) * (np.pi / 2 - rng.choice([0, 1], size=k)
                                         * 10.0 ** rng.uniform(-9, -1, size=k))
  sp = np.array([0, np.pi / 2, -np.pi / 2, np.pi, -np.pi])
  for i in range(k, min(n, k + 10)):
    a[i], b[i], c[i] = rng.choice(sp, size=3)
  ja, jb, jc = (jnp.asarray(v, env.dtype) for v in (a, b, c))
  mon.begin(what='rotation_euler', n=n, first=(a[0], b[0], c[0]))
  R = mon.call('euler', e3x.so3.rotation_euler, ja, jb, jc)
  proper(mon, env, 'rotation_euler', R, 40 * env.eps)
  want = np.stack([ref.rot_axis([1, 0, 0], x) @ ref.rot_axis([0, 1, 0], y)
                   @ ref.rot_axis([0, 0, 1], z) for x, y, z in
                   zip(*(np.asarray(v, np.float64) for v in (ja, jb, jc)))])
  mon.close('rotation_euler', R, want, 40 * env.eps, scale=1.0)
  mats = [np.asarray(R, np.float64)]
  mats.append(np.stack([ref.random_rot(rng) for _ in range(n)]))
  sr = ref.special_rots(rng)
  mats.append(np.stack((sr * (n // len(sr) + 1))[:n]))
  for m in mats:
    jm = jnp.asarray(m, env.dtype)
    mon.begin(what='euler_angles_from_rotation', first=m[0])
    ang = mon.call('angles', e3x.so3.euler_angles_from_rotation, jm)
    mon.expect('three angles', len(ang) == 3 and all(x.shape == (n,) for x in ang), '')
    back = mon.call('euler', e3x.so3.rotation_euler, *ang)
    s = np.asarray(jm, np.float64)[:, 0, 2]
    # arcsin loses half of the digits at gimbal lock
    cosb = np.sqrt(np.maximum(0.0, 1 - np.minimum(1.0, np.abs(s))) * 2)
    t = np.minimum(6 * np.sqrt(env.eps), 40 * env.eps / np.maximum(cosb, 1e-30)) + 20 * env.eps
    mon.close('euler round trip', back, np.asarray(jm, np.float64), 1.0,
              scale=t[:, None, None])


def random(mon, env, n):
  rng = env.rng
  for _ in range(n):
    key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
    num = int(rng.choice([1, 2, 3, 7]))
    p = float(rng.choice([0.0, 1.0, 0.5, rng.random(), 1e-3, -0.5, 1.7, 1 - 1e-6]))
    mon.begin(what='random_rotation', num=num, perturbation=p, key=int(key[1]))
    kw = dict(perturbation=p, num=num)
    R = mon.call('random', e3x.so3.random_rotation, key, **kw)
    mon.expect('shape', R.shape == ((3, 3) if num == 1 else (num, 3, 3)), str(R.shape))
    proper(mon, env, 'random_rotation', R, 30 * env.eps)
    R2 = mon.call('random', e3x.so3.random_rotation, key, **kw)
    mon.close('deterministic', R2, R, 0.0, scale=1.0)
    c = (np.trace(np.asarray(R, np.float64), axis1=-2, axis2=-1) - 1) / 2
    pc = min(1.0, max(0.0, p))
    mon.expect('angle bound', np.all(c >= math.cos(pc * math.pi) - 200 * env.eps),
               'turn larger than perturbation*180 degrees: cos %s' % c)
    if p <= 0:
      mon.close('no perturbation', R, np.broadcast_to(np.eye(3), R.shape), 4 * env.eps, scale=1.0)
    # The turn grows in proportion to the perturbation (slerp from identity).
    full = mon.call('random', e3x.so3.random_rotation, key, num=num)
    cf = np.clip((np.trace(np.asarray(full, np.float64), axis1=-2, axis2=-1) - 1) / 2, -1, 1)
    mon.close('slerp angle', np.arccos(np.clip(c, -1, 1)), pc * np.arccos(cf),
              60 * math.sqrt(env.eps), scale=1.0)
    if num > 1:
      f = np.asarray(full, np.float64)
      d = max(np.min(np.max(np.abs(f[i] - f[j]), axis=(-1, -2))) for i in range(num) for j in range(i))
      mon.expect('samples differ', d > 1e-6, 'identical samples')


def uniform(mon, env):
  """Haar distribution at perturbation=1: moments of matrix entries and Wigner
  traces (mean of every nontrivial irrep must vanish), fixed seeds."""
  N = 20000
  key = jax.random.PRNGKey(int(env.rng.integers(2 ** 31)))
  mon.begin(what='uniformity', key=int(key[1]), N=N)
  R = np.asarray(mon.call('random', e3x.so3.random_rotation, key, num=N), np.float64)
  z = 6.5
  m = R.mean(0)
  mon.close('haar mean', m, np.zeros((3, 3)), z * math.sqrt(1 / 3 / N), scale=1.0)
  m2 = np.einsum('nij,nkl->ijkl', R, R) / N
  e = np.eye(3)
  mon.close('haar second moment', m2, np.einsum('ik,jl->ijkl', e, e) / 3,
            z * math.sqrt(0.2 / N), scale=1.0)
  # rotation angle density (1-cos t)/pi: P(t<=x) = (x - sin x)/pi
  t = np.sort(np.arccos(np.clip((np.trace(R, axis1=-2, axis2=-1) - 1) / 2, -1, 1)))
  cdf = (t - np.sin(t)) / math.pi
  ks = np.max(np.abs(cdf - (np.arange(N) + 0.5) / N))
  mon.expect('haar angle', ks < 3.0 / math.sqrt(N), 'KS distance %g' % ks)
  # image of a fixed vector is uniform: each coordinate uniform on [-1, 1]
  for v in np.eye(3):
    for k in range(3):
      u = np.sort((v @ R)[:, k])
      ks = np.max(np.abs((u + 1) / 2 - (np.arange(N) + 0.5) / N))
      mon.expect('haar image', ks < 3.0 / math.sqrt(N), 'KS distance %g' % ks)


def run(mon, env):
  for _ in range(env.n(2, 60)):
    if not mon.time_left():
      break
    mon.section('axis_angle', axis_angle, mon, env, 64)
    mon.section('align', align, mon, env, 48)
    mon.section('euler', euler, mon, env, 96)
    mon.section('random', random, mon, env, 12)
  mon.section('uniform', uniform, mon, env)
