"""Independent reference oracles (numpy float64 / exact integers), written from
the documented formulas.  Nothing here imports the library under test."""

import functools
import math

import numpy as np


# ---------------------------------------------------------------- index orders
def cart_perm(l):
  """Positions (in -l..l order) of the components in Cartesian order."""
  p = []
  for m in range(l, 0, -1):
    p += [l + m, l - m]
  return np.array(p + [l])


def full_perm(L):
  return np.concatenate([l * l + cart_perm(l) for l in range(L + 1)])


def degree_of(L):
  """Degree of each of the (L+1)**2 components."""
  return np.concatenate([np.full(2 * l + 1, l) for l in range(L + 1)])


def slices(L):
  return [slice(l * l, (l + 1) ** 2) for l in range(L + 1)]


def norm_const(kind, l):
  if kind in ('racah', 'schmidt'):
    return 1.0
  if kind == '4pi':
    return math.sqrt(2 * l + 1)
  if kind == 'orthonormal':
    return math.sqrt((2 * l + 1) / (4 * math.pi))
  raise ValueError(kind)


# ------------------------------------------------------------------- harmonics
def solid(r, L, cart=True, kind='racah'):
  """Solid harmonics (polynomials of degree l), by three-term recurrences."""
  r = np.asarray(r)
  if r.dtype != np.longdouble:
    r = r.astype(np.float64)
  x, y, z = r[..., 0], r[..., 1], r[..., 2]
  r2 = x * x + y * y + z * z
  out = np.zeros(r.shape[:-1] + ((L + 1) ** 2,), r.dtype)
  # unnormalised derivative Legendre polynomials Q[l][m] (homogenised)
  Q = {}
  for m in range(L + 1):
    Q[m, m] = np.full(x.shape, float(math.prod(range(1, 2 * m, 2)) or 1), x.dtype)
    for l in range(m + 1, L + 1):
      t = (2 * l - 1) * z * Q[l - 1, m]
      if l - 2 >= m:
        t = t - (l + m - 1) * r2 * Q[l - 2, m]
      Q[l, m] = t / (l - m)
  re, im = [np.ones_like(x)], [np.zeros_like(x)]
  for m in range(1, L + 1):
    re.append(x * re[-1] - y * im[-1])
    im.append(x * im[-1] + y * re[-2])
  for l in range(L + 1):
    for m in range(l + 1):
      c = norm_const(kind, l) * math.sqrt(
          math.factorial(l - m) / math.factorial(l + m))
      if m == 0:
        out[..., l * l + l] = c * Q[l, 0]
      else:
        out[..., l * l + l + m] = math.sqrt(2) * c * Q[l, m] * re[m]
        out[..., l * l + l - m] = math.sqrt(2) * c * Q[l, m] * im[m]
  if cart:
    out = out[..., full_perm(L)]
  return out


def sph(r, L, cart=True, kind='racah'):
  """Spherical harmonics of the direction of r (r must be nonzero)."""
  r = np.asarray(r, dtype=np.float64)
  s = np.max(np.abs(r), axis=-1, keepdims=True)
  u = r / s
  u = u / np.sqrt(np.sum(u * u, axis=-1, keepdims=True))
  return solid(u, L, cart, kind)


# -------------------------------------------------------------------- Wigner-D
@functools.lru_cache(None)
def _wigner_points(L):
  rng = np.random.default_rng(12345)
  pts = rng.normal(size=(6 * (2 * L + 1), 3))
  pts /= np.linalg.norm(pts, axis=-1, keepdims=True)
  y = solid(pts, L, cart=False)
  return pts, [np.linalg.pinv(y[:, s]) for s in slices(L)]


def wigner(rot, L, cart=True):
  """D with Y(r) @ D == Y(r @ rot), for any orthogonal rot (also improper)."""
  rot = np.asarray(rot, dtype=np.float64)
  pts, pinv = _wigner_points(L)
  y2 = solid(np.einsum('pi,...ij->...pj', pts, rot), L, cart=False)
  D = np.zeros(rot.shape[:-2] + ((L + 1) ** 2,) * 2)
  for l, s in enumerate(slices(L)):
    D[..., s, s] = pinv[l] @ y2[..., s]
  if cart:
    p = full_perm(L)
    D = D[..., p, :][..., :, p]
  return D


# -------------------------------------------------------------- Clebsch-Gordan
def complex_cg(j1, m1, j2, m2, j, m):
  """Racah's formula (Condon-Shortley convention)."""
  if m1 + m2 != m or j < abs(j1 - j2) or j > j1 + j2:
    return 0.0
  f = math.factorial
  pre = (2 * j + 1) * f(j + j1 - j2) * f(j - j1 + j2) * f(j1 + j2 - j)
  pre *= f(j + m) * f(j - m) * f(j1 - m1) * f(j1 + m1) * f(j2 - m2) * f(j2 + m2)
  num, den = 0, 1
  for k in range(max(0, j2 - j - m1, j1 - j + m2),
                 min(j1 + j2 - j, j1 - m1, j2 + m2) + 1):
    d = (f(k) * f(j1 + j2 - j - k) * f(j1 - m1 - k) * f(j2 + m2 - k)
         * f(j - j2 + m1 + k) * f(j - j1 - m2 + k))
    num, den = num * d + (-1) ** k * den, den * d
  # sqrt(pre / f(j1+j2+j+1)) * num/den, evaluated with one rounding
  val = math.sqrt((pre * num * num) / (f(j1 + j2 + j + 1) * den * den))
  return math.copysign(val, num)


def _to_complex(l):
  """U with Y_complex[m] = sum_mu U[m, mu] * Y_real[mu] (no extra phases)."""
  U = np.zeros((2 * l + 1, 2 * l + 1), complex)
  s = 1 / math.sqrt(2)
  U[l, l] = 1
  for m in range(1, l + 1):
    ph = (-1) ** m
    U[l + m, l + m] = ph * s
    U[l + m, l - m] = 1j * ph * s
    U[l - m, l + m] = s
    U[l - m, l - m] = -1j * s
  return U


@functools.lru_cache(None)
def _cg_block(l1, l2, l3):
  C = np.zeros((2 * l1 + 1, 2 * l2 + 1, 2 * l3 + 1))
  for m1 in range(-l1, l1 + 1):
    for m2 in range(-l2, l2 + 1):
      m3 = m1 + m2
      if abs(m3) <= l3:
        C[l1 + m1, l2 + m2, l3 + m3] = complex_cg(l1, m1, l2, m2, l3, m3)
  R = np.einsum('abc,ai,bj,ck->ijk', C, _to_complex(l1).conj(),
                _to_complex(l2).conj(), _to_complex(l3))
  R = R * (1j) ** (l1 + l2 - l3)
  assert np.max(np.abs(R.imag)) < 1e-12
  return np.ascontiguousarray(R.real)


def cg_block(l1, l2, l3, cart=True):
  """Real coupling coefficients of one degree triple."""
  l1, l2, l3 = int(l1), int(l2), int(l3)  # exact integers, never numpy ones
  if l3 < abs(l1 - l2) or l3 > l1 + l2:
    return np.zeros((2 * l1 + 1, 2 * l2 + 1, 2 * l3 + 1))
  b = _cg_block(l1, l2, l3)
  if cart:
    b = b[cart_perm(l1)][:, cart_perm(l2)][:, :, cart_perm(l3)]
  return b


def cg(L1, L2, L3, cart=True):
  out = np.zeros(((L1 + 1) ** 2, (L2 + 1) ** 2, (L3 + 1) ** 2))
  for l1 in range(L1 + 1):
    for l2 in range(L2 + 1):
      for l3 in range(abs(l1 - l2), min(L3, l1 + l2) + 1):
        out[slices(L1)[l1], slices(L2)[l2], slices(L3)[l3]] = cg_block(l1, l2, l3, cart)
  return out


# ------------------------------------------------------------------- rotations
def rot_axis(axis, angle):
  """Row-vector matrix: r @ R is r rotated counterclockwise about axis."""
  a = np.asarray(axis, np.float64)
  a = a / np.linalg.norm(a)
  K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
  Rcol = np.eye(3) + math.sin(angle) * K + (1 - math.cos(angle)) * K @ K
  return Rcol.T


def random_rot(rng):
  q = rng.normal(size=4)
  q /= np.linalg.norm(q)
  w, x, y, z = q
  return np.array([
      [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
      [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
      [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def octahedral():
  """The 24 proper rotations with entries in {-1, 0, 1}."""
  import itertools
  out = []
  for p in itertools.permutations(range(3)):
    for s in itertools.product((1, -1), repeat=3):
      M = np.zeros((3, 3))
      for i in range(3):
        M[i, p[i]] = s[i]
      if np.linalg.det(M) > 0:
        out.append(M)
  return out


def special_rots(rng):
  """Generic and special rotations."""
  out = octahedral()
  out += [rot_axis(rng.normal(size=3), math.pi) for _ in range(3)]
  out += [rot_axis(rng.normal(size=3), e) for e in (1e-2, 1e-4, 1e-7)]
  out += [rot_axis(v, t) for v in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1])
          for t in (0.3, 2 * math.pi / 3, math.pi - 1e-3)]
  return out


# -------------------------------------------------------------------- features
def parity_sign(P, L):
  """Sign of each (parity axis, component) under inversion."""
  l = degree_of(L)
  if P == 1:
    return ((-1.0) ** l)[None, :]
  return np.stack([np.ones_like(l, float), -np.ones_like(l, float)])


def transform_features(x, rot, improper=False, cart=True):
  """Applies an O(3) element to features (..., P, (L+1)**2, F)."""
  x = np.asarray(x, np.float64)
  P, n = x.shape[-3], x.shape[-2]
  L = int(round(math.sqrt(n))) - 1
  y = np.einsum('...plf,lk->...pkf', x, wigner(rot, L, cart))
  if improper:
    y = y * parity_sign(P, L)[..., None]
  return y


def to_full(x, L=None):
  """(..., 1 or 2, n, F) -> (..., 2, (L+1)**2, F) with proper parity placement."""
  x = np.asarray(x, np.float64)
  n = x.shape[-2]
  l_in = int(round(math.sqrt(n))) - 1
  if x.shape[-3] == 1:
    odd = (degree_of(l_in) % 2 == 1)[:, None]
    x = np.concatenate([np.where(odd, 0, x), np.where(odd, x, 0)], axis=-3)
  if L is not None:
    m = (L + 1) ** 2
    if m <= n:
      x = x[..., :m, :]
    else:
      pad = np.zeros(x.shape[:-2] + (m - n, x.shape[-1]))
      x = np.concatenate([x, pad], axis=-2)
  return x
