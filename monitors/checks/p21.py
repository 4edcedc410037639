"""P21: matrices assembled from irreps are equivariant and complete."""
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np


from e3x.matrix import matmat
from monitors import ref


def counts(degrees, top):
  """Number of irreps of each degree in the blocks, counted directly."""
  out = {}
  for a in degrees:
    for b in degrees:
      for l in range(top + 1):
        if abs(a - b) <= l <= a + b:
          out[l] = out.get(l, 0) + 1
  return out


def assemble(irreps, degrees, mult, shift):
  """Reference assembly in float64: entry (copy i of a, copy j of b) of block
  (a, b) takes column i * mult + j of the block's chunk of each degree."""
  side = sum(2 * l + 1 for l in degrees) * mult
  M = np.zeros((side, side))
  size = np.zeros_like(M)
  used = [0] * len(irreps)
  r0 = 0
  for a in degrees:
    c0 = 0
    for b in degrees:
      for l in range(abs(a - b), min(a + b, len(irreps) - 1) + 1):
        C = ref.cg_block(a, b, l)
        for i in range(mult):
          for j in range(mult):
            v = np.asarray(irreps[l], np.float64)[:, used[l] + i * mult + j]
            rs = slice(r0 + i * (2 * a + 1), r0 + (i + 1) * (2 * a + 1))
            cs = slice(c0 + j * (2 * b + 1), c0 + (j + 1) * (2 * b + 1))
            M[rs, cs] += C @ v
            size[rs, cs] += np.abs(C) @ np.abs(v)
        used[l] += mult * mult
      c0 += (2 * b + 1) * mult
    r0 += (2 * a + 1) * mult
  if shift:
    M += np.eye(side)
    size += np.eye(side)
  return M, size + 1e-30, used


def big_wigner(rot, degrees, mult):
  D = ref.wigner(rot, max(degrees))
  side = sum(2 * l + 1 for l in degrees) * mult
  out = np.zeros((side, side))
  s = 0
  for l in degrees:
    for _ in range(mult):
      out[s:s + 2 * l + 1, s:s + 2 * l + 1] = D[l * l:(l + 1) ** 2, l * l:(l + 1) ** 2]
      s += 2 * l + 1
  return out


def make_case(rng, top):
  kind = rng.integers(5)
  n = int(rng.integers(1, 5))
  high = int(rng.integers(0, top + 1))
  degrees = [int(d) for d in rng.integers(0, high + 1, size=n)]
  if kind == 0:
    degrees = sorted(degrees)
  elif kind == 1:
    degrees = sorted(degrees, reverse=True)
  elif kind == 2:
    degrees = [degrees[0]] * n
  mult = int(rng.integers(1, 4))
  if len(degrees) > 2 and mult == 3:
    mult = 2
  lo, hi = max(degrees), 2 * max(degrees)
  max_degree = int(rng.integers(lo, hi + 1))
  return degrees, mult, max_degree


def square(mon, env):
  rng, dtype, eps = env.rng, env.dtype, env.eps
  degrees, mult, max_degree = make_case(rng, env.opts['tables_degree']['cg'] // 2)
  shift = bool(rng.integers(2))
  precision = [None, 'high', 'highest', jax.lax.Precision.HIGHEST][rng.integers(4)]
  short = rng.integers(6) == 0 and max_degree > 0
  top = int(rng.integers(0, max_degree)) if short else max_degree  # irreps supplied up to here
  n = counts(degrees, top)
  mon.begin(degrees=degrees, mult=mult, max_degree=max_degree, supplied=top, shift=shift, precision=str(precision))
  got = mon.call('make_dict_irreps_mult', matmat.make_dict_irreps_mult, degrees, max_degree)
  full = counts(degrees, max_degree)
  mon.expect('multiplicities', {k: v for k, v in got.items() if v} == full, '%s instead of %s' % (dict(got), full))
  got = mon.call('make_dict_irreps_mult', matmat.make_dict_irreps_mult, degrees)
  mon.expect('multiplicities without limit', {k: v for k, v in got.items() if v} == counts(degrees, 2 * max(degrees)), str(dict(got)))
  sides = mon.call('compute_side_lengths', matmat.compute_side_lengths, degrees)
  mon.expect('side lengths', tuple(sides) == tuple(2 * l + 1 for l in degrees), str(sides))
  m2 = mult * mult
  scale = float([1.0, 1e-3, 1e3][rng.integers(3)])
  irreps = [np.asarray(scale * rng.normal(size=(2 * l + 1, n.get(l, 0) * m2)), dtype) for l in range(top + 1)]
  kw = dict(degrees=degrees if rng.integers(2) else tuple(degrees), mult=mult, max_degree=max_degree, shift_by_id=shift, precision=precision)
  f = functools.partial(matmat.make_square_matrix, **kw)
  if rng.integers(2):
    f = jax.jit(f)
  before = [a.copy() for a in irreps]
  M = np.asarray(mon.call('make_square_matrix', f, [jnp.asarray(a) for a in irreps]))
  mon.expect('inputs unchanged', all(np.array_equal(a, b) for a, b in zip(before, irreps)), 'inputs were modified')
  want, size, used = assemble(irreps, degrees, mult, shift)
  mon.expect('oracle consumes everything', [used[l] for l in range(top + 1)] == [n.get(l, 0) * m2 for l in range(top + 1)], 'oracle error')
  mon.close('blocks', M, want, 60 * eps, scale=size)
  # Isometry: every irrep appears exactly once (the map is injective).
  N = M.astype(np.float64) - (np.eye(len(M)) if shift else 0)
  total = sum(float((a.astype(np.float64) ** 2).sum()) for a in irreps)
  mon.close('norm is preserved', (N * N).sum(), total, 400 * eps, scale=total + (len(M) if shift else 0) + 1e-30)
  # Equivariance.
  rot = ref.random_rot(rng) if rng.integers(3) else ref.octahedral()[rng.integers(24)]
  D = ref.wigner(rot, max(top, max(degrees)))
  rotated = [np.asarray(D[l * l:(l + 1) ** 2, l * l:(l + 1) ** 2].T @ a.astype(np.float64), dtype) for l, a in enumerate(irreps)]
  Mr = np.asarray(mon.call('make_square_matrix', f, [jnp.asarray(a) for a in rotated]))
  B = big_wigner(rot, degrees, mult)
  mon.close('equivariance', Mr, B.T @ M.astype(np.float64) @ B, 200 * eps, scale=np.max(np.abs(B).T @ size @ np.abs(B)))
  # Linearity.
  other = [np.asarray(rng.normal(size=a.shape), dtype) for a in irreps]
  Mo = np.asarray(mon.call('make_square_matrix', f, [jnp.asarray(a) for a in other]))
  Ms = np.asarray(mon.call('make_square_matrix', f, [jnp.asarray(a + 2 * b) for a, b in zip(irreps, other)]))
  _, so, _ = assemble(other, degrees, mult, shift)
  I = np.eye(len(M)) if shift else 0
  mon.close('linearity', Ms - I, (M - I).astype(np.float64) + 2 * (Mo - I).astype(np.float64), 100 * eps, scale=size + 2 * so)
  # One single irrep: only its own block changes.
  l = int(rng.integers(0, top + 1))
  if irreps[l].shape[1]:
    c = int(rng.integers(irreps[l].shape[1]))
    one = [np.zeros_like(a) for a in irreps]
    one[l][:, c] = rng.normal(size=2 * l + 1)
    Mo = np.asarray(mon.call('make_square_matrix', f, [jnp.asarray(a) for a in one]))
    w, s, _ = assemble(one, degrees, mult, shift)
    mon.close('single irrep', Mo, w, 60 * eps, scale=s)
  # Reverse mode: the derivative is the transposed linear map.
  if rng.integers(3) == 0:
    g = rng.normal(size=M.shape).astype(dtype)
    back = mon.call('vjp', lambda: jax.vjp(f, [jnp.asarray(a) for a in irreps])[1](jnp.asarray(g, M.dtype)))[0]
    lhs = sum(float(np.sum(np.asarray(b, np.float64) * a)) for a, b in zip(other, back))
    rhs = float(np.sum(g.astype(np.float64) * (np.asarray(Mo_of(other, degrees, mult)))))
    mon.close('transposed map', lhs, rhs, 400 * eps, scale=float(np.sum(np.abs(g) * so)) + 1e-30)
  # Traces.
  X = np.asarray(scale * rng.normal(size=M.shape), dtype) if rng.integers(2) else M
  sb = bool(rng.integers(2))
  t = np.asarray(mon.call('get_traces', matmat.get_traces, jnp.asarray(X), degrees, mult, sb))
  w, sc = [], []
  s = 0
  for a in degrees:
    d = 2 * a + 1
    for i, j in itertools.product(range(mult), repeat=2):
      blk = X[s + i * d:s + (i + 1) * d, s + j * d:s + (j + 1) * d].astype(np.float64)
      w.append(np.trace(blk) - (d if sb and i == j else 0))
      sc.append(np.abs(np.diag(blk)).sum() + d)
    s += d * mult
  mon.close('traces', t, np.array(w), 8 * eps, scale=np.array(sc))
  # Traces only see scalars: invariant under conjugation.
  if np.array_equal(X, M) and shift == sb:
    t2 = np.asarray(mon.call('get_traces', matmat.get_traces, jnp.asarray(Mr), degrees, mult, sb))
    mon.close('traces are invariant', t2, t, 100 * eps * max(sum(size.max(0)), 1))


def Mo_of(irreps, degrees, mult):
  return assemble(irreps, degrees, mult, False)[0]


def rectangle(mon, env):
  rng, dtype, eps = env.rng, env.dtype, env.eps
  top = env.opts['tables_degree']['cg'] // 2
  la, lb = (int(x) for x in rng.integers(0, top + 1, size=2))
  mult = int(rng.integers(1, 4))
  l_max = int(rng.integers(0, la + lb + 2))
  m2 = mult * mult
  L = max(top, 1)
  cg = jnp.asarray(ref.cg(L, L, max(l_max, la + lb)), dtype)
  extra = int(rng.integers(0, 3))
  irreps = [np.asarray(rng.normal(size=(2 * l + 1, m2 + extra + 1)), dtype) for l in range(l_max + 1)]
  idx = [int(i) for i in rng.integers(0, extra + 2, size=l_max + 1)]
  start = list(idx)
  mon.begin(la=la, lb=lb, mult=mult, l_max=l_max, idx=start)
  R = np.asarray(mon.call('make_rectangular_matrix', matmat.make_rectangular_matrix, [jnp.asarray(a) for a in irreps], idx,
                          2 * la + 1, 2 * lb + 1, cg, mult, None))
  want = np.zeros(((2 * la + 1) * mult, (2 * lb + 1) * mult))
  size = np.zeros_like(want)
  moved = list(start)
  for l in range(abs(la - lb), min(la + lb, l_max) + 1):
    C = ref.cg_block(la, lb, l)
    for i, j in itertools.product(range(mult), repeat=2):
      v = irreps[l][:, start[l] + i * mult + j].astype(np.float64)
      rs = slice(i * (2 * la + 1), (i + 1) * (2 * la + 1))
      cs = slice(j * (2 * lb + 1), (j + 1) * (2 * lb + 1))
      want[rs, cs] += C @ v
      size[rs, cs] += np.abs(C) @ np.abs(v)
    moved[l] += m2
  mon.close('rectangle', R, want, 60 * eps, scale=size + 1e-30)
  mon.expect('consumed irreps', idx == moved, 'idx %s instead of %s' % (idx, moved))


def weights(mon, env):
  rng = env.rng
  degrees, mult, max_degree = make_case(rng, 4)
  shells = int(rng.integers(1, 300))
  stddev = float(rng.uniform(0.1, 3))
  mon.begin(what='weights', degrees=degrees, mult=mult, max_degree=max_degree, shells=shells)
  d = matmat.make_dict_irreps_mult(degrees, max_degree)
  if rng.integers(2):
    d = dict(d)
  key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
  w = mon.call('init_matrix_irreps_weights', matmat.init_matrix_irreps_weights, key, shells, d, mult, stddev)
  mon.expect('number of weights', len(w) == max(d) + 1, '%d' % len(w))
  z = []
  for l, a in enumerate(w):
    a = np.asarray(a, np.float64)
    mon.expect('weight shape', a.shape == (shells, d[l] * mult * mult), 'degree %d: %s' % (l, a.shape))
    a = a.ravel() * np.sqrt(2 * l + 1) / stddev
    z.append(a)
    if a.size >= 200:
      mon.close('weight scale', np.mean(a * a), 1.0, 7.5 * np.sqrt(2 / a.size), scale=1.0)
      mon.close('weight mean', np.mean(a), 0.0, 7.5 / np.sqrt(a.size), scale=1.0)
      mon.close('normal weights', np.mean(a ** 4), 3.0, 7.5 * np.sqrt(96 / a.size) + 30 / a.size ** 0.75, scale=1.0)
  for a, b in itertools.combinations(z, 2):
    n = min(a.size, b.size)
    if n >= 200:
      mon.close('degrees are independent', np.mean(a[:n] * b[:n]), 0.0, 8.5 / np.sqrt(n), scale=1.0)
  w2 = matmat.init_matrix_irreps_weights(key, shells, d, mult, stddev)
  mon.expect('same key, same weights', all(np.array_equal(a, b) for a, b in zip(w, w2)), 'not deterministic')


def combine(mon, env):
  rng, dtype, eps = env.rng, env.dtype, env.eps
  L, F = int(rng.integers(0, 5)), int(rng.integers(1, 7))
  l_max = int(rng.integers(0, L + 1))
  batch = [(), (3,), (2, 2)][rng.integers(3)]
  W = [np.asarray(rng.normal(size=(F, int(rng.integers(0, 6)))), dtype) for _ in range(l_max + 1)]
  x = np.asarray(rng.normal(size=batch + ((L + 1) ** 2, F)), dtype)
  mon.begin(what='combine', L=L, F=F, l_max=l_max, batch=batch, M=[w.shape[1] for w in W])
  f = lambda a: matmat.combine_irreps(a, [jnp.asarray(w) for w in W], None)
  out = mon.call('combine_irreps', jax.jit(f) if rng.integers(2) else f, jnp.asarray(x))
  mon.expect('number of irreps', len(out) == l_max + 1, '%d' % len(out))
  for l in range(l_max + 1):
    xl = x[..., l * l:(l + 1) ** 2, :].astype(np.float64)
    mon.close('combined irreps', out[l], xl @ W[l].astype(np.float64), 20 * eps, scale=np.abs(xl) @ np.abs(W[l]) + 1e-30)
    mon.expect('dtype', np.asarray(out[l]).dtype == dtype, str(np.asarray(out[l]).dtype))


def pipeline(mon, env):
  """features -> irreps -> matrix -> traces, as the module is meant to be used."""
  rng, dtype, eps = env.rng, env.dtype, env.eps
  degrees, mult, max_degree = make_case(rng, env.opts['tables_degree']['cg'] // 2)
  F = int(rng.integers(1, 5))
  mon.begin(what='pipeline', degrees=degrees, mult=mult, max_degree=max_degree, F=F)
  d = matmat.make_dict_irreps_mult(degrees, max_degree)
  W = matmat.init_matrix_irreps_weights(jax.random.PRNGKey(int(rng.integers(2 ** 31))), F, d, mult, 1.0)
  W = [jnp.asarray(w, dtype) for w in W]
  x = rng.normal(size=(3, (max_degree + 1) ** 2, F))

  @jax.jit
  @jax.vmap
  def model(x):
    irr = matmat.combine_irreps(x, W, None)
    M = matmat.make_square_matrix(irr, degrees, mult, max_degree, True, None)
    return M, matmat.get_traces(M, degrees, mult, True)

  M, t = (np.asarray(a, np.float64) for a in mon.call('pipeline', model, jnp.asarray(x, dtype)))
  rot = ref.random_rot(rng)
  y = np.einsum('blf,lk->bkf', x, ref.wigner(rot, max_degree))
  Mr, tr = (np.asarray(a, np.float64) for a in mon.call('pipeline', model, jnp.asarray(y, dtype)))
  B = big_wigner(rot, degrees, mult)
  s = np.max(np.abs(M)) * len(B) * np.sqrt(F) + 1
  mon.close('pipeline equivariance', Mr, B.T @ M @ B, 60 * eps, scale=s)
  mon.close('pipeline traces', tr, t, 60 * eps, scale=s)
  # det and eigenvalues of the symmetric part are invariant
  e = lambda A: np.linalg.eigvalsh(A + np.swapaxes(A, -1, -2))
  mon.close('pipeline spectrum', e(Mr), e(M), 60 * eps, scale=s)


def rejects(mon, env):
  dtype = env.dtype
  mon.begin(what='rejected arguments')
  sq = matmat.make_square_matrix
  one = lambda *ls: [jnp.ones((2 * l + 1, 4), dtype) for l in ls]
  mon.raises('max_degree below the degrees', ValueError, sq, one(0, 1), [0, 2], 1, 1, False, None)
  mon.raises('even irreps', ValueError, sq, [jnp.ones((2, 4), dtype)], [0], 1, 0, False, None)
  mon.raises('too few irreps', ValueError, sq, [jnp.ones((1, 2), dtype)], [0, 0], 1, 0, False, None)
  mon.raises('too few irreps', ValueError, sq, [jnp.ones((1, 3), dtype)], [0], 2, 0, False, None)
  cg = jnp.asarray(ref.cg(1, 1, 2), dtype)
  rec = matmat.make_rectangular_matrix
  mon.raises('even side', ValueError, rec, one(0, 1), [0, 0], 2, 3, cg, 1, None)
  mon.raises('even side', ValueError, rec, one(0, 1), [0, 0], 3, 4, cg, 1, None)
  mon.raises('small coefficients', ValueError, rec, one(0, 1, 2), [0, 0, 0], 5, 3, cg, 1, None)
  mon.raises('small coefficients', ValueError, rec, one(0, 1, 2), [0, 0, 0], 3, 5, cg, 1, None)
  mon.raises('batched irreps', ValueError, rec, [jnp.ones((2, 1, 4), dtype)], [0], 1, 1, cg, 1, None)


def run(mon, env):
  if env.shard == 0:
    mon.section('rejects', rejects, mon, env)
  for i in range(env.n(10, 250)):
    if not mon.time_left():
      return
    mon.section('square', square, mon, env)
    mon.section('rectangle', rectangle, mon, env)
    mon.section('weights', weights, mon, env)
    mon.section('combine', combine, mon, env)
    if i % 3 == 0:
      mon.section('pipeline', pipeline, mon, env)
