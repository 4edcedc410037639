"""P17: safe norms equal the true norm for every magnitude and batch."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import e3x

LD = np.longdouble


def true_norm(x, axis, keepdims):
  """Exact to long double: scaled by powers of two."""
  x = x.astype(LD)
  if x.size == 0:
    return np.zeros(np.sum(x, axis=axis, keepdims=keepdims).shape, LD)
  return np.sqrt(np.sum(x * x, axis=axis, keepdims=keepdims))


def magnitudes(rng, dtype, shape, lo, hi):
  return (10.0 ** rng.uniform(lo, hi, size=shape)).astype(LD)


def arrays(rng, dtype, shape, axis):
  """Random values; every reduced slice gets its own magnitude."""
  f = np.finfo(dtype)
  # Flush-to-zero makes numbers below tiny vanish; stay a safe factor above it.
  lo, hi = np.log10(float(f.tiny)) + 5, np.log10(float(f.max)) - 0.5
  x = rng.normal(size=shape).astype(LD)
  if shape:
    ax = tuple(range(len(shape))) if axis is None else axis
    ax = (ax,) if isinstance(ax, int) else ax
    ms = list(shape)
    for a in ax:
      ms[a] = 1
    mode = rng.integers(5)
    if mode == 0:
      m = magnitudes(rng, dtype, ms, lo, hi)
    elif mode == 1:  # extremes next to each other
      m = np.where(rng.uniform(size=ms) < 0.5, LD(10.0) ** LD(lo), LD(10.0) ** LD(hi))
    elif mode == 2:
      m = np.ones(ms, LD)
    elif mode == 3:  # entries of very different magnitude within a slice
      m = magnitudes(rng, dtype, shape, lo, hi)
    else:
      m = LD(10.0) ** LD(rng.uniform(lo, hi))
    x = x * m
    zero = rng.uniform(size=ms) < 0.15
    x = np.where(zero, 0, x)
    x = np.where(rng.uniform(size=shape) < 0.05, 0, x)
    x = np.where(rng.uniform(size=shape) < 0.05, -0.0, x)
    # No value in the gradual underflow range.
    x = np.where(np.abs(x) < 10 * float(f.tiny), 0, x)
    x = np.clip(x, *(np.array([-1, 1], LD) * LD(f.max) / 2 / np.sqrt(max(x.size, 4))))
  return x.astype(dtype)


def axes_of(nd):
  out = [None]
  for k in range(1, nd + 1):
    for c in itertools.permutations(range(nd), k):
      out.append(c)
      if k == 1:
        out += [c[0], c[0] - nd]
      else:
        out.append(tuple(a - nd for a in c))
        out.append(tuple(a - nd if i % 2 else a for i, a in enumerate(c)))
  return out


SHAPES = [(), (1,), (3,), (7,), (2, 3), (1, 3), (3, 1), (4, 1, 3), (2, 3, 3), (2, 2, 2, 3), (0,), (0, 3), (3, 0), (2, 0, 3), (100,), (5, 64)]


def one(mon, env, shape, axis):
  rng, dtype, eps = env.rng, env.dtype, env.eps
  tiny = float(np.finfo(dtype).tiny)
  keep = bool(rng.integers(2))
  x = arrays(rng, dtype, shape, axis)
  mon.begin(fn='norm', shape=list(shape), axis=axis if axis is None or isinstance(axis, int) else list(axis), keepdims=keep,
            spread=float(np.max(np.abs(x))) if x.size else 0)
  kw = {}
  if axis is not None or rng.integers(2):
    kw['axis'] = axis
  if keep or rng.integers(2):
    kw['keepdims'] = keep
  f = lambda v: e3x.ops.norm(v, **kw)
  y = np.asarray(mon.call('norm', f, jnp.asarray(x)))
  want = true_norm(x, axis, keep)
  n = max(int(x.size // max(want.size, 1)), 1)
  tol = eps * (8 + np.sqrt(n))
  wf = want.astype(np.float64)
  mon.close('norm', y, want, tol, scale=wf)
  mon.expect('dtype', y.dtype == dtype, 'dtype %s' % y.dtype)
  yj = np.asarray(mon.call('norm under jit', jax.jit(f), x))
  mon.close('norm under jit', yj, want, tol, scale=wf)
  mon.close('like the standard norm', np.asarray(jnp.linalg.norm(jnp.ones(shape, dtype), **kw)) if shape and len(
      axis if isinstance(axis, tuple) else (0,)) <= 1 and axis is not None else true_norm(np.ones(shape), axis, keep),
            f(jnp.ones(shape, dtype)), tol)
  if x.size == 0:
    return
  # Derivatives: x/|x|, zero at zero.
  wk = true_norm(x, axis, True)
  d = (x.astype(LD) / np.where(wk > 0, wk, 1))
  d = np.where(wk > 0, d, 0)
  co = rng.normal(size=want.shape).astype(dtype)
  g = np.asarray(mon.call('grad of norm', jax.jit(jax.grad(lambda v: jnp.sum(f(v) * co))), x))
  cok = co.reshape(wk.shape)
  mon.finite('gradient finite', g)
  mon.close('gradient', g, d * cok, 2 * tol, scale=np.abs(cok).astype(float) + 0 * d.astype(float))
  mon.expect('zero gradient at zero', np.all(g[np.broadcast_to(wk == 0, g.shape)] == 0), 'nonzero gradient at a zero vector')
  v = rng.normal(size=x.shape).astype(dtype)
  yp, gj = mon.call('jvp of norm', jax.jit(lambda a, b: jax.jvp(f, (a,), (b,))), x, v)
  mon.close('primal of jvp', yp, want, tol, scale=wf)
  ax = axis
  jw = np.sum(d * v, axis=ax, keepdims=keep)
  sc = np.sum(np.abs(d * v), axis=ax, keepdims=keep).astype(float) + 1e-30
  mon.finite('forward derivative finite', gj)
  mon.close('forward derivative', gj, jw, 2 * tol * np.sqrt(n), scale=sc)
  # Second derivatives: exact away from the extremes, finite for moderate norms.
  mid = np.broadcast_to((wk > 1e-3) & (wk < 1e3), x.shape)
  if np.all((wk == 0) | ((wk > 1e-3) & (wk < 1e3))):
    h = np.asarray(mon.call('second derivative', jax.jit(lambda a, b: jax.jvp(jax.grad(lambda w: jnp.sum(f(w) * co)), (a,), (b,))[1]), x, v))
    dv = np.sum(d * v, axis=tuple(range(x.ndim)) if axis is None else axis, keepdims=True)
    hw = cok * (v - d * dv) / np.where(wk > 0, wk, 1)
    hs = (np.abs(cok) * (np.abs(v) + np.abs(d) * np.sum(np.abs(d * v), axis=tuple(range(x.ndim)) if axis is None else axis, keepdims=True))
          / np.where(wk > 0, wk, 1)).astype(float) + 1e-30
    mon.finite('second derivative finite', h)
    mon.close('second derivative', h[mid], hw[mid], 4 * tol * np.sqrt(n), scale=hs[mid])
  # Slices do not see each other: bitwise equal when the rest is replaced.
  if axis is not None and x.ndim > 1:
    z = arrays(rng, dtype, shape, axis)
    sel = rng.uniform(size=wk.shape) < 0.5
    if sel.any():
      w = np.where(sel, x, z)
      a = np.asarray(jax.jit(f)(w)).reshape(wk.shape)
      mon.expect('slices are independent', np.array_equal(a[sel], yj.reshape(wk.shape)[sel]),
                 'the norm of a slice depends on other slices')
      ga = np.asarray(jax.jit(jax.grad(lambda u: jnp.sum(f(u) * co)))(w))
      s = np.broadcast_to(sel, x.shape)
      mon.expect('gradients of slices are independent', np.array_equal(ga[s], g[s]), 'the gradient of a slice depends on other slices')


def normalizers(mon, env, shape, axis):
  rng, dtype, eps = env.rng, env.dtype, env.eps
  tiny = float(np.finfo(dtype).tiny)
  x = arrays(rng, dtype, shape, axis)
  mon.begin(fn='normalize', shape=list(shape), axis=axis if axis is None or isinstance(axis, int) else list(axis))
  kw = dict(axis=axis) if axis is not None or rng.integers(2) else {}
  keep = bool(rng.integers(2))
  y = np.asarray(mon.call('normalize', e3x.ops.normalize, jnp.asarray(x), **kw))
  k2 = dict(kw, keepdims=keep) if keep or rng.integers(2) else kw
  y2, n2 = mon.call('normalize_and_return_norm', e3x.ops.normalize_and_return_norm, jnp.asarray(x), **k2)
  want = true_norm(x, axis, True)
  n = max(int(x.size // max(want.size, 1)), 1)
  tol = eps * (12 + np.sqrt(n))
  # Almost zero: the square of the norm is below the smallest normal number.
  sq = want * want
  small = np.broadcast_to(sq < tiny * (1 - 1e-3), x.shape)
  large = np.broadcast_to(sq > tiny * (1 + 1e-3), x.shape)
  u = (x.astype(LD) / np.where(want > 0, want, 1))
  for lab, v in (('normalize', y), ('normalize_and_return_norm', np.asarray(y2))):
    mon.expect('dtype', v.dtype == dtype, 'dtype %s' % v.dtype)
    mon.close(lab + ': shape', np.zeros(v.shape), np.zeros(x.shape), 0.0, scale=1.0)
    mon.close(lab + ': unit vectors', v[large], u[large], tol, scale=(np.abs(u[large]) + 1e-30).astype(float))
    mon.expect(lab + ': unnormalized when almost zero', np.array_equal(v[small], x[small]), 'changed an almost zero vector')
    ln = true_norm(v, axis, True)
    big = sq > tiny * (1 + 1e-3)
    mon.close(lab + ': unit length', ln[big], np.ones(int(big.sum())), tol, scale=1.0)
  w2 = true_norm(x, axis, keep)
  mon.close('returned norm', n2, w2, tol, scale=w2.astype(float))
  if x.size == 0:
    return
  co = rng.normal(size=x.shape).astype(dtype)
  g = np.asarray(mon.call('grad of normalize', jax.jit(jax.grad(lambda v: jnp.sum(e3x.ops.normalize(v, **kw) * co))), x))
  ok = sq > tiny * 1e6
  ax = tuple(range(x.ndim)) if axis is None else axis
  cu = np.sum(co * u, axis=ax, keepdims=True)
  gw = (co - u * cu) / np.where(want > 0, want, 1)
  gs = ((np.abs(co) + np.abs(u) * np.sum(np.abs(co * u), axis=ax, keepdims=True)) / np.where(want > 0, want, 1)).astype(float)
  # Beyond sqrt(max) derivatives of 1/|x| underflow; absolute error is below tiny.
  okb = np.broadcast_to(ok & (want * want < float(np.finfo(dtype).max)), x.shape)
  mon.finite('gradient of normalize finite', g)
  mon.close('gradient of normalize', g[okb], gw[okb], 4 * tol * np.sqrt(n), scale=(gs + 4 * tiny / eps)[okb])
  zero = np.broadcast_to(want == 0, x.shape)
  mon.close('gradient of normalize at zero', g[zero], co[zero], 4 * eps, scale=1.0)


def specials(mon, env):
  """Hand-picked values: subnormals, near overflow, 3-4-5 triangles."""
  rng, dtype, eps = env.rng, env.dtype, env.eps
  f = np.finfo(dtype)
  mon.begin(fn='specials')
  for s in (1.0, float(f.tiny) * 64, float(f.max) / 8, 2.0 ** -60, 2.0 ** 60):
    x = (np.array([[3, 4, 0], [0, -3, 4], [-4, 0, -3], [0, 0, 5], [-5, 0, 0]], LD) * LD(s)).astype(dtype)
    y = np.asarray(mon.call('norm', e3x.ops.norm, jnp.asarray(x), axis=-1))
    mon.close('pythagorean', y.astype(LD) / LD(s), np.full(5, 5.0), 4 * eps)
    # Next to a huge and a zero slice.
    z = np.concatenate([x, np.full((1, 3), f.max / 4, dtype), np.zeros((1, 3), dtype)])
    y2, g = jax.jit(jax.value_and_grad(lambda v: jnp.sum(jnp.where(jnp.arange(7) < 5, e3x.ops.norm(v, axis=1), 0) / 5)
                                       ))(jnp.asarray(z))
    mon.close('mixed magnitudes', np.asarray(y2).astype(LD) / LD(s), 5.0, 8 * eps)
    mon.close('mixed magnitudes gradient', np.asarray(g)[:5], x.astype(LD) / (25 * LD(s)), 8 * eps)
  sub = np.array([[f.tiny / 4, 0, 0], [f.tiny / 2, f.tiny / 2, 0]], dtype)
  mon.finite('subnormal norm', e3x.ops.norm(jnp.asarray(sub), axis=-1))
  mon.finite('subnormal gradient', jax.grad(lambda v: jnp.sum(e3x.ops.norm(v, axis=-1)))(jnp.asarray(sub)))
  mon.expect('subnormal norm is tiny', np.all(np.asarray(e3x.ops.norm(jnp.asarray(sub), axis=-1)) <= f.tiny), 'norm of a subnormal vector')
  mon.expect('subnormals stay unnormalized', np.all(np.abs(np.asarray(e3x.ops.normalize(jnp.asarray(sub), axis=-1))) <= f.tiny), 'normalized a subnormal vector')
  # Python scalars of batch: vmap agrees.
  x = rng.normal(size=(6, 4, 3)).astype(dtype)
  a = jax.vmap(lambda v: e3x.ops.norm(v, axis=0))(x)
  mon.close('vmap', a, true_norm(x, 1, False), 8 * eps)
  b = jax.vmap(lambda v: e3x.ops.norm(v))(x)
  mon.close('vmap over axis None', b, true_norm(x, (1, 2), False), 16 * eps)


def run(mon, env):
  rng = env.rng
  mon.section('specials', specials, mon, env)
  cases = []
  for shape in SHAPES:
    for ax in axes_of(len(shape)):
      cases.append((shape, ax))
  for rep in range(env.n(1, 6)):
    order = [cases[i] for i in rng.permutation(len(cases))]
    for i, (shape, ax) in enumerate(order):
      if not mon.time_left():
        return
      if not env.thorough and i >= 45:
        break
      mon.section('norm', one, mon, env, shape, ax)
      if i % 3 == 0 and len(shape):
        mon.section('normalize', normalizers, mon, env, shape, ax)
