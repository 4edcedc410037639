"""P16: the radial-angular basis is radial times angular times cutoff/damping."""
import functools

import jax
import jax.numpy as jnp
import numpy as np

import e3x
from monitors import jets, ref
from monitors.checks import p14, p15
from monitors.jets import LD, Jet


def product(a, b):
  """Jet over (...,n) times jet over (...)."""
  return a * Jet([np.expand_dims(c, -1) for c in b.c])


def vectors(rng, dtype, c, huge, grads):
  n = [0.0, 1e-6, 1e-3, 0.03, 0.2, c / 2, c * (1 - 1e-3), c, float(np.nextafter(dtype(c), dtype(0))),
       float(np.nextafter(dtype(c), dtype(1e9))), c * 1.01, 2 * c, 5 * c] + list(rng.uniform(0, 1.2 * c, size=10))
  n += [1e-15] if grads else [1e-15, 1e-25, 1e-33] + ([1e-200, 1e-290] if dtype == np.float64 else [])
  if huge:
    n += [1e5, 1e12] if grads else [1e5, 1e12, 1e25, 1e38 / 3]
  # (basic_gaussian with a single function computes 0*x**2.)
  n = np.array(n)
  d = rng.normal(size=(len(n), 3))
  for i in range(3, len(d), 4):  # axis-aligned directions, signs, planes
    d[i] = np.sign(rng.normal()) * np.eye(3)[rng.integers(3)]
  for i in range(5, len(d), 6):
    if np.all(d[i]):
      d[i, rng.integers(3)] = 0
  d /= np.linalg.norm(d, axis=-1, keepdims=True)
  r = (d * n[:, None]).astype(dtype)
  return np.concatenate([r, np.zeros((1, 3), dtype), -np.zeros((1, 3), dtype)])


def custom_radial(x, num):
  k = jnp.arange(1, num + 1, dtype=x.dtype)
  return jnp.exp(-jnp.expand_dims(x, -1) * k / 4) + k


def custom_oracle(x, num):
  X = Jet([np.expand_dims(c, -1) for c in Jet.var(x).c])
  k = np.arange(1, num + 1, dtype=LD)
  z = Jet([c * (-k / 4) for c in X.c])
  f = z.exp()
  return Jet([f.c[0] + k] + f.c[1:])


def radial(env, num, c):
  """A radial function as a user would pass it, with its oracle."""
  rng = env.rng
  vs = p14.variants()
  i = int(rng.integers(len(vs) + 2))
  if i >= len(vs):
    return 'custom', custom_radial, lambda x: custom_oracle(x, num), num / 2, True
  family, mapping, kw = vs[i]
  limit, gamma = float(env.dtype(c)), float(env.dtype([0.5, 1.0, 2.0][rng.integers(3)]))
  call = dict(kw)
  if mapping == 'basic':
    call['limit'] = limit
  if mapping == 'exponential':
    call['gamma'] = gamma
  name = 'sinc' if family == 'sinc' else '%s_%s' % (mapping, family)
  fn = functools.partial(getattr(e3x.nn, name), **call)
  slope = {'bernstein': num, 'chebyshev': 2 * num, 'fourier': 4 * num, 'gaussian': 3 * num, 'sinc': 4 * num}[family]
  lg = 4 + np.log(num + 1) * num if family == 'bernstein' else 4.0
  huge = not (family == 'fourier' and mapping == 'basic') and not (family == 'gaussian' and num == 1)
  return name, fn, lambda x: p14.oracle(family, mapping, kw, x, num, limit, gamma)[0], slope * (lg / 4) * (
      1 / limit if mapping == 'basic' else max(gamma, 1.0)), huge


def grad_ylm(u, L, cart, kind):
  """d/dr Y(r/|r|) at the unit vectors u, by central differences."""
  u = u.astype(LD)
  u = u / np.sqrt(np.sum(u * u, -1, keepdims=True))
  h = LD(1e-6)
  cols = []
  for k in range(3):
    e = np.zeros(3, LD)
    e[k] = h
    f = []
    for s in (1, -1):
      v = u + s * e
      v = v / np.sqrt(np.sum(v * v, -1, keepdims=True))
      f.append(ref.solid(v, L, cart, kind))
    cols.append((f[0] - f[1]) / (2 * h))
  return np.stack(cols, -1)  # (..., (L+1)^2, 3)


def one(mon, env):
  rng, dtype, eps = env.rng, env.dtype, env.eps
  L = int(rng.integers(0, 7))
  num = int([1, 2, 3, 5, 8, 16][rng.integers(6)])
  c = float(dtype([1.0, 2.5, 5.0][rng.integers(3)]))
  rname, rfn, roracle, slope, huge = radial(env, num, c)
  kind = [None, 'racah', '4pi', 'orthonormal'][rng.integers(4)]
  cart = [None, True, False][rng.integers(3)]
  cut = [None, 'smooth_cutoff', 'cosine_cutoff'][rng.integers(3)]
  damp = [None, None, 1.0, 4.0][rng.integers(4)]
  ret_cut, ret_norm = bool(cut and rng.integers(2)), bool(rng.integers(2))
  grads = bool(rng.integers(2))
  mon.begin(radial=rname, num=num, L=L, angular=kind, cartesian_order=cart, cutoff=cut, damping=damp,
            return_cutoff=ret_cut, return_norm=ret_norm, grads=grads)
  r = vectors(rng, dtype, c, huge, grads)
  kw = dict(max_degree=L, num=num, radial_fn=rfn)
  if cut:
    kw['cutoff_fn'] = functools.partial(getattr(e3x.nn, cut), cutoff=c)
  if damp:
    kw['damping_fn'] = functools.partial(e3x.nn.smooth_damping, gamma=damp)
  if kind:
    kw['angular_fn'] = functools.partial(e3x.so3.spherical_harmonics, r_is_normalized=True, normalization=kind)
  if cart is not None:
    kw['cartesian_order'] = cart
  if ret_cut or rng.integers(2):
    kw['return_cutoff'] = ret_cut
  if ret_norm or rng.integers(2):
    kw['return_norm'] = ret_norm
  f = lambda v: e3x.nn.basis(v, **kw)
  out = mon.call('basis', jax.jit(f), r)
  n_extra = ret_cut + ret_norm
  mon.expect('return structure', isinstance(out, tuple) == bool(n_extra) and (not n_extra or len(out) == 1 + n_extra),
             'wrong number of return values')
  y = np.asarray(out[0] if n_extra else out)
  m = (L + 1) ** 2
  mon.expect('shape', y.shape == r.shape[:-1] + (1, m, num), 'shape %s' % (y.shape,))
  mon.expect('dtype', y.dtype == dtype, 'dtype %s' % y.dtype)
  mon.finite('values finite', y)
  # Oracle.
  rl = r.astype(LD)
  nl = np.sqrt(np.sum(rl * rl, -1))
  n = nl.astype(dtype).astype(LD)
  ul = rl / np.where(nl > 0, nl, 1)[:, None]
  Y = ref.solid(ul, L, True if cart is None else cart, kind or 'racah')
  R = roracle(n)
  R0 = R
  if cut:
    C, ca = (p15.o_smooth_cutoff if cut == 'smooth_cutoff' else p15.o_cosine_cutoff)(n, c)
    R = product(R, C)
  D = None
  if damp:
    D, da = p15.o_damping(n, damp)
  def assemble(k):
    a = R.d(k)[:, None, :] + 0 * Y[:, :, None]
    if D is not None and L:
      a[:, 1:] = product(R, D).d(k)[:, None, :]
    return a
  A0, A1 = assemble(0), assemble(1)
  want = A0 * Y[:, :, None]
  ymax = np.max(np.abs(Y), axis=1)[:, None, None] + 1
  # Errors: radial argument and polynomials of degree L, cutoff and damping.
  nn = np.minimum(n, 1e6)[:, None, None]
  tolR = eps * (64 * np.abs(A0) + 64 * (nn + 1) * np.abs(A1) + 48 * slope * (nn + 1) + 32)
  if D is not None:
    # 1-exp(-x) loses relative accuracy at small x, which the exponent amplifies.
    tolR = tolR * (1 + np.minimum(16 / np.maximum(n, 1e-2), 16 / 1e-2)[:, None, None])
  tol = 0.1 * tolR * ymax + eps * 16 * (L + 1) ** 2 * np.abs(A0) * ymax
  zero = nl == 0
  ok = ~zero
  got = y[:, 0]
  mon.close('values', got[ok], want[ok], 1.0, scale=tol[ok].astype(float))
  mon.close('degree zero at the origin', got[zero, 0], want[zero, 0], 1.0, scale=tol[zero, 0].astype(float))
  if damp and L:
    mon.expect('damped to zero at the origin', np.all(got[zero, 1:] == 0), 'degrees above zero are not damped')
  beyond = n >= dtype(c) * dtype(1 + 2 * eps)
  if cut:
    mon.expect('nothing beyond the cutoff', np.all(got[beyond] == 0), 'nonzero basis values beyond the cutoff')
  i = 1
  if ret_cut:
    v = np.asarray(out[i])
    mon.expect('cutoff shape', v.shape == r.shape[:-1], 'shape %s' % (v.shape,))
    mon.close('returned cutoff', v, C.d(0), 64 * eps, scale=1.0)
    i += 1
  if ret_norm:
    v = np.asarray(out[i])
    mon.expect('norm shape', v.shape == r.shape[:-1], 'shape %s' % (v.shape,))
    mon.close('returned norm', v, nl, 8 * eps, scale=(nl + np.finfo(dtype).tiny).astype(float))
  # Elementwise in the batch: singles, reshaped, permuted.
  k = int(rng.integers(len(r)))
  first = lambda o: np.asarray(o[0] if isinstance(o, tuple) else o)
  z = first(mon.call('basis', f, jnp.asarray(r[k])))
  mon.close('single vector', z[0], got[k], 1.0, scale=tol[k].astype(float))
  p = rng.permutation(len(r))[:12]
  z = first(mon.call('basis', f, jnp.asarray(r[p].reshape(2, 3, 2, 3))))
  mon.expect('batched shape', z.shape == (2, 3, 2, 1, m, num), 'shape %s' % (z.shape,))
  mon.close('batched', z.reshape(12, m, num), got[p], 1.0, scale=tol[p].astype(float))
  if not grads:
    return
  co = rng.normal(size=(1, m, num)).astype(dtype)
  def s(v):
    o = f(v)
    return jnp.sum((o[0] if n_extra else o) * co)
  g = np.asarray(mon.call('grad', jax.jit(jax.grad(s)), r))
  v = rng.normal(size=r.shape).astype(dtype)
  gj = np.asarray(mon.call('jvp', jax.jit(lambda a, b: jax.jvp(lambda w: (f(w)[0] if n_extra else f(w)), (a,), (b,))[1]), r, v))
  mon.finite('gradients finite', g)
  mon.finite('forward derivatives finite', gj)
  if cut:
    mon.expect('no gradient beyond the cutoff', np.all(g[beyond] == 0) and np.all(gj[beyond] == 0),
               'nonzero gradients beyond the cutoff')
  if damp and L:
    mon.expect('no gradient at the origin', np.all(gj[zero][:, :, 1:] == 0), 'degrees above zero have a gradient at zero')
  dY = grad_ylm(np.where(zero[:, None], 1, ul), L, True if cart is None else cart, kind or 'racah')
  safe = np.where(nl > 0, nl, 1)
  J = (A1[..., None] * ul[:, None, None, :] * Y[:, :, None, None] + A0[..., None] * (dY / safe[:, None, None])[:, :, None, :])
  # Away from the kink at the cutoff and for distances where 1/n is harmless.
  edge = np.abs(n / LD(c) - 1) < 8 * eps
  use = ok & ~edge & (n > 1e-2)
  A2 = assemble(2)
  tg = eps * 0.5 * ((64 * np.abs(A1) + 64 * (nn + 1) * np.abs(A2) + 96 * slope * (slope + 1) * (nn + 1) + 64
               + 64 * (L + 1) ** 3 * (np.abs(A0) + np.abs(A1)) * (1 + 1 / safe[:, None, None])) * ymax * (
                   1 + (1 / safe[:, None, None]) + (0 if D is None else 64 / np.minimum(safe, 1)[:, None, None] ** 2)))
  if rname.endswith('chebyshev'):
    # The derivative at the ends of the range comes from a removable singularity.
    tg = tg + 0.02 * num ** 2 * slope * np.sqrt(eps)
  jw = np.einsum('imnk,ik->imn', J, v.astype(LD))
  tg = tg * (4 if rname.endswith('gaussian') else 1)
  fam = rname.split('_')[-1] + (' basic' if rname.startswith('basic') else '')
  mon.close('forward derivatives ' + fam, gj[use, 0], jw[use], 3.0, scale=(tg * 1).astype(float)[use])
  gw = np.einsum('imnk,mn->ik', J, co[0].astype(LD))
  tw = np.einsum('imn,mn->i', tg + 0 * J[..., 0], np.abs(co[0]))[:, None] + 0 * gw
  mon.close('gradients ' + fam, g[use], gw[use], 1.0, scale=tw.astype(float)[use])


def exponential(mon, env):
  """ExponentialBasis equals basis at the corresponding decay constant."""
  rng, dtype = env.rng, env.dtype
  num, L = int(rng.integers(1, 9)), int(rng.integers(0, 4))
  pd = [np.float32, dtype][rng.integers(2)]
  g0 = float(pd([1.0, 0.25, 4.0, 1e-3, 50.0, float(np.exp(rng.normal()))][rng.integers(6)]))
  name = ['exponential_bernstein', 'exponential_chebyshev', 'exponential_fourier', 'exponential_gaussian'][rng.integers(4)]
  opts = dict(cuspless=bool(rng.integers(2)), use_exponential_weighting=bool(rng.integers(2)))
  default = g0 == 1.0
  mon.begin(what='ExponentialBasis', radial=name, gamma=g0, num=num, L=L, **opts)
  r = rng.normal(size=(4, 3)).astype(dtype) * dtype(2)
  r[0] = 0
  fn = functools.partial(getattr(e3x.nn, name), **opts)
  kw = dict(max_degree=L, num=num, cutoff_fn=functools.partial(e3x.nn.smooth_cutoff, cutoff=6.0),
            return_cutoff=bool(rng.integers(2)), return_norm=bool(rng.integers(2)))
  mk = {} if default else dict(initial_gamma=g0)
  if pd != np.float32:
    mk['param_dtype'] = pd
  mod = e3x.nn.ExponentialBasis(**mk)
  params = mon.call('init', mod.init, jax.random.PRNGKey(int(rng.integers(1e6))), r, radial_fn=fn, **kw)
  leaves = jax.tree_util.tree_leaves(params)
  mon.expect('one parameter', len(leaves) == 1 and leaves[0].shape == () and leaves[0].dtype == pd,
             'parameters %s' % jax.tree_util.tree_map(lambda a: (a.shape, a.dtype), params))
  ep = float(np.finfo(pd).eps)
  def base(gamma):
    return e3x.nn.basis(r, radial_fn=functools.partial(fn, gamma=gamma), **kw)
  slope = 8.0 * num * (1 + np.log(num))
  xs = float(np.max(np.linalg.norm(r.astype(float), axis=-1)))
  for trial in range(3):
    if trial == 0:
      gamma = g0
    else:
      p = pd(rng.normal() * 2)
      params = jax.tree_util.tree_map(lambda a: jnp.asarray(p, a.dtype), params)
      gamma = float(np.logaddexp(0, np.float64(p)))
    a = mon.call('ExponentialBasis', mod.apply, params, r, radial_fn=fn, **kw)
    b = base(gamma)
    at, bt = (a, b) if isinstance(a, tuple) else ((a,), (b,))
    mon.expect('return structure', isinstance(a, tuple) == isinstance(b, tuple) and len(at) == len(bt), 'return values')
    tol = ep * (4 + slope * (1 + gamma * xs) / 4)
    for u, v in zip(at, bt):
      mon.close('initial decay' if trial == 0 else 'decay after training', u, v, tol, scale=4.0)
  # Gradient with respect to the parameter: softplus chain rule.
  co = rng.normal(size=at[0].shape).astype(dtype)
  g = jax.tree_util.tree_leaves(jax.grad(lambda q: jnp.sum((mod.apply(q, r, radial_fn=fn, **kw)[0] if len(at) > 1 else
                                                            mod.apply(q, r, radial_fn=fn, **kw)) * co))(params))[0]
  h = jax.grad(lambda ga: jnp.sum((base(ga)[0] if len(at) > 1 else base(ga)) * co))(jnp.asarray(gamma, dtype))
  sig = 1 / (1 + np.exp(-float(p)))
  mon.close('gradient of the decay', float(g), float(h) * sig, ep * 64 * slope * (1 + gamma * xs) * co.size ** 0.5, scale=1 + abs(float(h)))
  mon.finite('gradient finite', g)


def rejects(mon, env):
  mon.begin(what='rejected arguments', seed=int(env.rng.integers(100)))
  kw = dict(max_degree=1, num=2, radial_fn=e3x.nn.basic_gaussian)
  for shape in ((4,), (2,), (3, 1), (5, 2), (3, 4)):
    mon.raises('wrong vector shape', ValueError, e3x.nn.basis, jnp.ones(shape), **kw)
  mon.raises('return_cutoff without cutoff_fn', ValueError, e3x.nn.basis, jnp.ones((2, 3)), return_cutoff=True, **kw)


def run(mon, env):
  mon.section('rejects', rejects, mon, env)
  for i in range(env.n(8, 200)):
    if not mon.time_left():
      return
    mon.section('basis', one, mon, env)
    if i % 3 == 0:
      mon.section('exponential', exponential, mon, env)
