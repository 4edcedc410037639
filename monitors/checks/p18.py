"""P18: tensor initializers have the documented variance and sparsity."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import e3x
from monitors import nets, ref

# name -> (scale, mode, distribution)
NAMED = {
    'tensor_glorot_uniform': (1.0, 'fan_avg', 'uniform'), 'tensor_xavier_uniform': (1.0, 'fan_avg', 'uniform'),
    'tensor_glorot_normal': (1.0, 'fan_avg', 'truncated_normal'), 'tensor_xavier_normal': (1.0, 'fan_avg', 'truncated_normal'),
    'tensor_lecun_uniform': (1.0, 'fan_in', 'uniform'), 'tensor_lecun_normal': (1.0, 'fan_in', 'truncated_normal'),
    'tensor_he_uniform': (2.0, 'fan_in', 'uniform'), 'tensor_kaiming_uniform': (2.0, 'fan_in', 'uniform'),
    'tensor_he_normal': (2.0, 'fan_in', 'truncated_normal'), 'tensor_kaiming_normal': (2.0, 'fan_in', 'truncated_normal'),
}
SIGMAS = 7.5  # two-sided tail below 1e-13 per statistic
KURT = {'truncated_normal': 2.37, 'normal': 3.0, 'uniform': 1.8}
# Exact standard deviation of a standard normal truncated to (-2, 2).
TRUNC = 0.87962566103423978
BOUND = {'truncated_normal': 2 / TRUNC, 'uniform': np.sqrt(3.0), 'normal': np.inf}


def inits():
  return e3x.nn.initializers


def fans(P1, L1, P2, L2, P3, L3):
  m = nets.path_mask(P1, L1, P2, L2, P3, L3)
  return m, m.sum(axis=(0, 1, 2, 3), keepdims=True), m.sum(axis=(4, 5), keepdims=True)


def statistics(mon, w, mask, var, dist, label):
  """w: (..., F) samples with variance var per path."""
  w = w.astype(np.float64)
  n = w.shape[-1]
  ok = mask.astype(bool)
  mon.expect(label + ': forbidden paths are zero', np.all(w[~ok] == 0), 'nonzero weights on forbidden paths')
  if not ok.any():
    return
  z = w[ok] / np.sqrt(np.broadcast_to(var, mask.shape)[ok])[:, None]
  mean, v = z.mean(-1), (z * z).mean(-1)
  mon.close(label + ': mean', mean, 0 * mean, SIGMAS / np.sqrt(n), scale=1.0)
  mon.close(label + ': variance', v, np.ones_like(v), SIGMAS * np.sqrt((KURT[dist] - 1) / n), scale=1.0)
  # All paths together (they are independent).
  mon.close(label + ': overall variance', v.mean(), 1.0, SIGMAS * np.sqrt((KURT[dist] - 1) / z.size), scale=1.0)
  mon.expect(label + ': support', np.max(np.abs(z)) <= BOUND[dist] * (1 + 1e-3), 'weights outside the support')
  k = (z ** 4).mean()
  mon.close(label + ': distribution', k, KURT[dist], SIGMAS * 12 / np.sqrt(z.size), scale=1.0)
  if np.isfinite(BOUND[dist]):
    mon.expect(label + ': support is filled', np.max(np.abs(z)) > BOUND[dist] * (1 - (min(0.05, 40 / z.size) if dist == 'uniform' else 0.05)), 'weights do not fill the support')
  if len(z) > 1:  # paths are independent
    c = (z @ z.T) / n
    c = c[~np.eye(len(c), dtype=bool)]
    mon.close(label + ': independence', c, 0 * c, SIGMAS * 1.3 / np.sqrt(n), scale=1.0)


def kernel(mon, env):
  rng = env.rng
  P = [int(p) for p in rng.integers(1, 3, size=3)]
  L = [int(l) for l in rng.integers(0, 4, size=3)]
  F = 2048
  shape = (P[0], L[0] + 1, P[1], L[1] + 1, P[2], L[2] + 1, F)
  mask, fin, fout = fans(P[0], L[0], P[1], L[1], P[2], L[2])
  I = inits()
  if rng.integers(3):
    name = list(NAMED)[rng.integers(len(NAMED))]
    scale, mode, dist = NAMED[name]
    make = lambda **kw: getattr(I, name)(**kw)
  else:
    name = 'tensor_variance_scaling'
    scale = float([1.0, 0.25, 3.0][rng.integers(3)])
    mode = ['fan_in', 'fan_out', 'fan_avg'][rng.integers(3)]
    dist = ['truncated_normal', 'normal', 'uniform'][rng.integers(3)]
    make = lambda **kw: I.tensor_variance_scaling(scale, mode, dist, **kw)
  dt = [jnp.float32, env.dtype][rng.integers(2)]
  key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
  mon.begin(initializer=name, scale=scale, mode=mode, distribution=dist, shape=list(shape), dtype=str(np.dtype(dt)))
  how = rng.integers(3)
  if how == 0:
    w = mon.call(name, make(dtype=dt), key, shape)
  elif how == 1:
    w = mon.call(name, make(), key, shape, dt)
  else:
    w = mon.call(name, jax.jit(lambda k: make(dtype=dt)(k, shape)), key)
  w = np.asarray(w)
  mon.expect('shape', w.shape == shape, 'shape %s' % (w.shape,))
  mon.expect('dtype', w.dtype == np.dtype(dt), 'dtype %s' % w.dtype)
  d = {'fan_in': fin, 'fan_out': fout, 'fan_avg': (fin + fout) / 2}[mode] + 0 * mask
  var = scale / np.where(d > 0, d, 1)
  statistics(mon, w, mask, var, dist, 'kernel')
  w2 = np.asarray(make(dtype=dt)(key, shape))
  if how != 2:
    mon.expect('same key, same weights', np.array_equal(w, w2), 'initialization is not deterministic')
  else:
    mon.close('same key, same weights under jit', w, w2, 4 * float(np.finfo(dt).eps), scale=np.abs(w2).astype(float))
  w3 = np.asarray(make(dtype=dt)(jax.random.fold_in(key, 1), shape))
  ok = mask.astype(bool)
  if ok.any():
    mon.expect('other key, other weights', np.mean(w3[ok] == w[ok]) < 0.01, 'weights do not depend on the key')


def fused(mon, env):
  rng = env.rng
  I = inits()
  dist = ['truncated_normal', 'uniform'][rng.integers(2)]
  name = {'truncated_normal': 'fused_tensor_normal', 'uniform': 'fused_tensor_uniform'}[dist]
  L, F = int(rng.integers(0, 6)), 4096
  scale = [1.0, 0.3, rng.uniform(0.2, 4, size=(L + 1, 1))][rng.integers(3)]
  mask = [True, rng.integers(0, 2, size=(L + 1, 1)).astype(bool)][rng.integers(2)]
  mon.begin(initializer=name, L=L, scale=scale, mask=mask)
  dt = env.dtype
  f = getattr(I, name)
  key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
  args = [jnp.asarray(s) if isinstance(s, np.ndarray) else s for s in (scale, mask)]
  w = np.asarray(mon.call(name, f(*args), key, (L + 1, F), dt))
  mon.expect('shape', w.shape == (L + 1, F) and w.dtype == dt, 'shape %s dtype %s' % (w.shape, w.dtype))
  statistics(mon, w, np.broadcast_to(np.asarray(mask), (L + 1, 1))[:, 0], np.broadcast_to(np.asarray(scale), (L + 1, 1))[:, 0], dist, 'fused kernel')
  d = np.asarray(f()(key, (2, 8), jnp.float32))
  mon.expect('defaults', d.dtype == np.float32 and np.all(d != 0), 'default scale/mask')


def layers(mon, env, cls, P1, L1, P2, L2, L3, include):
  """Fresh layers: unused weights vanish, outputs have unit variance."""
  rng, dtype = env.rng, env.dtype
  F = 4096
  mon.begin(layer=cls, P1=P1, L1=L1, P2=P2, L2=L2, L3=L3, include_pseudotensors=include)
  m = getattr(e3x.nn, cls)(max_degree=L3, include_pseudotensors=include, param_dtype=dtype)
  x = nets.features(rng, dtype, (), P1, L1, F)
  y = nets.features(rng, dtype, (), P2, L2, F)
  P3, _ = nets.tensor_out(P1, L1, P2, L2, L3, include)
  init = jax.jit(lambda k: m.init(k, x, y))
  keys = [int(k) for k in rng.integers(2 ** 31, size=3)]
  sq, n = 0, 0
  for k in keys:
    params = mon.call('init', init, jax.random.PRNGKey(k))
    # Random signs of inputs keep their covariance, weights stay fixed.
    for _ in range(2):
      a, b = nets.features(rng, dtype, (), P1, L1, F), nets.features(rng, dtype, (), P2, L2, F)
      o = np.asarray(m.apply(params, a, b), np.float64)
      sq, n = sq + (o * o).mean(-1), n + 1
  v = sq / n
  p = jax.tree_util.tree_map(np.asarray, params['params'])
  if cls == 'Tensor':
    w = p['kernel']
    # The kernel either spans all channels or (without pseudotensors in a single
    # channel) only those that can be reached; its own shape defines the paths.
    mask, fin, _ = fans(w.shape[0], w.shape[1] - 1, w.shape[2], w.shape[3] - 1, w.shape[4], w.shape[5] - 1)
    mon.expect('kernel shape', w.shape[1] == L1 + 1 and w.shape[3] == L2 + 1 and w.shape[5] == L3 + 1 and w.shape[-1] == F,
               'kernel shape %s' % (w.shape,))
    statistics(mon, w, mask, 1.0 / np.where(fin > 0, fin, 1) + 0 * mask, 'truncated_normal', 'layer kernel')
  else:
    # Weights of components that the inputs cannot have stay zero.
    for name, P, L, odd in (('kernel_e1', P1, L1, 0), ('kernel_o1', P1, L1, 1), ('kernel_e2', P2, L2, 0), ('kernel_o2', P2, L2, 1)):
      w = p[name]
      mon.expect('fused kernel shape', w.shape == (L + 1, F), '%s %s' % (name, w.shape))
      used = np.array([P == 2 or l % 2 == odd for l in range(L + 1)])
      mon.expect('fused: unused weights are zero', np.all(w[~used] == 0), name)
      mon.expect('fused: used weights are not', np.all(np.mean(w[used] != 0, -1) > 0.99), name)
      t = -(-max(L1, L2, L3) // 2)
      nm = 2 * t + 1
      for l in range(L + 1):
        mon.close('fused: zero mean', np.mean(w[l]), 0.0, SIGMAS * np.std(w[l]) / np.sqrt(F) + 1e-12, scale=1.0)
    for name in ('kernel_eee', 'kernel_ooe', 'kernel_eoo', 'kernel_oeo'):
      w = p[name]
      mon.expect('fused kernel shape', w.shape == (L3 + 1, F), '%s %s' % (name, w.shape))
      if P1 == P2 == 1 and name[-1] == 'o':
        mon.expect('fused: no pseudoscalar weights', np.all(w[0] == 0), name)
        w = w[1:]
      mon.expect('fused: output weights are not zero', np.all(np.mean(w != 0, -1) > 0.99), name)
  sl = ref.slices(L3)
  for q in range(P3):
    for l in range(L3 + 1):
      vl = v[q, sl[l]].mean()
      pq = nets.par(P3, q, l)
      reach = any(abs(i - k) <= l <= i + k and (nets.par(P1, a, i) + nets.par(P2, b, k)) % 2 == pq
                  for a in range(P1) for b in range(P2) for i in range(L1 + 1) for k in range(L2 + 1))
      if not reach:
        # (exactly zero for Tensor; products of matrices only cancel up to rounding)
        mon.expect('unreachable irreps are zero', vl <= (0 if cls == 'Tensor' else (100 * env.eps) ** 2),
                   'variance %g of P=%d l=%d' % (vl, q, l))
      elif cls == 'Tensor':
        mon.close('unit output variance', vl, 1.0, 0.25, scale=1.0)
      elif l == 0:
        mon.close('fused: unit scalar variance', vl, 1.0, 0.35, scale=1.0)
      else:
        mon.expect('fused: output variance near one', 0.03 < vl < 4, 'variance %g of P=%d l=%d' % (vl, q, l), variance=float(vl))


def others(mon, env):
  """Dense and Embed defaults: documented fan-in scaling, zero biases."""
  rng, dtype = env.rng, env.dtype
  P, L, Fin, F = int(rng.integers(1, 3)), int(rng.integers(0, 3)), int(rng.integers(30, 80)), int(rng.integers(60, 120))
  mon.begin(layer='Dense', P=P, L=L, Fin=Fin, F=F)
  x = nets.features(rng, dtype, (2,), P, L, Fin)
  p = mon.call('init', e3x.nn.Dense(F, param_dtype=dtype).init, jax.random.PRNGKey(int(rng.integers(2 ** 31))), x)['params']
  seen = []
  for q in range(P):
    for l in range(L + 1):
      d = p[nets.irrep_name(P, q, l)]
      w = np.asarray(d['kernel'])
      statistics(mon, w.reshape(1, -1), np.ones(1), np.array([1.0 / Fin]), 'truncated_normal', 'dense kernel')
      seen.append(w)
      if 'bias' in d:
        mon.expect('zero bias', np.all(np.asarray(d['bias']) == 0), 'nonzero initial bias')
  for a, b in itertools.combinations(seen, 2):
    mon.expect('kernels of irreps differ', not np.array_equal(a, b), 'two irreps got the same kernel')
  n = int(rng.integers(10, 40))
  e = np.asarray(mon.call('init', e3x.nn.Embed(n, 400, param_dtype=dtype).init, jax.random.PRNGKey(int(rng.integers(2 ** 31))), jnp.arange(n))['params']['embedding'])
  mon.expect('embedding rows differ', len(np.unique(e, axis=0)) == n, 'embeddings coincide')
  e = e.reshape(n, -1).astype(float)
  v = (e ** 2).sum() * n / e.size / n
  mon.close('embedding variance', (e ** 2).mean() * 400, 1.0, SIGMAS * np.sqrt(2 / e.size), scale=1.0)


def rejects(mon, env):
  I = inits()
  mon.begin(what='rejected arguments', seed=int(env.rng.integers(1000)))
  key = jax.random.PRNGKey(0)
  for mode in ('fan', '', 'FAN_IN'):
    mon.raises('invalid mode', ValueError, lambda: I.tensor_variance_scaling(1.0, mode, 'normal')(key, (1, 2, 1, 2, 1, 2, 3)))
  for dist in ('gauss', '', 'Normal'):
    mon.raises('invalid distribution', ValueError, lambda: I.tensor_variance_scaling(1.0, 'fan_in', dist)(key, (1, 2, 1, 2, 1, 2, 3)))
  for shape in ((1, 2, 1, 2, 1, 2), (3, 2, 1, 2, 1, 2, 3), (1, 2, 3, 2, 1, 2, 3), (1, 2, 1, 2, 0, 2, 3), (2, 3), (1, 1, 2, 1, 2, 1, 2, 3)):
    mon.raises('invalid shape', ValueError, I.tensor_lecun_normal(), key, shape)


def run(mon, env):
  rng = env.rng
  mon.section('rejects', rejects, mon, env)
  combos = [(cls, P1, L1, P2, L2, L3, inc) for cls in ('Tensor', 'FusedTensor') for P1 in (1, 2) for P2 in (1, 2) for inc in (True, False)
            for L1 in range(4) for L2 in range(4) for L3 in range(0, min(L1 + L2, 4) + 1)]
  order = rng.permutation(len(combos))
  for i in range(env.n(5, 140)):
    if not mon.time_left():
      return
    mon.section('kernel', kernel, mon, env)
    mon.section('fused', fused, mon, env)
    mon.section('layers', layers, mon, env, *combos[order[i]])
    if i % 3 == 0:
      mon.section('others', others, mon, env)
