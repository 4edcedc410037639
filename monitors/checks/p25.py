"""P25: Dense, Embed and TensorDense against their documented algebra."""
import jax
import jax.numpy as jnp
import numpy as np

import e3x
from monitors import nets, ref


def dense(mon, env):
  rng = env.rng
  P, L = int(rng.integers(1, 3)), int(rng.integers(0, 5) if rng.integers(6) else rng.integers(9, 13))
  Fi, Fo = int(rng.integers(1, 6)), int(rng.integers(1, 6))
  bias = bool(rng.integers(2))
  batch = [(), (3,), (2, 3), (1,), (0,)][rng.integers(5)]
  x = nets.features(rng, env.dtype, batch, P, L, Fi, 10.0 ** rng.uniform(-2, 2))
  mod = e3x.nn.Dense(features=Fo, use_bias=bias)
  mon.begin(layer='Dense', P=P, L=L, Fi=Fi, Fo=Fo, bias=bias, batch=batch)
  params = mon.call('init', nets.random_params, rng, mod, env.dtype, x)
  p = params['params']
  names = sorted(nets.irrep_name(P, a, l) for a in range(P) for l in range(L + 1))
  mon.expect('one weight matrix per parity and degree', sorted(p) == names,
             'parameters %s' % sorted(p))
  for k in names:
    mon.expect('kernel shape', p[k]['kernel'].shape == (Fi, Fo), k)
    mon.expect('bias only on the even scalar',
               ('bias' in p[k]) == (bias and k == '0+'), k)
  apply = jax.jit(mod.apply)
  y = mon.call('Dense', apply, params, x)
  want = nets.dense(p, x)
  sc = max(1.0, float(np.max(np.abs(x), initial=0)) * Fi * 3)
  mon.close('Dense formula', y, want, 16 * env.eps, scale=sc)
  mon.expect('precision', y.dtype == env.dtype, str(y.dtype))
  # Linear parts by construction: f(ax+by) - bias.
  z = nets.features(rng, env.dtype, batch, P, L, Fi)
  a, b = 0.5, -2.0
  zero = mon.call('Dense', apply, params, np.zeros_like(x))
  lhs = mon.call('Dense', apply, params, (a * x + b * z).astype(env.dtype))
  yz = mon.call('Dense', apply, params, z)
  w = (np.asarray(y, float) - zero) * a + (np.asarray(yz, float) - zero) * b + zero
  mon.close('affine in 0+, linear elsewhere', lhs, w, 64 * env.eps,
            scale=max(sc, 3.0 * Fi * float(np.max(np.abs(z), initial=0))))
  off = np.array(zero)
  if off.size:
    off[..., 0, 0, :] = 0
  mon.close('no offset outside the even scalar', off, np.zeros_like(off), 0.0)
  # One-hot perturbation: only the same (batch, parity, component) changes.
  if x.size:
    i = tuple(int(rng.integers(s)) for s in x.shape)
    x2 = x.copy()
    x2[i] += 1 + abs(x2[i])
    d = np.asarray(mon.call('Dense', apply, params, x2)) != np.asarray(y)
    d[i[:-1]] = False
    mon.expect('no mixing', not d.any(), 'changed %s' % np.argwhere(d)[:3].tolist())


def init_stats(mon, env):
  """Fresh weights: documented default initialisers (zero bias, LeCun)."""
  rng = env.rng
  P, L, Fi, Fo = int(rng.integers(1, 3)), int(rng.integers(0, 3)), 48, 64
  x = nets.features(rng, env.dtype, (), P, L, Fi)
  mod = e3x.nn.Dense(features=Fo)
  key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
  mon.begin(layer='Dense', what='init', P=P, L=L)
  p = mon.call('init', jax.jit(mod.init), key, x)['params']
  p2 = mon.call('init', jax.jit(mod.init), key, x)['params']
  for k in p:
    w = np.asarray(p[k]['kernel'], float)
    mon.close('same key, same weights', p2[k]['kernel'], w, 0.0)
    mon.close('variance 1/fan_in', np.var(w) * Fi, 1.0, 0.25, scale=1.0)
    if 'bias' in p[k]:
      mon.close('zero bias', p[k]['bias'], np.zeros(Fo), 0.0)
  ks = sorted(p)
  for a in range(len(ks) - 1):
    c = np.mean(np.asarray(p[ks[a]]['kernel'], float) * np.asarray(p[ks[a + 1]]['kernel'], float)) * Fi
    mon.close('weights of different irreps are separate', c, 0.0, 0.2, scale=1.0)


def embed(mon, env):
  rng = env.rng
  n, F = int(rng.integers(1, 12)), int(rng.integers(1, 6))
  shape = [(), (5,), (2, 3), (0,), (1, 4)][rng.integers(5)]
  dt = [np.int32, np.uint8, np.int16, np.int8, np.uint32][rng.integers(5)]
  idx = rng.integers(0, n, size=shape).astype(dt)
  mod = e3x.nn.Embed(num_embeddings=n, features=F)
  mon.begin(layer='Embed', n=n, F=F, shape=shape, dtype=str(np.dtype(dt)))
  params = mon.call('init', nets.random_params, rng, mod, env.dtype, jnp.asarray(idx))
  table = params['params']['embedding']
  mon.expect('table shape', table.shape == (n, 1, 1, F), str(table.shape))
  y = mon.call('Embed', jax.jit(mod.apply), params, jnp.asarray(idx))
  mon.close('Embed rows', y, table.reshape(n, F)[idx].reshape(tuple(shape) + (1, 1, F)), 0.0)
  mon.raises('float indices', (ValueError,), mod.apply, params,
             jnp.asarray(idx, jnp.float32))


def tensor_dense(mon, env):
  rng = env.rng
  P, L = int(rng.integers(1, 3)), int(rng.integers(0, 4))
  Fi, Fo = int(rng.integers(1, 4)), [None, 1, 2, 3][rng.integers(4)]
  L3 = [None, None] + list(range(0, min(2 * L, 4) + 1))
  L3 = L3[rng.integers(len(L3))]
  kw = dict(features=Fo, max_degree=L3, use_bias=bool(rng.integers(2)),
            include_pseudotensors=bool(rng.integers(2)),
            cartesian_order=bool(rng.integers(2)),
            use_fused_tensor=bool(rng.integers(2)))
  batch = [(), (3,), (2, 1)][rng.integers(3)]
  x = nets.features(rng, env.dtype, batch, P, L, Fi)
  mod = e3x.nn.TensorDense(**kw)
  mon.begin(layer='TensorDense', P=P, L=L, Fi=Fi, batch=batch, **kw)
  params = mon.call('init', nets.random_params, rng, mod, env.dtype, x)
  p = params['params']
  mon.expect('tensor kind', ('fused_tensor' in p) == kw['use_fused_tensor']
             and ('tensor' in p) != kw['use_fused_tensor'], str(list(p)))
  mon.expect('bias', ('bias' in p['dense']['0+']) == kw['use_bias'], '')
  y = mon.call('TensorDense', jax.jit(mod.apply), params, x)
  want = nets.tensor_dense(p, x, L3, kw['include_pseudotensors'], kw['cartesian_order'])
  mon.close('TensorDense formula', y, want, 80 * env.eps,
            scale=max(1.0, np.max(np.abs(want))))


def run(mon, env):
  for _ in range(env.n(10, 120)):
    if not mon.time_left():
      break
    mon.section('Dense', dense, mon, env)
    mon.section('Embed', embed, mon, env)
    mon.section('TensorDense', tensor_dense, mon, env)
  for _ in range(env.n(1, 8)):
    mon.section('init', init_stats, mon, env)
