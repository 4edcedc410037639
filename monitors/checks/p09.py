"""P09: tensor product layers against the documented coupling formulas."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import e3x
from monitors import nets, ref


def configs(env, top):
  """Stratified sample (quick) or enumeration (thorough) of configurations."""
  out = []
  for P1, P2, L1, L2, inc in itertools.product((1, 2), (1, 2), range(4), range(4),
                                               (True, False)):
    for L3 in [None] + list(range(0, min(L1 + L2, top) + 1)):
      out.append((P1, L1, P2, L2, L3, inc))
  rng = np.random.default_rng(env.seed + 5)  # same order in every shard
  order = rng.permutation(len(out))
  return [out[i] for i in order]


def batches(rng):
  return [((), ()), ((3,), (3,)), ((2, 1), (1, 3)), ((2,), (1,)), ((), (2,)),
          ((1,), (4,))][rng.integers(6)]


def one(mon, env, kind, cfg, F=None):
  P1, L1, P2, L2, L3, inc = cfg
  rng = env.rng
  F = int(rng.integers(1, 4)) if F is None else F
  cart = bool(rng.integers(2))
  b1, b2 = batches(rng)
  x1 = nets.features(rng, env.dtype, b1, P1, L1, F)
  x2 = nets.features(rng, env.dtype, b2, P2, L2, F)
  cls = e3x.nn.Tensor if kind == 'Tensor' else e3x.nn.FusedTensor
  mod = cls(max_degree=L3, include_pseudotensors=inc, cartesian_order=cart)
  mon.begin(layer=kind, P1=P1, L1=L1, P2=P2, L2=L2, L3=L3, include=inc, cart=cart,
            F=F, batch=[b1, b2])
  params = mon.call('init', nets.random_params, rng, mod, env.dtype, x1, x2)
  got = mon.call(kind, jax.jit(mod.apply), params, x1, x2)
  p = params['params']
  if kind == 'Tensor':
    want = nets.tensor(p['kernel'], x1, x2, L3, inc, cart)
    scale = nets_scale(p['kernel'], x1, x2, L1, L2)
  else:
    want = nets.fused(p, x1, x2, L3, inc, cart)
    scale = np.maximum(1.0, np.max(np.abs(want))) * 4
  mon.expect('output precision', got.dtype == env.dtype, str(got.dtype))
  mon.close(kind + ' formula', got, want, 40 * env.eps, scale=scale)
  # Forbidden entries of the output are exactly zero for inputs without
  # pseudotensors: scalars cannot be odd.
  if got.shape[-3] == 2 and P1 == 1 and P2 == 1:
    mon.close('no pseudoscalar from true tensors', got[..., 1, 0, :],
              np.zeros(got.shape[:-3] + (F,)), 40 * env.eps, scale=scale)
  if kind == 'Tensor' and rng.random() < 0.35:
    # Gradient w.r.t. weights is zero exactly on forbidden paths.
    g = mon.call('gradient', jax.jit(jax.grad(
        lambda q: jnp.sum(jnp.sin(mod.apply(q, x1, x2))))), params)
    P3, L3o = nets.tensor_out(P1, L1, P2, L2, L3, inc)
    mask = nets.path_mask(P1, L1, P2, L2, P3, L3o)[..., None]
    gk = np.asarray(g['params']['kernel'])
    mon.close('forbidden paths have no influence', np.where(mask == 0, gk, 0),
              np.zeros_like(gk), 0.0)
    mon.expect('every allowed path has influence', np.all(
        np.any(np.where(mask == 1, gk, 1) != 0, axis=-1)), 'dead coupling path')


def nets_scale(kernel, x1, x2, L1, L2):
  return max(1.0, float(np.max(np.abs(kernel)) * np.max(np.abs(x1)) * np.max(np.abs(x2))
                        * (max(L1, L2) + 1)))


def extreme(mon, env, kind):
  """Linear in each factor over many magnitudes, one-hot inputs: every single
  coupling coefficient is visible on its own."""
  rng = env.rng
  P1, P2 = int(rng.integers(1, 3)), int(rng.integers(1, 3))
  L1, L2 = int(rng.integers(1, 4)), int(rng.integers(1, 4))
  inc = bool(rng.integers(2))
  cart = bool(rng.integers(2))
  n1, n2 = P1 * (L1 + 1) ** 2, P2 * (L2 + 1) ** 2
  x1 = np.eye(n1).reshape(n1, 1, P1, (L1 + 1) ** 2, 1).astype(env.dtype)
  x2 = np.eye(n2).reshape(1, n2, P2, (L2 + 1) ** 2, 1).astype(env.dtype)
  cls = e3x.nn.Tensor if kind == 'Tensor' else e3x.nn.FusedTensor
  mod = cls(include_pseudotensors=inc, cartesian_order=cart)
  mon.begin(layer=kind, what='all pairs of basis vectors', P1=P1, P2=P2, L1=L1,
            L2=L2, include=inc, cart=cart)
  params = mon.call('init', nets.random_params, rng, mod, env.dtype, x1, x2)
  got = mon.call(kind, jax.jit(mod.apply), params, x1, x2)
  p = params['params']
  want = (nets.tensor(p['kernel'], x1, x2, None, inc, cart) if kind == 'Tensor'
          else nets.fused(p, x1, x2, None, inc, cart))
  mon.close(kind + ' all basis pairs', got, want, 40 * env.eps,
            scale=max(1, np.max(np.abs(want))))


def invalid(mon, env):
  rng = env.rng
  for cls in (e3x.nn.Tensor, e3x.nn.FusedTensor):
    for L1, L2 in ((0, 0), (1, 0), (1, 1), (2, 1)):
      x1 = nets.features(rng, env.dtype, (), int(rng.integers(1, 3)), L1, 2)
      x2 = nets.features(rng, env.dtype, (), int(rng.integers(1, 3)), L2, 2)
      for d in (1, 2):
        mon.begin(what='max_degree too large', layer=cls.__name__, L1=L1, L2=L2, d=d)
        mon.raises('max_degree', (ValueError,), nets.shapes_of,
                   cls(max_degree=L1 + L2 + d), x1, x2)
      mon.begin(what='feature mismatch', layer=cls.__name__, L1=L1, L2=L2)
      mon.raises('features', (ValueError,), nets.shapes_of, cls(), x1,
                 np.concatenate([x2, x2], axis=-1))


def run(mon, env):
  top = env.opts['tables_degree'].get('cg') or 3
  cfgs = configs(env, top)
  i = env.shard * 2 + (1 if env.x64 else 0)
  step = env.nshards * 2
  n = env.n(11, 10 ** 6)
  mon.section('extreme', extreme, mon, env, 'Tensor')
  mon.section('extreme', extreme, mon, env, 'FusedTensor')
  if env.shard == 0:
    mon.section('invalid', invalid, mon, env)
  k = 0
  while k < n and mon.time_left() and i < len(cfgs) * (4 if env.thorough else 1):
    c = cfgs[i % len(cfgs)]
    mon.section('Tensor', one, mon, env, 'Tensor', c)
    if k % 2 == 0 or env.thorough:
      mon.section('FusedTensor', one, mon, env, 'FusedTensor', c)
    i += step
    k += 1
  # Higher degrees.
  for j in range(env.n(1, 6)):
    L1, L2 = int(env.rng.integers(2, top + 1)), int(env.rng.integers(0, top + 1))
    c = (int(env.rng.integers(1, 3)), L1, int(env.rng.integers(1, 3)), L2,
         int(env.rng.integers(0, min(L1 + L2, top) + 1)), bool(env.rng.integers(2)))
    mon.section('Tensor', one, mon, env, 'Tensor', c, 1)
    mon.section('FusedTensor', one, mon, env, 'FusedTensor', c, 1)
