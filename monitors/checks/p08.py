"""P08: every layer commutes with rotations and reflections."""
import functools

import jax
import jax.numpy as jnp
import numpy as np

import e3x
from monitors import nets, ref

ACT = ['relu', 'leaky_relu', 'elu', 'selu', 'celu', 'silu', 'gelu', 'mish', 'serf',
       'shifted_softplus', 'hard_tanh', 'soft_sign', 'relu6', 'hard_silu', 'bent_identity']


def elements(env, n):
  """O(3) elements: generic, special and improper ones."""
  rng = env.rng
  sp = ref.special_rots(rng)
  out = [(ref.random_rot(rng), False), (ref.random_rot(rng), True), (np.eye(3), True),
         (sp[rng.integers(len(sp))], bool(rng.integers(2)))]
  while len(out) < n:
    out.append((ref.random_rot(rng), bool(rng.integers(2))))
  return out[:n]


def check(mon, env, label, f, xs, kinds, cart, tol=200, n=4, floor=1.0):
  """f(*xs) -> features; kinds: 'f' features, 'r' vectors, 's' invariant."""
  y = np.asarray(mon.call(label, f, *xs), np.float64)
  mon.finite(label + ' finite', y)
  scale = max(floor, float(np.max(np.abs(y), initial=0)))
  for rot, improper in elements(env, n):
    ts = []
    for x, k in zip(xs, kinds):
      if k == 'f':
        ts.append(ref.transform_features(x, rot, improper, cart).astype(env.dtype))
      elif k == 'r':
        ts.append(((-1 if improper else 1) * (np.asarray(x, float) @ rot)).astype(env.dtype))
      else:
        ts.append(x)
    z = mon.call(label, f, *ts)
    want = ref.transform_features(y, rot, improper, cart)
    mon.close(label + (' under reflections' if improper else ' under rotations'),
              z, want, tol * env.eps, scale=scale)
  return y


def pL(rng, top=3):
  return int(rng.integers(1, 3)), int(rng.integers(0, top + 1))


def activation(mon, env, name):
  rng = env.rng
  P, L = pL(rng, 4)
  x = nets.features(rng, env.dtype, (3,), P, L, 4, 2.0)
  mon.begin(layer=name, P=P, L=L)
  cart = bool(rng.integers(2))
  check(mon, env, 'activation', lambda v: getattr(e3x.nn, name)(jnp.asarray(v)), [x], 'f', cart, tol=64)


def pointwise(mon, env, kind, top):
  rng = env.rng
  cart = bool(rng.integers(2))
  F = int(rng.integers(1, 4))
  batch = [(), (3,), (2, 2)][rng.integers(3)]
  if kind == 'Dense':
    P, L = pL(rng, 4)
    mod = e3x.nn.Dense(features=int(rng.integers(1, 5)), use_bias=bool(rng.integers(2)))
    xs = [nets.features(rng, env.dtype, batch, P, L, F)]
    cfg = dict(P=P, L=L)
  elif kind in ('Tensor', 'FusedTensor'):
    (P1, L1), (P2, L2) = pL(rng), pL(rng)
    L3 = [None] + list(range(min(L1 + L2, top) + 1))
    L3 = L3[rng.integers(len(L3))]
    inc = bool(rng.random() < 0.7)
    mod = getattr(e3x.nn, kind)(max_degree=L3, include_pseudotensors=inc, cartesian_order=cart)
    xs = [nets.features(rng, env.dtype, batch, P1, L1, F), nets.features(rng, env.dtype, batch, P2, L2, F)]
    cfg = dict(P1=P1, L1=L1, P2=P2, L2=L2, L3=L3, include=inc)
  else:
    P, L = pL(rng)
    L3 = [None] + list(range(min(2 * L, top) + 1))
    L3 = L3[rng.integers(len(L3))]
    kw = dict(max_degree=L3, include_pseudotensors=bool(rng.random() < 0.7), cartesian_order=cart,
              use_fused_tensor=bool(rng.integers(2)), use_bias=bool(rng.integers(2)),
              features=[None, 2][rng.integers(2)])
    mod = e3x.nn.TensorDense(**kw)
    xs = [nets.features(rng, env.dtype, batch, P, L, F)]
    cfg = dict(P=P, L=L, **kw)
  mon.begin(layer=kind, cart=cart, batch=batch, F=F, **cfg)
  params = mon.call('init', nets.random_params, rng, mod, env.dtype, *xs)
  check(mon, env, kind, jax.jit(functools.partial(mod.apply, params)), xs, 'f' * len(xs), cart)


def graph_layer(mon, env, kind, top):
  rng = env.rng
  cart = bool(rng.integers(2))
  n = 4
  m = n if kind != 'MultiHeadAttention' else 5
  P, L = pL(rng, 2)
  Pk, Lk = (P, L) if kind != 'MultiHeadAttention' else pL(rng, 2)
  Lb = int(rng.integers(0, 3))
  F, nb = 4, 3
  L3 = [None] + list(range(min(Lk + Lb, top) + 1))
  L3 = L3[rng.integers(len(L3))]
  sparse = bool(rng.integers(2))
  kw = dict(max_degree=L3, include_pseudotensors=bool(rng.random() < 0.7), cartesian_order=cart,
            use_fused_tensor=bool(rng.integers(2)), use_basis_bias=bool(rng.integers(2)))
  if kind != 'MessagePass':
    kw.update(num_heads=[1, 2, 4][rng.integers(3)], use_relative_positional_encoding_qk=bool(rng.integers(2)),
              use_relative_positional_encoding_v=bool(rng.random() < 0.7),
              query_use_bias=bool(rng.integers(2)), key_use_bias=bool(rng.integers(2)), value_use_bias=bool(rng.integers(2)))
    if not kw['use_relative_positional_encoding_v']:
      kw['max_degree'] = None
  mod = getattr(e3x.nn, kind)(**kw)
  pairs = nets.random_graph(rng, n, m)
  r = rng.normal(size=(len(pairs), 3)) * 1.3
  rbf = lambda d, num: e3x.nn.basic_bernstein(d, limit=4.0, num=num)
  if sparse:
    idx = dict(dst_idx=jnp.asarray(pairs[:, 0]), src_idx=jnp.asarray(pairs[:, 1]))
  else:
    adj, slot = nets.dense_layout(pairs, n, m)
    idx = dict(adj_idx=jnp.asarray(adj))
    r = nets.to_dense(r, pairs, slot, n, adj.shape[1], 1.0)
  r = r.astype(env.dtype)
  x = nets.features(rng, env.dtype, (n,), P, L, F)
  xs, kinds = [x], 'f'
  if kind == 'MultiHeadAttention':
    xs.append(nets.features(rng, env.dtype, (m,), Pk, Lk, F))
    kinds += 'f'
  xs.append(r)
  kinds += 'r'
  cut = bool(rng.integers(2))

  def run(params, *a):
    b, c = e3x.nn.basis(a[-1], max_degree=Lb, num=nb, radial_fn=rbf, cartesian_order=cart,
                        cutoff_fn=lambda d: e3x.nn.smooth_cutoff(d, 4.0), return_cutoff=True)
    kw2 = dict(idx)
    if kind != 'MessagePass' and cut:
      kw2['cutoff_value'] = c
    if params is None:
      return mod.init(jax.random.PRNGKey(0), *a[:-1], b, **kw2)
    return mod.apply(params, *a[:-1], b, **kw2)
  mon.begin(layer=kind, P=P, L=L, Pk=Pk, Lk=Lk, basis=Lb, sparse=sparse, cutoff=cut, **kw)
  shapes = mon.call('init', jax.eval_shape, functools.partial(run, None), *xs)
  params = jax.tree_util.tree_map(lambda s: np.asarray(0.7 * rng.normal(size=s.shape), env.dtype), shapes)
  check(mon, env, kind, jax.jit(functools.partial(run, params)), xs, kinds, cart, tol=400)


def model(mon, env, top):
  """Composed network: embedding, basis, message passing, attention, tensor
  layers; energy invariance, force equivariance and tensor outputs."""
  rng = env.rng
  n, F = 5, 4
  Lm = int(rng.integers(1, 3))
  cart = bool(rng.integers(2))
  fused = bool(rng.integers(2))
  pseudo = bool(rng.integers(2))
  acts = [ACT[rng.integers(len(ACT))] for _ in range(3)]
  attn = bool(rng.integers(2))
  sparse = bool(rng.integers(2))
  from flax import linen as fnn

  class Net(fnn.Module):
    @fnn.compact
    def __call__(self, z, r):
      if sparse:
        dst, src = e3x.ops.sparse_pairwise_indices(n)
        idx = dict(dst_idx=dst, src_idx=src)
        d = e3x.ops.gather_src(r, src_idx=src) - e3x.ops.gather_dst(r, dst_idx=dst)
      else:
        adj = e3x.ops.dense_pairwise_indices(n)
        idx = dict(adj_idx=adj)
        d = e3x.ops.gather_src(r, adj_idx=adj) - e3x.ops.gather_dst(r, adj_idx=adj)
      b, c = e3x.nn.basis(
          d, max_degree=Lm, num=5, cartesian_order=cart, return_cutoff=True,
          radial_fn=functools.partial(e3x.nn.reciprocal_bernstein),
          cutoff_fn=functools.partial(e3x.nn.smooth_cutoff, cutoff=6.0),
          damping_fn=functools.partial(e3x.nn.smooth_damping, gamma=2.0))
      kw = dict(cartesian_order=cart, use_fused_tensor=fused, include_pseudotensors=pseudo)
      x = e3x.nn.Embed(num_embeddings=4, features=F, dtype=r.dtype)(z)
      y = e3x.nn.MessagePass(max_degree=Lm, **kw)(x, b, **idx)
      x = e3x.nn.add(x, y)
      x = e3x.nn.Dense(F)(x)
      x = getattr(e3x.nn, acts[0])(x)
      if attn:
        y = e3x.nn.SelfAttention(max_degree=Lm, num_heads=2, **kw)(x, b, c, **idx)
      else:
        y = e3x.nn.MessagePass(max_degree=Lm, **kw)(x, b, **idx)
      x = e3x.nn.add(x, getattr(e3x.nn, acts[1])(y))
      x = e3x.nn.TensorDense(**kw)(x)
      x = getattr(e3x.nn, acts[2])(x)
      x = e3x.nn.change_max_degree_or_type(x, max_degree=1 if Lm > 1 else Lm)
      return e3x.nn.Dense(2)(x)
  net = Net()
  z = jnp.asarray(rng.integers(0, 4, size=n))
  r = (rng.normal(size=(n, 3)) * 1.5).astype(env.dtype)
  mon.begin(layer='model', L=Lm, cart=cart, fused=fused, pseudo=pseudo, acts=acts, attn=attn, sparse=sparse)
  params = mon.call('init', jax.jit(net.init), jax.random.PRNGKey(int(rng.integers(2 ** 31))), z, r)
  params = jax.tree_util.tree_map(lambda a: np.asarray(a, env.dtype), params)
  f = jax.jit(lambda v: net.apply(params, z, v))
  y0 = check(mon, env, 'model', f, [r], 'r', cart, tol=400, floor=1e-3)
  ymax = max(1e-3, float(np.max(np.abs(y0))))
  e = jax.jit(jax.value_and_grad(lambda v: jnp.sum(jnp.sin(net.apply(params, z, v)[:, 0, 0]))))
  e0, f0 = mon.call('model energy', e, r)
  sc = max(1e-3, float(np.max(np.abs(f0))))
  es = max(ymax, sc)
  for rot, improper in elements(env, 3):
    s = -1 if improper else 1
    e1, f1 = mon.call('model energy', e, (s * (r.astype(float) @ rot)).astype(env.dtype))
    mon.close('energy is invariant', e1, e0, 400 * env.eps, scale=es)
    if not (set(acts) & {'relu', 'leaky_relu', 'elu', 'selu', 'hard_tanh', 'relu6', 'hard_silu'}):
      mon.close('forces rotate', f1, s * (np.asarray(f0, float) @ rot), 2000 * env.eps, scale=sc)
  e2, _ = mon.call('model energy', e, (r + np.asarray([0.5, -1, 2], env.dtype)))
  mon.close('energy is translation invariant', e2, e0, 800 * env.eps, scale=es)
  p = rng.permutation(n)
  g = jax.jit(lambda zz, v: net.apply(params, zz, v))
  mon.close('permutation', mon.call('model', g, z[p], r[p]), np.asarray(mon.call('model', g, z, r))[p],
            400 * env.eps, scale=ymax)


def basis(mon, env):
  rng = env.rng
  L = int(rng.integers(0, 5))
  cart = bool(rng.integers(2))
  r = np.concatenate([rng.normal(size=(8, 3)), np.eye(3), -np.eye(3)]).astype(env.dtype)
  mon.begin(layer='basis', L=L, cart=cart)
  f = lambda v: e3x.nn.basis(jnp.asarray(v), max_degree=L, num=3, radial_fn=e3x.nn.exponential_gaussian,
                             cutoff_fn=lambda d: e3x.nn.cosine_cutoff(d, 5.0), cartesian_order=cart)
  check(mon, env, 'basis', jax.jit(f), [r], 'r', cart, tol=200)


def run(mon, env):
  top = env.opts['tables_degree'].get('cg') or 3
  for i, a in enumerate(ACT):
    if env.mine(i):
      mon.section('activation', activation, mon, env, a)
  mon.section('basis', basis, mon, env)
  k = 0
  rounds = env.n(2, 60)
  for k in range(rounds):
    if not mon.time_left():
      break
    for kind in ('Dense', 'Tensor', 'FusedTensor', 'TensorDense', 'Tensor', 'FusedTensor'):
      mon.section(kind, pointwise, mon, env, kind, top)
    for j, kind in enumerate(('MessagePass', 'MultiHeadAttention', 'SelfAttention')):
      if env.thorough or (k + j + env.shard) % 2 == 0:
        mon.section(kind, graph_layer, mon, env, kind, top)
    if env.thorough or k == 0:
      mon.section('model', model, mon, env, top)
    if env.thorough:
      mon.section('activation', activation, mon, env, ACT[env.rng.integers(len(ACT))])
      mon.section('basis', basis, mon, env)
