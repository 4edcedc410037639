"""P28: parameters and computations have the requested precision.

Layers run with all combinations of input, parameter and computation precision; the
monitor watches the precision of parameters, results and gradients, and compares the
values with the same layer evaluated on the same numbers in the widest precision."""
import jax
import jax.numpy as jnp
import numpy as np

import e3x
from monitors import nets

BITS = {'float16': 10, 'bfloat16': 7, 'float32': 23, 'float64': 52}


def name(d):
  return jnp.dtype(d).name


def eps(d):
  return 2.0 ** -BITS[name(d)]


def kinds(env, values=False):
  """Precisions in use.  (The installed compiler crashes on some programs in half
  precision, so these are traced but not compiled.)"""
  if values:
    return [jnp.float32, jnp.float64] if env.x64 else [jnp.float32]
  out = [jnp.float32, jnp.bfloat16, jnp.float16]
  return out + [jnp.float64, jnp.float64] if env.x64 else out


def pick(rng, seq):
  return seq[int(rng.integers(len(seq)))]


def upcast(tree, dtype):
  return jax.tree_util.tree_map(lambda v: jnp.asarray(v, dtype) if jnp.issubdtype(jnp.asarray(v).dtype, jnp.floating) else v, tree)


def near(mon, label, got, want, d, factor=1.0, **ctx):
  """Equal up to rounding in precision d."""
  want = np.asarray(want, np.float64)
  got = np.asarray(jnp.asarray(got).astype(jnp.float64 if jnp.asarray(got).dtype == jnp.float64 else jnp.float32), np.float64)
  s = max(1.0, float(np.max(np.abs(want))) if want.size else 0.0)
  mon.close(label, got, want, factor * eps(d) * (24 if BITS[name(d)] < 20 else 300), scale=s, **ctx)


def layers(rng):
  """(name, constructor, options, shapes of inputs (float), other inputs, keywords)"""
  nn = e3x.nn
  n = int(rng.integers(2, 5))
  P1, P2 = (int(v) for v in rng.integers(1, 3, size=2))
  L1, L2 = (int(v) for v in rng.integers(0, 3, size=2))
  F, H = 4, int(2 ** rng.integers(2))
  L3 = int(rng.integers(0, min(L1 + L2, 2) + 1))
  tk = dict(include_pseudotensors=bool(rng.integers(2)), cartesian_order=bool(rng.integers(2)), max_degree=L3)
  fused = dict(use_fused_tensor=bool(rng.integers(2)))
  pairs = nets.random_graph(rng, n, n, p=0.7, isolated=False)
  d, s = pairs[:, 0], pairs[:, 1]
  idx = dict(dst_idx=jnp.asarray(d), src_idx=jnp.asarray(s), num_segments=n)
  shape = (len(pairs),)
  if rng.integers(2):
    K = int(rng.integers(1, 4))
    idx, shape = dict(adj_idx=jnp.asarray(rng.integers(0, n + 1, size=(n, K)))), (n, K)
  f = lambda *b, p=1, l=1, c=F: nets.features(rng, np.float64, b, p, l, c, scale=0.7)
  x, y, b = f(n, p=P1, l=L1), f(n, p=P2, l=L2), f(*shape, p=1, l=L2, c=3)
  cut = rng.uniform(0.1, 1, size=shape)
  enc = dict(num_heads=H, use_relative_positional_encoding_qk=bool(rng.integers(2)),
             use_relative_positional_encoding_v=bool(rng.integers(2)), use_basis_bias=bool(rng.integers(2)),
             query_use_bias=bool(rng.integers(2)), output_use_bias=bool(rng.integers(2)))
  cut = [cut] if rng.integers(2) else []
  return [
      ('Embed', nn.Embed, dict(num_embeddings=5, features=3), [], [jnp.asarray(rng.integers(0, 5, size=n))], {}),
      ('Dense', nn.Dense, dict(features=3, use_bias=bool(rng.integers(2))), [x], [], {}),
      ('Tensor', nn.Tensor, tk, [x, y], [], {}),
      ('FusedTensor', nn.FusedTensor, tk, [x, y], [], {}),
      ('TensorDense', nn.TensorDense, dict(tk, features=3, max_degree=min(L1, 2), **fused), [x], [], {}),
      ('MessagePass', nn.MessagePass, dict(tk, **fused), [x, b], [], idx),
      ('SelfAttention', nn.SelfAttention, {**tk, **fused, **enc, 'max_degree': min(L3, L1)}, [x, b] + cut, [], idx),
      ('MultiHeadAttention', nn.MultiHeadAttention, {**tk, **fused, **enc, 'max_degree': min(L3, L2)}, [x, y, b] + cut, [], idx)]


def layer(mon, env, case, values):
  rng = env.rng
  label, cls, options, floats, others, kw = case
  ks = kinds(env, values)
  pd, xd = pick(rng, ks), pick(rng, ks)
  cd = pick(rng, [None] + ks)
  xds = [pick(rng, ks) if cd is not None and rng.integers(4) == 0 else xd for _ in floats]
  wide = jnp.float64 if env.x64 else jnp.float32
  want = cd
  if cd is None:
    want = jnp.result_type(pd, *xds)
  mon.begin(layer=label, param=name(pd), computation=None if cd is None else name(cd), inputs=[name(v) for v in xds],
            options=str(options), kw=str(sorted(kw)), shapes=str([v.shape for v in floats]))
  args = [jnp.asarray(v).astype(d) for v, d in zip(floats, xds)] + others
  extra = {} if (cd is None and rng.integers(2)) else dict(dtype=cd)
  if not (pd == jnp.float32 and rng.integers(2)):
    extra['param_dtype'] = pd
  mod = cls(**options, **extra)
  key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
  shapes = mon.call('init', jax.eval_shape, lambda k, *a: mod.init(k, *a, **kw), key, *args)
  for path, v in jax.tree_util.tree_leaves_with_path(shapes):
    mon.expect('precision of parameters', v.dtype == pd, '%s: %s is %s instead of %s' % (
        label, jax.tree_util.keystr(path), v.dtype, name(pd)))
  # The requested computation precision has no influence on the initial values.
  if values and rng.integers(3) == 0:
    other = cls(**options, **dict(extra, dtype=pick(rng, [None] + ks)))
    p1 = mon.call('init', jax.jit(lambda k, *a: mod.init(k, *a, **kw)), key, *args)
    p2 = mon.call('init', jax.jit(lambda k, *a: other.init(k, *a, **kw)), key, *args)
    for (path, u), v in zip(jax.tree_util.tree_leaves_with_path(p1), jax.tree_util.tree_leaves(p2)):
      where = label + jax.tree_util.keystr(path)
      mon.expect('precision of parameters', u.dtype == v.dtype == pd, '%s: %s, %s instead of %s' % (where, u.dtype, v.dtype, name(pd)))
      near(mon, 'initial values do not depend on the computation precision', u, np.asarray(v.astype(wide)), pd, layer=where)
  params = jax.tree_util.tree_map(lambda v: jnp.asarray(0.5 * rng.normal(size=v.shape)).astype(v.dtype), shapes)
  fn = lambda p, *a: mod.apply(p, *a, **kw)
  out = mon.call(label, jax.eval_shape, fn, params, *args)
  mon.count('combinations ' + label)
  mon.expect('precision of results', out.dtype == want, '%s: result is %s instead of %s' % (label, out.dtype, name(want)))
  co = jnp.asarray(rng.normal(size=out.shape), wide)
  nf = len(floats)
  loss = lambda f: lambda p, x: jnp.sum(co * f(p, *x, *others).astype(wide))
  grad = jax.grad(loss(fn), argnums=(0, 1))
  for a, like in zip(*(jax.tree_util.tree_leaves(v) for v in (
      mon.call('gradient', jax.eval_shape, grad, params, args[:nf]), (params, args[:nf])))):
    mon.expect('precision of gradients', a.dtype == like.dtype, '%s: gradient is %s for %s' % (label, a.dtype, like.dtype))
  if not values:
    return
  # The same numbers in the widest precision.
  high = cls(**options, dtype=wide, param_dtype=wide)
  ref = lambda p, *a: high.apply(p, *a, **kw)
  factor = 4.0 if 'Attention' in label else 1.0
  if rng.integers(3):
    y = mon.call(label, jax.jit(fn) if rng.integers(4) else fn, params, *args)
    mon.expect('precision of results', y.dtype == want, '%s: result is %s instead of %s' % (label, y.dtype, name(want)))
    z = mon.call(label + ' (wide)', jax.jit(ref), upcast(params, wide), *upcast(args, wide))
    # (Steps that only involve parameters or inputs of less precision may have that.)
    coarse = want if cd is not None else min((want, pd, xd), key=lambda d: BITS[name(d)])
    near(mon, 'value in the requested precision', y, z, coarse, factor, layer=label)
  else:
    g = mon.call('gradient', jax.jit(grad), params, args[:nf])
    h = mon.call('gradient (wide)', jax.jit(jax.grad(loss(ref), argnums=(0, 1))), upcast(params, wide), upcast(args[:nf], wide))
    for a, b, like in zip(*(jax.tree_util.tree_leaves(v) for v in (g, h, (params, args[:nf])))):
      mon.expect('precision of gradients', a.dtype == like.dtype, '%s: gradient is %s for %s' % (label, a.dtype, like.dtype))
      coarse = min((want, like.dtype) if cd is not None else (want, pd, xd), key=lambda d: BITS[name(d)])
      near(mon, 'gradient in the requested precision', a, b, coarse, 3.0 * factor, layer=label)


def functions(mon, env):
  """Manipulating features, activations and reductions keep the precision."""
  rng, nn, o = env.rng, e3x.nn, e3x.ops
  values = env.x64 and bool(rng.integers(2))
  d = pick(rng, kinds(env, values))
  wide = jnp.float64 if env.x64 else jnp.float32
  P, L, F = int(rng.integers(1, 3)), int(rng.integers(0, 4)), 3
  x = jnp.asarray(nets.features(rng, np.float64, (3,), P, L, F)).astype(d)
  y = jnp.asarray(nets.features(rng, np.float64, (3,), int(rng.integers(1, 3)), int(rng.integers(0, 4)), F)).astype(d)
  idx = jnp.asarray(rng.integers(0, 3, size=6))
  adj = jnp.asarray(rng.integers(0, 4, size=(3, 4)))
  v = jnp.asarray(rng.normal(size=(6, 2))).astype(d)
  w = jnp.asarray(rng.normal(size=(3, 4, 2))).astype(d)
  mask = jnp.asarray(rng.uniform(0.1, 1, size=(6, 2))).astype(d)
  ml, inc = int(rng.integers(0, 5)), bool(rng.integers(2))
  acts = ['relu', 'leaky_relu', 'elu', 'selu', 'celu', 'silu', 'gelu', 'mish', 'serf', 'relu6', 'hard_tanh', 'hard_silu',
          'soft_sign', 'shifted_softplus', 'bent_identity']
  todo = [('change', lambda x: nn.change_max_degree_or_type(x, ml, inc), (x,), True),
          ('add', nn.add, (x, y), False), ('reflect', nn.reflect, (x,), True)]
  for a in rng.choice(acts, size=4, replace=False):
    if hasattr(nn, str(a)):
      todo.append((str(a), getattr(nn, str(a)), (x,), False))
  k = bool(rng.integers(2))
  for r in ('sum', 'min', 'max'):
    f = getattr(o, 'indexed_' + r)
    todo.append(('indexed_%s sparse' % r, lambda v, f=f: f(v, k, dst_idx=jnp.concatenate([idx, jnp.arange(3)]), num_segments=3)
                 if v.shape[0] == 9 else f(jnp.concatenate([v, v[:3]]), k, dst_idx=jnp.concatenate([idx, jnp.arange(3)]), num_segments=3),
                 (v,), r != 'sum'))
    todo.append(('indexed_%s dense' % r, lambda w, f=f: f(w, k, adj_idx=adj.at[:, 0].set(0), where=adj.at[:, 0].set(0) < 3), (w,), r != 'sum'))
  todo.append(('indexed_softmax sparse', lambda v: o.indexed_softmax(v, dst_idx=idx, num_segments=3), (v,), False))
  todo.append(('indexed_softmax mask', lambda v, m: o.indexed_softmax(v, m, dst_idx=idx, num_segments=3), (v, mask), False))
  todo.append(('indexed_softmax dense', lambda w: o.indexed_softmax(w, adj_idx=adj, where=adj < 3), (w,), False))
  todo.append(('gather_src', lambda v: o.gather_src(v, src_idx=idx), (v,), True))
  todo.append(('gather_dst', lambda v: o.gather_dst(v, dst_idx=idx), (v,), True))
  for i in rng.permutation(len(todo))[:7]:
    label, f, args, exact = todo[i]
    mon.begin(function=label, precision=name(d), P=P, L=L, degree=ml, pseudotensors=inc)
    got = mon.call(label, jax.eval_shape, f, *args)
    mon.expect('precision of results', got.dtype == jnp.dtype(d), '%s: result is %s for %s' % (label, got.dtype, name(d)))
    if not values:
      continue
    got = mon.call(label, jax.jit(f) if rng.integers(2) else f, *args)
    want = mon.call(label + ' (wide)', f, *upcast(args, wide))
    mon.expect('precision of results', got.dtype == jnp.dtype(d), '%s: result is %s for %s' % (label, got.dtype, name(d)))
    if exact:
      mon.expect('rearranging is exact', np.array_equal(np.asarray(got.astype(wide)), np.asarray(want)), label)
    else:
      near(mon, 'value in the precision of the inputs', got, want, d, function=label)


def run(mon, env):
  for k in range(env.n(8, 120)):
    if not mon.time_left():
      return
    cases = layers(env.rng)
    for i in env.rng.permutation(len(cases)):
      if not mon.time_left():
        return
      mon.section(cases[i][0], layer, mon, env, cases[i], env.x64 and k % 2 == 0)
    mon.section('functions', functions, mon, env)
