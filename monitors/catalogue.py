"""A catalogue of programs: every public numerical function and layer of the library
with random arguments, in a form that transformations and schedules can be applied to."""
import functools

import jax
import jax.numpy as jnp
import numpy as np

import e3x
from e3x.matrix import matmat
from monitors import nets, ref

KEY = jax.random.PRNGKey(3)


class Params:
  """Random parameters of a module; shapes are only computed when needed."""

  def __init__(self, rng, mod, *args, **kw):
    self.seed = int(rng.integers(2**32))
    self.mod, self.args, self.kw = mod, args, kw

  def make(self):
    shapes = nets.shapes_of(self.mod, *[cast(a, np.float32) if np.asarray(a).dtype.kind == 'f' else jnp.asarray(a) for a in self.args], **self.kw)
    rng = np.random.default_rng(self.seed)
    return jax.tree_util.tree_map(lambda s: 0.7 * rng.normal(size=s.shape), shapes)


class Program:
  """fn(*args) -> pytree of arrays.

  args: numpy arrays or pytrees (converted by the user to a precision) or functions
  that draw one.  batch: which arguments may be given with leading batch axes (None
  when the function has no such form).  smooth: derivatives exist everywhere near
  the arguments and are documented to be usable.
  """

  def __init__(self, name, fn, *args, batch=None, smooth=True, config='', traceable=True, equal=False, second=True):
    self.name, self.fn, self.smooth, self.config = name, fn, smooth, config
    self.draw = args
    self.known = [None if isinstance(a, Params) else a() if callable(a) else a for a in args]
    self.batch = [True] * len(args) if batch is True else batch
    self.traceable = traceable
    self.equal = equal  # batch axes are not broadcast
    self.second = second  # second derivatives do not suffer from cancellation
    self.params = [isinstance(a, Params) for a in args]
    self.floats = [i for i, a in enumerate(self.known) if all(np.asarray(v).dtype.kind == 'f' for v in jax.tree_util.tree_leaves(a))]

  @property
  def args(self):
    """All arguments (parameters are drawn when first needed)."""
    for i, a in enumerate(self.known):
      if a is None:
        self.known[i] = self.draw[i].make()
    return self.known

  def resample(self, rng, i):
    """Another valid value for one argument."""
    if callable(self.draw[i]):
      return self.draw[i]()
    return jax.tree_util.tree_map(
        lambda a: a * rng.uniform(0.7, 1.3, size=np.shape(a)) if np.asarray(a).dtype.kind == 'f' else a, self.args[i])

  def __repr__(self):
    return '%s (%s)' % (self.name, self.config)


def cast(tree, dtype):
  """Device arrays of one precision; integers and booleans are kept."""
  def one(a):
    a = np.asarray(a)
    return jnp.asarray(a, dtype) if a.dtype.kind == 'f' else jnp.asarray(a)
  return jax.tree_util.tree_map(one, tree)


def pick(rng, *values):
  return values[rng.integers(len(values))]


def so3(rng, top):
  so, out = e3x.so3, []
  add = lambda *a, **k: out.append(Program(*a, **k))
  N = lambda *s: rng.normal(size=s)
  for rep in range(2):
    L = int(rng.integers(0, top + 2))
    norm, cart, rin = pick(rng, 'racah', '4pi', 'orthonormal', 'schmidt'), bool(rng.integers(2)), bool(rng.integers(2))
    add('spherical_harmonics', functools.partial(so.spherical_harmonics, max_degree=L, normalization=norm, cartesian_order=cart,
                                                 r_is_normalized=rin),
        lambda rin=rin: (lambda v: v / np.linalg.norm(v) if rin else v)(N(3)), batch=True, smooth=not rin, config='L=%d %s %s %s' % (L, norm, cart, rin))
    L = int(rng.integers(0, top + 2))
    add('solid_harmonics', functools.partial(so.solid_harmonics, max_degree=L, cartesian_order=cart), N(3), batch=True,
        config='L=%d %s' % (L, cart))
  a, b, c = rng.integers(0, min(top, 2) + 1, size=3)
  cart = bool(rng.integers(2))
  add('clebsch_gordan', lambda: so.clebsch_gordan(int(a), int(b), int(c), cartesian_order=cart), config='%d %d %d %s' % (a, b, c, cart))
  add('clebsch_gordan_for_degrees', lambda: so.clebsch_gordan_for_degrees(int(a), int(b), int(c), cartesian_order=cart),
      config='%d %d %d %s' % (a, b, c, cart))
  L = int(rng.integers(0, min(top, 3) + 1))
  norm, cart = pick(rng, 'racah', '4pi', 'orthonormal'), bool(rng.integers(2))
  add('irreps_to_tensor', functools.partial(so.irreps_to_tensor, degree=L, normalization=norm, cartesian_order=cart), N(2 * L + 1),
      batch=True, config='l=%d %s %s' % (L, norm, cart))
  t = lambda l=L: np.asarray(so.irreps_to_tensor(jnp.asarray(N(2 * l + 1)), l), np.float64)
  add('tensor_to_irreps', functools.partial(so.tensor_to_irreps, degree=L, normalization=norm, cartesian_order=cart), t, batch=True,
      config='l=%d %s %s' % (L, norm, cart))
  add('rotation', so.rotation, N(3), N(), batch=True)
  add('rotation_euler', so.rotation_euler, N(), N(), N(), batch=True, equal=True)
  R = lambda: ref.random_rot(rng)
  add('euler_angles_from_rotation', so.euler_angles_from_rotation, R, batch=True, smooth=False)
  add('alignment_rotation', so.alignment_rotation, N(3), N(3), batch=True)
  L = int(rng.integers(0, top + 1))
  add('wigner_d', functools.partial(so.wigner_d, max_degree=L, cartesian_order=cart), R, batch=True, config='L=%d %s' % (L, cart))
  n = int(rng.integers(1, 5))
  key = lambda: np.asarray(jax.random.PRNGKey(int(rng.integers(1000))))
  add('random_rotation', lambda k: so.random_rotation(k, num=n), key, config='n=%d' % n)
  p = float(rng.uniform(0.1, 1))
  add('random_rotation perturbation', lambda k: so.random_rotation(k, perturbation=p, num=n), key, config='n=%d' % n)
  prec = int(rng.integers(0, 20))
  for name in ('lebedev_quadrature', 'delley_quadrature'):
    add(name, functools.partial(getattr(so, name), precision=prec), config=str(prec))
  return out


def ops(rng, top):
  o, out = e3x.ops, []
  add = lambda *a, **k: out.append(Program(*a, **k))
  N = lambda *s: rng.normal(size=s)
  for axis, shape in ((-1, (3,)), (None, (2, 3)), (-2, (3, 2))):
    keep = bool(rng.integers(2))
    add('norm', functools.partial(o.norm, axis=axis, keepdims=keep), N(*shape), batch=True if axis is not None else None,
        config='%s %s' % (axis, keep))
  add('normalize', functools.partial(o.normalize, axis=-1), N(4), batch=True)
  add('normalize_and_return_norm', functools.partial(o.normalize_and_return_norm, axis=-1, keepdims=True), N(4), batch=True)
  add('inverse_softplus', o.inverse_softplus, rng.uniform(0.1, 3, size=4), batch=True)
  order = int(rng.integers(0, 3))
  add('evaluate_derivatives', lambda x: o.evaluate_derivatives(lambda y: jnp.sin(1.5 * y) * y, x, order), N(4), batch=True,
      config='order %d' % order)
  pairs = nets.random_graph(rng, 4, 4)
  n = 4
  adj, _ = nets.dense_layout(pairs, n, n)
  d, s = jnp.asarray(pairs[:, 0]), jnp.asarray(pairs[:, 1])
  K, P = adj.shape[1], len(pairs)
  adj = jnp.asarray(adj)
  cf = 'P=%d K=%d' % (P, K)
  A = lambda: rng.integers(0, n, size=(n, K))  # (out of range slots have unspecified values)
  D, S = np.asarray(d), lambda: rng.integers(0, n, size=P)
  add('gather_src sparse', lambda x, s: o.gather_src(x, src_idx=s), N(n, 3), S, config=cf)
  add('gather_src dense', lambda x, a: o.gather_src(x, adj_idx=a), N(n, 3), A, config=cf)
  add('gather_dst sparse', lambda x, d: o.gather_dst(x, dst_idx=d), N(n, 3), S, config=cf)
  add('gather_dst dense', lambda x, a: o.gather_dst(x, adj_idx=a), N(n, 3), A, config=cf)
  for name in ('indexed_sum', 'indexed_max', 'indexed_min', 'indexed_softmax'):
    f = getattr(o, name)
    add(name + ' sparse', lambda x, d, f=f: f(x, dst_idx=d, num_segments=n - 1), N(P, 2), D, config=cf)  # (all have neighbours)
    add(name + ' dense', lambda x, f=f: f(x, adj_idx=adj[:-1], where=adj[:-1] < n), N(n - 1, K, 2), config=cf)
  mult = rng.uniform(0.1, 1, size=(P, 1))
  add('indexed_softmax multiplier', lambda x, m, d: o.indexed_softmax(x, multiplier=m, dst_idx=d, num_segments=n), N(P, 2), mult, D, config=cf)
  m = int(rng.integers(2, 5))
  add('sparse_pairwise_indices', lambda: o.sparse_pairwise_indices(m), config=str(m))
  add('dense_pairwise_indices', lambda: o.dense_pairwise_indices(m), config=str(m))
  add('dense_to_sparse_indices', lambda: o.dense_to_sparse_indices(adj), config=cf, traceable=False)
  add('sparse_to_dense_indices', lambda: o.sparse_to_dense_indices(d, s), config=cf, traceable=False)
  return out


def functions(rng, top):
  nn, out = e3x.nn, []
  add = lambda *a, **k: out.append(Program(*a, **k))
  num = int(rng.integers(2, 7))
  lim = float(rng.uniform(1.5, 4))
  r = np.concatenate([rng.uniform(0.05, 1.4, size=3)])
  cf = 'num=%d limit=%.3f' % (num, lim)
  for fam in ('bernstein', 'chebyshev', 'fourier', 'gaussian'):
    add('basic_' + fam, functools.partial(getattr(nn, 'basic_' + fam), num=num, limit=lim), r, batch=True, config=cf)
    for kind in ('shifted', 'damped'):
      add('reciprocal_' + fam, functools.partial(getattr(nn, 'reciprocal_' + fam), num=num, kind=kind), r, batch=True, config=cf + kind)
    cusp = bool(rng.integers(2))
    add('exponential_' + fam, lambda x, g, f=getattr(nn, 'exponential_' + fam), cusp=cusp: f(x, num=num, gamma=g, cuspless=cusp), r,
        np.asarray(rng.uniform(0.5, 1.5)), batch=[True, False], config=cf + str(cusp))
  add('sinc', functools.partial(nn.sinc, num=num, limit=lim), r, batch=True, config=cf)
  for kind in ('shifted', 'damped'):
    add('reciprocal_mapping', functools.partial(nn.reciprocal_mapping, kind=kind), r, batch=True, config=kind)
  for cusp in (True, False):
    add('exponential_mapping', functools.partial(nn.exponential_mapping, cuspless=cusp), r, np.asarray(rng.uniform(0.5, 1.5)),
        batch=[True, False], config=str(cusp))
  for name in ('triangular_window', 'rectangular_window', 'smooth_window'):
    add(name, functools.partial(getattr(nn, name), num=num, limit=lim), r, batch=True, smooth=name == 'smooth_window', config=cf)
  for name in ('smooth_cutoff', 'cosine_cutoff'):
    add(name, functools.partial(getattr(nn, name), cutoff=lim), r, batch=True, config=cf)
  add('smooth_damping', nn.smooth_damping, r, batch=True)
  add('smooth_switch', functools.partial(nn.smooth_switch, x0=0.02, x1=lim), r, batch=True, config=cf)
  return out


ACTIVATIONS = ('bent_identity', 'celu', 'elu', 'gelu', 'hard_silu', 'hard_swish', 'hard_tanh', 'leaky_relu', 'mish', 'relu', 'relu6',
               'selu', 'serf', 'shifted_softplus', 'silu', 'soft_sign', 'swish')


def features(rng, top):
  nn, out = e3x.nn, []
  add = lambda *a, **k: out.append(Program(*a, **k))
  P, L = int(rng.integers(1, 3)), int(rng.integers(0, top + 1))
  x = rng.normal(size=(P, (L + 1) ** 2, 3))
  cf = 'P=%d L=%d' % (P, L)
  for name in ACTIVATIONS:
    # (gates: differences of values near zero)
    add(name, getattr(nn, name), x, batch=True, second=name not in ('elu', 'celu', 'selu', 'gelu'), config=cf)
  L2 = int(rng.integers(0, top + 1))
  P2 = int(rng.integers(1, 3))
  y = rng.normal(size=(P2, (L2 + 1) ** 2, 3))
  add('add', nn.add, x, y, batch=True, equal=True, config=cf + ' P=%d L=%d' % (P2, L2))
  inc = bool(rng.integers(2))
  add('change_max_degree_or_type', functools.partial(nn.change_max_degree_or_type, max_degree=L2, include_pseudotensors=inc), x, batch=True,
      config=cf + ' %d %s' % (L2, inc))
  add('reflect', nn.reflect, x, batch=True, config=cf)
  D = np.asarray(e3x.so3.wigner_d(jnp.asarray(ref.random_rot(rng)), L), np.float64)
  add('rotate', nn.rotate, x, D, batch=[True, False], config=cf)
  for name in ('even_degree_mask', 'odd_degree_mask'):
    add(name, functools.partial(getattr(nn, name), L), config=cf)
  return out


def wrappers(rng, top):
  nn, out = e3x.nn, []
  add = lambda *a, **k: out.append(Program(*a, **k))
  for _ in range(2):
    L, num = int(rng.integers(0, top + 1)), int(rng.integers(1, 4))
    fam = pick(rng, 'bernstein', 'chebyshev', 'fourier', 'gaussian')
    kind = pick(rng, 'basic', 'reciprocal', 'exponential')
    radial = getattr(nn, '%s_%s' % (kind, fam))
    if kind == 'basic':
      radial = functools.partial(radial, limit=3.0)
    num = max(num, 2)
    cut = pick(rng, None, functools.partial(nn.smooth_cutoff, cutoff=3.0), functools.partial(nn.cosine_cutoff, cutoff=3.0))
    damp = pick(rng, None, nn.smooth_damping)
    flags = dict(return_norm=bool(rng.integers(2)), return_cutoff=cut is not None and bool(rng.integers(2)),
                 cartesian_order=bool(rng.integers(2)))
    add('basis', functools.partial(nn.basis, max_degree=L, num=num, radial_fn=radial, cutoff_fn=cut, damping_fn=damp, **flags),
        rng.normal(size=3), batch=True, config='L=%d num=%d %s_%s %s %s %s' % (L, num, kind, fam, cut is None, damp is None, flags))
  fam = pick(rng, 'bernstein', 'chebyshev', 'fourier', 'gaussian')
  mod = nn.ExponentialBasis()
  kw = dict(max_degree=L, num=num, radial_fn=getattr(nn, 'exponential_' + fam))
  r = rng.normal(size=(3, 3))
  params = Params(rng, mod, r, **kw)
  add('ExponentialBasis', lambda p, r: mod.apply(p, r, **kw), params, r, batch=[False, True], config='L=%d num=%d %s' % (L, num, fam))
  return out


def layers(rng, top):
  nn, out = e3x.nn, []
  top = min(top, 2)

  def add(name, mod, args, batch, kw=None, smooth=True, config=''):
    kw = kw or {}
    params = Params(rng, mod, *args, **kw)
    draws = {k: (lambda k=k: rng.permutation(kw[k])) if k == 'src_idx' else np.asarray(v) for k, v in kw.items()}
    out.append(Program(name, lambda p, *a: mod.apply(p, *a[:len(args)], **dict(zip(kw, a[len(args):]))), params, *args, *draws.values(),
                       batch=[False] + batch if batch else None, smooth=smooth, config=config))
    out.append(Program(name + ' init', lambda: mod.init(KEY, *[cast(a, np.float32) for a in args], **kw), config=config))

  def feats(*batch, F=4, P=None, L=None):
    P = int(rng.integers(1, 3)) if P is None else P
    L = int(rng.integers(0, top + 1)) if L is None else L
    return rng.normal(size=batch + (P, (L + 1) ** 2, F)), 'P=%d L=%d' % (P, L)
  x, cx = feats()
  y, cy = feats()
  add('Dense', nn.Dense(features=3, use_bias=bool(rng.integers(2))), [x], [True], config=cx)
  mod = nn.Embed(num_embeddings=5, features=3)
  out.append(Program('Embed', mod.apply, Params(rng, mod, np.asarray([0])), lambda: rng.integers(0, 5, size=(2, 3)),
                     batch=[False, True]))

  def tkw(a, b):
    L3 = pick(rng, None, *range(min(top, nets.maxdeg(a) + nets.maxdeg(b)) + 1))
    return dict(max_degree=L3, include_pseudotensors=bool(rng.integers(2)), cartesian_order=bool(rng.integers(2)))
  tk = tkw(x, y)
  cf = '%s %s %s' % (cx, cy, tk)
  add('Tensor', nn.Tensor(**tk), [x, y], [True, True], config=cf)
  add('FusedTensor', nn.FusedTensor(**tk), [x, y], [True, True], config=cf)
  for fused in (False, True):
    tk = tkw(x, x)
    add('TensorDense', nn.TensorDense(features=3, use_fused_tensor=fused, **tk), [x], [True], config=cx + str(tk) + str(fused))
  n = 4
  pairs = nets.random_graph(rng, n, n)
  adj, slot = nets.dense_layout(pairs, n, n)
  K, Pn = adj.shape[1], len(pairs)
  lists = [('sparse', dict(dst_idx=jnp.asarray(pairs[:, 0]), src_idx=jnp.asarray(pairs[:, 1])), (Pn,)),
           ('dense', dict(adj_idx=jnp.asarray(adj)), (n, K))]
  for how, idx, shape in lists:
    x, cx = feats(n)
    b, cb = feats(*shape, F=3, P=1)
    z, cz = feats(n)
    kw = dict(tkw(x if nets.maxdeg(x) <= nets.maxdeg(z) else z, b), use_fused_tensor=bool(rng.integers(2)))
    c = '%s basis %s %s %s' % (cx, cb, shape, kw)
    add('MessagePass ' + how, nn.MessagePass(**kw), [x, b], None, kw=idx, config=c)
    H = pick(rng, 1, 2, 4)
    ak = dict(kw, num_heads=H, use_relative_positional_encoding_qk=bool(rng.integers(2)))
    cut = rng.uniform(0.1, 1, size=shape)
    add('SelfAttention ' + how, nn.SelfAttention(**ak), [x, b, cut], None, kw=idx, config=c + str(ak))
    add('MultiHeadAttention ' + how, nn.MultiHeadAttention(**ak), [x, z, b], None, kw=idx, config=c + cz + str(ak))
  return out


def matrices(rng, top):
  out = []
  degrees = [int(v) for v in rng.permutation([0, 1])]
  P = 3
  irreps = [rng.normal(size=(1, 2)), rng.normal(size=(3, 3)), rng.normal(size=(5, 1))]
  out.append(Program('make_square_matrix', lambda *ir: matmat.make_square_matrix(list(ir), degrees, 1, 2, True, None), *irreps,
                     config=str(degrees)))
  return out


def model(rng, top):
  """A small energy model: scalar output, forces are its derivative."""
  import flax.linen as fnn
  nn = e3x.nn
  n = 4
  dst, src = e3x.ops.sparse_pairwise_indices(n)
  fused = bool(rng.integers(2))
  L = int(rng.integers(0, 3))
  act = getattr(nn, pick(rng, 'silu', 'gelu', 'mish', 'serf'))
  cutoff = pick(rng, nn.smooth_cutoff, nn.cosine_cutoff)
  radial = pick(rng, nn.reciprocal_bernstein, nn.exponential_gaussian, nn.exponential_chebyshev, nn.reciprocal_fourier)
  attention = bool(rng.integers(2))

  class Energy(fnn.Module):

    @fnn.compact
    def __call__(self, pos, z):
      r = e3x.ops.gather_src(pos, src_idx=src) - e3x.ops.gather_dst(pos, dst_idx=dst)
      b, c = nn.basis(r, num=4, max_degree=L, radial_fn=radial, cutoff_fn=functools.partial(cutoff, cutoff=4.0), return_cutoff=True)
      x = nn.Embed(num_embeddings=4, features=4)(z)
      if attention:
        y = nn.SelfAttention(num_heads=2, max_degree=L, use_fused_tensor=fused)(x, b, c, dst_idx=dst, src_idx=src)
      else:
        y = nn.MessagePass(max_degree=L, use_fused_tensor=fused)(x, b, dst_idx=dst, src_idx=src)
      x = nn.add(x.astype(y.dtype), y)
      x = nn.Dense(4)(act(nn.Dense(4)(x)))
      x = nn.TensorDense(4, max_degree=0, include_pseudotensors=False, use_fused_tensor=fused)(x)
      x = nn.Dense(1, use_bias=False)(x)
      return jnp.sum(x[..., 0, 0, 0])
  mod = Energy()
  z = rng.integers(0, 4, size=n)
  pos = 1.3 * rng.normal(size=(n, 3))
  params = Params(rng, mod, pos, z)
  return [Program('energy model', mod.apply, params, pos, z,
                  config='L=%d fused=%s attention=%s %s %s %s' % (L, fused, attention, act.__name__, cutoff.__name__, radial.__name__))]


def programs(rng, top=3, parts=(so3, ops, functions, features, wrappers, layers, matrices, model)):
  out = []
  for p in parts:
    out += p(rng, top)
  return out
