"""P23: invalid arguments are rejected instead of silently accepted.

Every entry of the catalogue yields one argument set violating exactly one
documented condition (with the documented exception types) and, next to it, valid
arguments at the edge of the accepted range."""
import jax
import jax.numpy as jnp
import numpy as np

import e3x
from monitors import nets

VE, TE, RE = ValueError, TypeError, RuntimeError
ANY = (ValueError, TypeError, RuntimeError, AssertionError)
KEY = jax.random.PRNGKey(0)
CATALOGUE = []


def entry(f):
  CATALOGUE.append(f)
  return f


class Ctx:
  """Generators shared by the entries."""

  def __init__(self, mon, env):
    self.mon, self.env, self.rng = mon, env, env.rng
    self.dtype = env.dtype

  def pick(self, *a):
    return a[int(self.rng.integers(len(a)))]

  def int(self, lo, hi):
    return int(self.rng.integers(lo, hi))

  def batch(self):
    return self.pick((), (3,), (2, 2))

  def arr(self, *shape):
    return jnp.asarray(self.rng.uniform(0.1, 1.5, size=shape), self.dtype)

  def bad(self, label, exc, fn, *args, **kw):
    """All array arguments may also be traced: shapes are known under jit."""
    self.mon.begin(label=label, call=getattr(fn, '__name__', type(fn).__name__), shapes=str([getattr(a, 'shape', a) for a in args])[:160],
                   kw=str({k: getattr(v, 'shape', v) for k, v in kw.items()})[:160])
    arrays = {i: a for i, a in enumerate(args) if isinstance(a, jax.Array)}
    if arrays and self.rng.integers(4) == 0:
      def traced(arrays):
        full = [arrays.get(i, a) for i, a in enumerate(args)]
        return fn(*full, **kw)
      self.mon.raises(label + ' (traced)', exc, jax.jit(traced), arrays)
    else:
      self.mon.raises(label, exc, fn, *args, **kw)

  def good(self, label, fn, *args, **kw):
    self.mon.begin(label='valid: ' + label, call=getattr(fn, '__name__', type(fn).__name__),
                   shapes=str([getattr(a, 'shape', a) for a in args])[:160],
                   kw=str({k: getattr(v, 'shape', v) for k, v in kw.items()})[:160])
    out = self.mon.call('valid: ' + label, fn, *args, **kw)
    self.mon.expect('valid: ' + label, out is not None, 'nothing returned')
    return out

  def bad_feature_shape(self):
    """A shape that is not (..., 1 or 2, (L+1)**2, F)."""
    k = self.rng.integers(4)
    F, L, P = self.int(1, 4), self.int(0, 4), self.int(1, 3)
    if k == 0:
      return self.pick((3,), (P, (L + 1) ** 2), (), (1, 1))
    if k == 1:
      return self.batch() + (self.pick(0, 3, 4, 5), (L + 1) ** 2, F)
    n = self.pick(0, 2, 3, 5, 6, 7, 8, 10, 12, 15, 17, 24, 26, 35)
    return self.batch() + (P, n, F)

  def features(self, batch=None, P=None, L=None, F=None):
    return jnp.asarray(nets.features(self.rng, self.dtype, self.batch() if batch is None else batch, P or self.int(1, 3),
                                     self.int(0, 4) if L is None else L, F or self.int(1, 4)))


class Init:
  """module.init, usually only traced (all checks are on shapes and arguments)."""

  def __init__(self, c, module):
    self.c, self.module, self.__name__ = c, module, type(module).__name__

  def __call__(self, key, *args, **kw):
    if self.c.rng.integers(8) == 0:
      return self.module.init(key, *args, **kw)
    pos = {i: a for i, a in enumerate(args) if isinstance(a, jax.Array)}
    named = {k: v for k, v in kw.items() if isinstance(v, jax.Array)}

    def traced(pos, named):
      return self.module.init(key, *[pos.get(i, a) for i, a in enumerate(args)], **{**kw, **named})
    return jax.eval_shape(traced, pos, named)


# ------------------------------------------------------------------------- so3
@entry
def harmonics(c):
  n = c.pick(1, 2, 4, 5, 0)
  b = c.batch()
  for f in (e3x.so3.spherical_harmonics, e3x.so3.solid_harmonics):
    c.bad('vector shape', VE, f, c.arr(*b, n), c.int(0, 3))
    c.bad('negative degree', VE, f, c.arr(*b, 3), -c.int(1, 4))
    c.good('degree 0', f, c.arr(*b, 3), 0)
  for name in ('Racah', 'schmid', 'ortho', '', None, '4PI', 'none'):
    if name is not None:
      c.bad('normalization', VE, e3x.so3.spherical_harmonics, c.arr(*b, 3), c.int(0, 3), normalization=name)
  for name in ('racah', 'schmidt', '4pi', 'orthonormal'):
    c.good('normalization', e3x.so3.spherical_harmonics, c.arr(*b, 3), c.int(0, 3), normalization=name)
  c.good('empty batch', e3x.so3.spherical_harmonics, c.arr(0, 3), 2)


@entry
def coupling(c):
  d = [c.int(0, 3) for _ in range(3)]
  for i in range(3):
    e = list(d)
    e[i] = -c.int(1, 3)
    c.bad('negative degree', VE, e3x.so3.clebsch_gordan, *e)
    c.bad('negative degree', VE, e3x.so3.clebsch_gordan_for_degrees, *e)
  c.good('degrees', e3x.so3.clebsch_gordan, *d)
  c.good('degrees', e3x.so3.clebsch_gordan_for_degrees, *d)


@entry
def conversion(c):
  l = c.int(1, 4)
  b = c.batch()
  for f in (e3x.so3.tensor_to_irreps, e3x.so3.is_traceless_symmetric):
    bad = [3] * l
    bad[c.int(0, l)] = c.pick(1, 2, 4)
    c.bad('tensor shape', VE, f, c.arr(*b, *bad), l)
    c.bad('tensor shape', VE, f, c.arr(*(3,) * (l - 1)), l)
    c.bad('tensor shape', VE, f, c.arr(*b, c.pick(2, 3, 4)), 0)
    c.bad('scalar', VE, f, jnp.asarray(1.0, c.dtype), 0)
    c.bad('negative degree', VE, f, c.arr(*b, 3), -c.int(1, 3))
    c.good('tensor', f, c.arr(*b, *(3,) * l), l)
    c.good('tensor', f, c.arr(*b, 1), 0)
  f = e3x.so3.irreps_to_tensor
  c.bad('irreps shape', VE, f, c.arr(*b, c.pick(2 * l, 2 * l + 2, 1, (l + 1) ** 2)), l)
  c.bad('negative degree', VE, f, c.arr(*b, 3), -c.int(1, 3))
  c.good('irreps', f, c.arr(*b, 2 * l + 1), l)
  c.good('irreps', f, c.arr(*b, 1), 0)
  bad_name = c.pick('Racah', 'x', '')
  c.bad('normalization', VE, f, c.arr(*b, 2 * l + 1), l, normalization=bad_name)
  c.bad('normalization', VE, e3x.so3.tensor_to_irreps, c.arr(*b, *(3,) * l), l, normalization=bad_name)


@entry
def rotations(c):
  b = c.batch()
  s = c.pick((2, 3), (3, 2), (4, 4), (3, 4), (1, 3), (3, 1), (9,), (3,))
  shape = s if len(s) == 1 else b + s
  c.bad('rotation shape', VE, e3x.so3.wigner_d, c.arr(*shape), c.int(0, 3))
  c.bad('rotation shape', VE, e3x.so3.euler_angles_from_rotation, c.arr(*shape))
  eye = jnp.broadcast_to(jnp.eye(3, dtype=c.dtype), b + (3, 3))
  c.good('rotation', e3x.so3.wigner_d, eye, c.int(0, 3))
  c.good('rotation', e3x.so3.euler_angles_from_rotation, eye)


@entry
def quadrature(c):
  for f in (e3x.so3.lebedev_quadrature, e3x.so3.delley_quadrature):
    c.bad('both', VE, f, precision=c.int(0, 20), num=c.int(6, 200))
    c.bad('neither', VE, f)
    c.bad('precision 0 and num', VE, f, precision=0, num=c.int(6, 50))
    c.good('precision', f, precision=c.pick(0, 1, 5, 131, 10 ** 4))
    c.good('num', f, num=c.pick(6, 14, 50, 10 ** 6))


@entry
def config(c):
  old = e3x.Config.normalization
  for name in ('Racah', 'x', '', 'schmid', '4 pi'):
    c.bad('Config normalization', VE, e3x.Config.set_normalization, name)
    c.mon.expect('failed setting changes nothing', e3x.Config.normalization == old, str(e3x.Config.normalization))
  e3x.Config.set_normalization(old)


# ------------------------------------------------------------------------- ops
def lists(c):
  """One valid neighbour list in both formats with batch axes."""
  b, n, m, k = c.batch(), c.int(2, 5), c.int(2, 5), c.int(1, 4)
  adj = jnp.asarray(c.rng.integers(0, m, size=b + (n, k)))
  p = c.int(1, 7)
  dst = jnp.asarray(c.rng.integers(0, n, size=b + (p,)))
  src = jnp.asarray(c.rng.integers(0, m, size=b + (p,)))
  return b, n, m, k, p, adj, dst, src


def reshaped(c, shape):
  """A different shape that cannot be that of matching arrays."""
  i = c.int(0, len(shape))
  s = list(shape)
  s[i] += 1
  return tuple(s)


@entry
def index_lists(c):
  b, n, m, k, p, adj, dst, src = lists(c)
  x = c.arr(*b, m, *c.batch())
  gs, gd = e3x.ops.gather_src, e3x.ops.gather_dst
  c.bad('neither list', RE, gs, x)
  c.bad('neither list', RE, gd, c.arr(*b, n))
  c.bad('both lists', RE, gs, x, adj_idx=adj, src_idx=src)
  c.bad('both lists', RE, gd, c.arr(*b, n), adj_idx=adj, dst_idx=dst)
  c.good('gather', gs, x, adj_idx=adj)
  c.good('gather', gs, x, src_idx=src)
  c.good('gather', gd, c.arr(*b, n), dst_idx=dst)
  c.good('gather', gd, c.arr(*b, n), adj_idx=adj)
  # batch axes must match
  if b:
    wrong = reshaped(c, b)
    c.bad('gather batch', VE, gs, c.arr(*wrong, m, 2), adj_idx=adj)
    c.bad('gather batch', VE, gs, c.arr(*wrong, m, 2), src_idx=src)
    c.bad('gather batch', VE, gd, c.arr(*wrong, n, 2), dst_idx=dst)
    c.bad('gather batch', VE, gs, c.arr(m), adj_idx=jnp.asarray(np.zeros((2, 3, n, k), int)))
    c.bad('gather batch', VE, gs, c.arr(m), src_idx=jnp.asarray(np.zeros((2, p), int)))
  c.bad('index dimensions', VE, gs, c.arr(m, 2), adj_idx=jnp.asarray([0, 1]))
  c.bad('index dimensions', VE, gs, c.arr(m, 2), src_idx=jnp.asarray(0))
  c.bad('no axis to gather from', VE, gs, jnp.asarray(1.0), src_idx=jnp.asarray([0]))
  # conversions
  c.bad('one-dimensional dense list', VE, e3x.ops.dense_to_sparse_indices, jnp.asarray([0, 1, 2]))
  c.good('dense list', e3x.ops.dense_to_sparse_indices, jnp.asarray([[0, 1], [1, 2], [2, 0]]))
  c.mon.begin(label='sparse list shapes', shapes=str((dst.shape, reshaped(c, src.shape))))
  c.mon.raises('sparse list shapes', VE, e3x.ops.sparse_to_dense_indices, dst, jnp.zeros(reshaped(c, src.shape), int), n + m)
  c.good('sparse list', e3x.ops.sparse_to_dense_indices, dst, src, max(n, m) + 1)
  for f in (e3x.ops.dense_pairwise_indices, e3x.ops.sparse_pairwise_indices):
    for flag in (True, False):
      c.bad('pairs of nothing', VE, f, -c.int(0, 3), flag)
      c.good('pairs of one', f, 1, flag)


@entry
def reductions(c):
  b, n, m, k, p, adj, dst, src = lists(c)
  f = c.pick(e3x.ops.indexed_sum, e3x.ops.indexed_min, e3x.ops.indexed_max, e3x.ops.indexed_softmax)
  rest = c.batch()
  xd, xs = c.arr(*b, n, k, *rest), c.arr(*b, p, *rest)
  where = jnp.ones((*b, n, k), bool)
  c.good('dense', f, xd, adj_idx=adj, where=where)
  c.good('sparse', f, xs, dst_idx=dst, num_segments=n)
  c.good('larger segment count', f, xs, dst_idx=dst, num_segments=n + 3)
  c.bad('neither list', RE, f, xs, where=where, num_segments=n)
  c.bad('both lists', RE, f, xs, adj_idx=adj, where=where, dst_idx=dst, num_segments=n)
  c.bad('missing mask', TE, f, xd, adj_idx=adj)
  c.bad('missing mask', TE, f, xd, adj_idx=adj, num_segments=n)
  c.bad('missing segment count', TE, f, xs, dst_idx=dst)
  c.bad('missing segment count', TE, f, xs, dst_idx=dst, where=where)
  c.bad('dense shape', VE, f, c.arr(*reshaped(c, b + (n, k)), *rest), adj_idx=adj, where=where)
  c.bad('sparse shape', VE, f, c.arr(*reshaped(c, b + (p,)), *rest), dst_idx=dst, num_segments=n)
  c.bad('too few dimensions', VE, f, c.arr(*b, n) if b or k > 1 else c.arr(n), adj_idx=adj, where=where)
  c.bad('too few dimensions', VE, f, jnp.asarray(1.0, c.dtype), dst_idx=dst, num_segments=n)
  # The shape must match exactly: no silent broadcasting of single entries.
  if p > 1:
    c.bad('no broadcasting', VE, f, c.arr(*b, 1, *rest), dst_idx=dst, num_segments=n)
  if k > 1:
    c.bad('no broadcasting', VE, f, c.arr(*b, n, 1, *rest), adj_idx=adj, where=where)
  for kind in (bool, np.complex64):
    if not b:
      c.bad('element type', (TE, VE), f, jnp.ones((p,), kind), dst_idx=dst, num_segments=n)
      c.bad('element type', (TE, VE), f, jnp.ones((n, k), kind), adj_idx=adj, where=where)
  if f is not e3x.ops.indexed_softmax:
    c.good('integers', f, jnp.ones((*b, p), int), dst_idx=dst, num_segments=n)
  else:
    c.bad('integers', VE, f, jnp.ones((*b, p), int), dst_idx=dst, num_segments=n)
    c.bad('integers', VE, f, jnp.ones((*b, n, k), int), adj_idx=adj, where=where)
    c.bad('multiplicative mask', VE, f, xs, c.arr(*reshaped(c, xs.shape)), dst_idx=dst, num_segments=n)
    c.bad('multiplicative mask', VE, f, xd, c.arr(*reshaped(c, xd.shape)), adj_idx=adj, where=where)
    if rest and p > 1:
      c.bad('multiplicative mask', VE, f, xs, c.arr(*b, p), dst_idx=dst, num_segments=n)
      c.bad('multiplicative mask', VE, f, xs, c.arr(*b, 1, *rest), dst_idx=dst, num_segments=n)
    c.good('multiplicative mask', f, xs, jnp.zeros_like(xs), dst_idx=dst, num_segments=n)


@entry
def derivatives(c):
  c.bad('negative order', VE, e3x.ops.evaluate_derivatives, jnp.sin, c.arr(*c.batch()), -c.int(1, 4))
  c.good('order 0', e3x.ops.evaluate_derivatives, jnp.sin, c.arr(*c.batch()), 0)


# ------------------------------------------------------------------ functions
@entry
def radial(c):
  x = c.arr(*c.batch())
  for fam in ('bernstein', 'chebyshev', 'fourier', 'gaussian'):
    num = -c.int(0, 3)
    limit = float(c.rng.uniform(0.5, 5))
    c.bad('number of functions', VE, getattr(e3x.nn, 'basic_' + fam), x, num, limit)
    c.bad('number of functions', VE, getattr(e3x.nn, 'reciprocal_' + fam), x, num)
    c.bad('number of functions', VE, getattr(e3x.nn, 'exponential_' + fam), x, num)
    kind = c.pick('Shifted', 'x', '', 'damp', 'cusp')
    c.bad('mapping kind', VE, getattr(e3x.nn, 'reciprocal_' + fam), x, c.int(1, 5), kind)
    c.good('one function', getattr(e3x.nn, 'reciprocal_' + fam), x, 1, c.pick('shifted', 'damped', 'cuspless'))
    c.good('one function', getattr(e3x.nn, 'exponential_' + fam), x, 1)
    c.good('one function', getattr(e3x.nn, 'basic_' + fam), x, 1, limit)
  c.bad('mapping kind', VE, e3x.nn.reciprocal_mapping, x, c.pick('Shifted', 'x', ''))
  for kind in ('shifted', 'damped', 'cuspless'):
    c.good('mapping kind', e3x.nn.reciprocal_mapping, x, kind)


@entry
def cutoffs(c):
  x = c.arr(*c.batch())
  for f in (e3x.nn.smooth_cutoff, e3x.nn.cosine_cutoff):
    v = c.pick(0, 0.0, -0.0, -1e-30, -1.0, -5, -float(c.rng.uniform(0, 10)), -np.inf)
    if c.rng.integers(2):
      v = c.pick(np.float32(v), np.asarray(v, c.dtype), jnp.asarray(v, c.dtype))
      if float(v) == 0 or abs(float(v)) > 1e-20:
        c.mon.begin(label='cutoff', value=float(v), type=str(type(v)))
        c.mon.raises('cutoff', VE, f, x, v)
    else:
      c.bad('cutoff', VE, f, x, v)
    c.good('cutoff', f, x, c.pick(1e-30, 1, 1.0, 0.5, np.float32(3), np.asarray(2.0)))
  a = float(c.rng.normal())
  d = c.pick(0.0, 1e-3, 1.0, 1e5)
  c.bad('switch limits', VE, e3x.nn.smooth_switch, x, a, a - d)
  c.bad('switch limits', VE, e3x.nn.smooth_switch, x, x0=c.pick(1.0, 2.0, 1), x1=c.pick(1.0, 1, 0.5))
  c.good('switch limits', e3x.nn.smooth_switch, x, a, a + c.pick(1e-3, 1.0, 1e5))
  c.good('switch limits', e3x.nn.smooth_switch, x, np.nextafter(1.0, 0.0), 1.0)


@entry
def activation(c):
  names = ('relu', 'leaky_relu', 'elu', 'selu', 'celu', 'silu', 'swish', 'gelu', 'mish', 'serf', 'shifted_softplus', 'hard_tanh',
           'soft_sign', 'relu6', 'hard_silu', 'hard_swish', 'bent_identity')
  for name in names:
    shape = c.pick((), (4,), (1, 4), (2, 9))
    c.bad('activation input', VE, getattr(e3x.nn, name), c.arr(*shape))
  c.good('activation input', getattr(e3x.nn, c.pick(*names)), c.features(batch=()))


@entry
def wrapper(c):
  b = c.batch()
  fn = c.pick(e3x.nn.basic_fourier, e3x.nn.basic_gaussian, e3x.nn.basic_bernstein)
  import functools
  fn = functools.partial(fn, limit=2.0)
  for name, f in (('basis', e3x.nn.basis), ):
    c.bad('vector shape', VE, f, c.arr(*b, c.pick(1, 2, 4, 0)), max_degree=c.int(0, 3), num=2, radial_fn=fn)
    c.bad('cutoff values without cutoff', VE, f, c.arr(*b, 3), max_degree=1, num=2, radial_fn=fn, return_cutoff=True)
    c.bad('negative degree', VE, f, c.arr(*b, 3), max_degree=-c.int(1, 3), num=2, radial_fn=fn)
    c.good('cutoff values', f, c.arr(*b, 3), max_degree=0, num=1, radial_fn=fn, return_cutoff=True,
           cutoff_fn=functools.partial(e3x.nn.smooth_cutoff, cutoff=2.0))
  m = e3x.nn.ExponentialBasis()
  kw = dict(max_degree=1, num=3, radial_fn=c.pick(e3x.nn.exponential_bernstein, e3x.nn.exponential_gaussian))
  c.bad('vector shape', VE, Init(c, m), KEY, c.arr(*b, c.pick(2, 4)), **kw)
  c.bad('cutoff values without cutoff', VE, Init(c, m), KEY, c.arr(*b, 3), return_cutoff=True, **kw)
  c.good('vector shape', Init(c, m), KEY, c.arr(*b, 3), **kw)


# -------------------------------------------------------------------- features
@entry
def feature_functions(c):
  bad = c.bad_feature_shape()
  n = 1
  for f, more in ((e3x.nn.reflect, ()), (e3x.nn.change_max_degree_or_type, (c.int(0, 3), bool(c.int(0, 2)))),
                  (e3x.nn.rotate, (jnp.eye(n, dtype=c.dtype),)), (e3x.nn.add, ())):
    c.bad('feature shape', VE, f, c.arr(*bad), *more)
  for f in (e3x.nn.even_degree_mask, e3x.nn.odd_degree_mask):
    c.bad('negative degree', VE, f, -c.int(1, 5))
    c.good('degree', f, c.int(0, 4))
  x = c.features()
  for kw in (dict(), dict(include_pseudotensors=bool(c.int(0, 2)))):
    c.bad('negative degree', VE, e3x.nn.change_max_degree_or_type, x, max_degree=-c.int(1, 5), **kw)
    c.good('degree', e3x.nn.change_max_degree_or_type, x, max_degree=c.int(0, 5), **kw)
  L = nets.maxdeg(x)
  k = c.pick((L + 2) ** 2, L ** 2, (L + 1) ** 2 - 1)
  k = max(k, 0)
  c.bad('Wigner-D size', VE, e3x.nn.rotate, x, c.arr(k, k))
  c.bad('Wigner-D size', VE, e3x.nn.rotate, x, c.arr((L + 1) ** 2, k))
  c.good('Wigner-D size', e3x.nn.rotate, x, c.arr((L + 1) ** 2, (L + 1) ** 2))
  y = c.features(batch=(3,))
  L = nets.maxdeg(y)
  d = (L + 1) ** 2
  c.bad('Wigner-D batch', VE, e3x.nn.rotate, y, c.arr(c.pick(1, 2, 4), d, d))
  c.bad('Wigner-D batch', VE, e3x.nn.rotate, y, c.arr(3, 3, d, d))
  c.good('Wigner-D batch', e3x.nn.rotate, y, c.arr(3, d, d))
  # addition
  b, F = c.pick((3,), (2, 2)), c.int(2, 5)
  x = [c.features(batch=b, F=F) for _ in range(c.int(2, 4))]
  c.good('add', e3x.nn.add, *x)
  i = c.int(0, len(x))
  for label, bad in (('add batch', c.features(batch=reshaped(c, b), F=F)), ('add batch', c.features(batch=(), F=F)),
                     ('add batch', c.features(batch=(1,) * len(b), F=F)),
                     ('add features', c.features(batch=b, F=F + 1)), ('add features', c.features(batch=b, F=1)),
                     ('add dtype', x[i].astype(jnp.float16)), ('add shape', c.arr(*b, 3, 4, F)), ('add shape', c.arr(*b, 1, 5, F)),
                     ('add shape', c.arr(4, F))):
    y = list(x)
    y[i] = bad
    c.bad(label, VE, e3x.nn.add, *y)


# --------------------------------------------------------------------- modules
@entry
def embedding(c):
  m = e3x.nn.Embed(c.int(2, 9), c.int(1, 5))
  i = jnp.asarray(c.rng.integers(0, 2, size=c.pick((), (3,), (2, 2))))
  c.good('embed', Init(c, m), KEY, i)
  c.bad('embed floats', VE, Init(c, m), KEY, i.astype(c.dtype))
  c.bad('embed booleans', VE, Init(c, m), KEY, i.astype(bool))


@entry
def dense(c):
  m = e3x.nn.Dense(c.int(1, 5))
  c.bad('feature shape', VE, Init(c, m), KEY, c.arr(*c.bad_feature_shape()))
  t = e3x.nn.TensorDense(c.int(1, 5), max_degree=0)
  c.bad('feature shape', VE, Init(c, t), KEY, c.arr(*c.bad_feature_shape()))
  x = c.features(L=c.int(0, 3))
  L = nets.maxdeg(x)
  c.bad('degree of product', VE, Init(c, e3x.nn.TensorDense(2, max_degree=2 * L + c.int(1, 3), use_fused_tensor=bool(c.int(0, 2)))), KEY, x)
  c.good('degree of product', Init(c, e3x.nn.TensorDense(2, max_degree=2 * L)), KEY, x) if L < 2 else None


@entry
def products(c):
  cls = c.pick(e3x.nn.Tensor, e3x.nn.FusedTensor)
  F = c.int(2, 5)
  x, y = c.features(L=c.int(0, 3), F=F, batch=(2,)), c.features(L=c.int(0, 3), F=F, batch=(2,))
  L = nets.maxdeg(x) + nets.maxdeg(y)
  inc = bool(c.int(0, 2))
  c.bad('degree of product', VE, Init(c, cls(max_degree=L + c.int(1, 4), include_pseudotensors=inc)), KEY, x, y)
  c.good('degree of product', Init(c, cls(max_degree=min(L, 3), include_pseudotensors=inc)), KEY, x, y)
  c.bad('negative degree', ANY, Init(c, cls(max_degree=-c.int(1, 4), include_pseudotensors=inc)), KEY, x, y)
  for F2 in (F + 1, 1):
    z = c.features(L=nets.maxdeg(y), F=F2, batch=(2,))
    c.bad('features of product', VE, Init(c, cls(max_degree=0)), KEY, x, z)
    c.bad('features of product', VE, Init(c, cls(max_degree=0)), KEY, z, x)
  bad = c.arr(*c.bad_feature_shape())
  c.bad('feature shape', VE, Init(c, cls(max_degree=0)), KEY, x, bad)
  c.bad('feature shape', VE, Init(c, cls(max_degree=0)), KEY, bad, x)
  c.bad('batch of product', ANY, Init(c, cls(max_degree=0)), KEY, c.features(batch=(2,), F=F), c.features(batch=(3,), F=F))


def graph(c, F):
  n, m = c.int(2, 5), c.int(2, 5)
  p, k = c.int(2, 8), c.int(1, 4)
  dst, src = jnp.asarray(c.rng.integers(0, n, size=p)), jnp.asarray(c.rng.integers(0, m, size=p))
  adj = jnp.asarray(c.rng.integers(0, m, size=(n, k)))
  mk = lambda *b: c.features(batch=b, P=1, L=1, F=F)
  return n, m, p, k, dst, src, adj, mk


@entry
def message_passing(c):
  F = c.int(2, 4)
  n, m, p, k, dst, src, adj, mk = graph(c, F)
  M = e3x.nn.MessagePass(max_degree=1, use_fused_tensor=bool(c.int(0, 2)))
  x = mk(m)
  s, d = dict(dst_idx=dst, src_idx=src, num_segments=n), dict(adj_idx=adj)
  c.good('sparse', Init(c, M), KEY, x, mk(p), **s)
  c.good('dense', Init(c, M), KEY, x, mk(n, k), **d)
  c.good('weights', Init(c, M), KEY, x, mk(p), c.pick(c.arr(p, 1, 1, 1), c.arr(p, 1, 1, F), c.arr(1, 1, 1, F), c.arr(F), c.arr(p, 1, 4, F)), **s)
  c.bad('neither list', RE, Init(c, M), KEY, x, mk(p))
  c.bad('both lists', RE, Init(c, M), KEY, x, mk(p), **s, **d)
  c.bad('incomplete list', RE, Init(c, M), KEY, x, mk(p), src_idx=src, num_segments=n)
  c.bad('incomplete list', RE, Init(c, M), KEY, x, mk(p), dst_idx=dst, num_segments=n)
  c.bad('list shapes', VE, Init(c, M), KEY, x, mk(p), dst_idx=jnp.concatenate([dst, dst[:1]]), src_idx=src, num_segments=n)
  c.bad('list shapes', VE, Init(c, M), KEY, x, mk(p), dst_idx=dst, src_idx=jnp.concatenate([src, src[:1]]), num_segments=n)
  c.bad('basis shape', VE, Init(c, M), KEY, x, mk(p + 1), **s)
  c.bad('basis shape', VE, Init(c, M), KEY, x, mk(1), **s)
  c.bad('basis shape', VE, Init(c, M), KEY, x, mk(n, k + 1), **d)
  c.bad('basis shape', VE, Init(c, M), KEY, x, mk(p), **d) if True else None
  for w in (c.arr(p + 1, 1, 1, 1), c.arr(p, 1, 1, F + 1), c.arr(p, 1, 3, 1), c.arr(p, 3, 4, F), c.arr(F + 1)):
    c.bad('weight shape', VE, Init(c, M), KEY, x, mk(p), w, **s)
  # Weights must broadcast to the gathered inputs, not the other way around.
  scalar = lambda *b: c.features(batch=b, P=1, L=0, F=F)
  for w in (c.arr(p, 1, 4, F), c.arr(p, 2, 1, F), c.arr(4, 1), c.arr(2, p, 1, 1, F)):
    c.bad('weights extend inputs', VE, Init(c, M), KEY, scalar(m), mk(p), w, **s)
  one = lambda *b: c.features(batch=b, P=1, L=1, F=1)
  c.bad('weights extend inputs', VE, Init(c, M), KEY, one(m), one(p), c.arr(p, 1, 1, c.int(2, 5)), **s)
  c.bad('weights extend inputs', VE, Init(c, M), KEY, x, mk(n, k), c.arr(n, k, 2, 4, F), **d)


@entry
def attention(c):
  F = c.pick(2, 4, 6)
  n, m, p, k, dst, src, adj, mk = graph(c, F)
  s, d = dict(dst_idx=dst, src_idx=src, num_segments=n), dict(adj_idx=adj)
  A = e3x.nn.MultiHeadAttention
  q, v = mk(n), mk(m)
  M = A(num_heads=c.pick(1, 2))
  c.good('sparse', Init(c, M), KEY, q, v, mk(p), **s)
  c.good('dense', Init(c, M), KEY, q, v, mk(n, k), **d)
  c.good('heads', Init(c, A(num_heads=F)), KEY, q, v, mk(p), **s)
  c.good('heads', Init(c, A(num_heads=3, qkv_features=3 * c.int(1, 3))), KEY, q, v, mk(p), **s)
  c.bad('heads', VE, Init(c, A(num_heads=5)), KEY, q, v, mk(p), **s)
  c.bad('heads', VE, Init(c, A(num_heads=2 * F)), KEY, q, v, mk(p), **s)
  c.bad('heads', VE, Init(c, A(num_heads=2, qkv_features=c.pick(1, 3, 5))), KEY, q, v, mk(p), **s)
  c.bad('missing basis', TE, Init(c, A(use_relative_positional_encoding_qk=True, use_relative_positional_encoding_v=False)), KEY, q, v, None, **s)
  c.bad('missing basis', TE, Init(c, A(use_relative_positional_encoding_qk=False, use_relative_positional_encoding_v=True)), KEY, q, v, **s)
  c.bad('missing basis', TE, Init(c, A()), KEY, q, v, **d)
  c.good('no encodings', Init(c, A(use_relative_positional_encoding_qk=False, use_relative_positional_encoding_v=False)), KEY, q, v, None, **s)
  c.bad('neither list', RE, Init(c, M), KEY, q, v, mk(p), num_segments=n)
  c.bad('both lists', RE, Init(c, M), KEY, q, v, mk(p), **s, **d)
  c.bad('incomplete list', RE, Init(c, M), KEY, q, v, mk(p), src_idx=src, num_segments=n)
  c.bad('incomplete list', RE, Init(c, M), KEY, q, v, mk(p), dst_idx=dst, num_segments=n)
  c.bad('list shapes', ANY, Init(c, M), KEY, q, v, mk(p), dst_idx=jnp.concatenate([dst, dst[:1]]), src_idx=src, num_segments=n)
  c.bad('batch shape', VE, Init(c, M), KEY, c.features(batch=(2, n), P=1, L=1, F=F), c.features(batch=(3, m), P=1, L=1, F=F), mk(p), **s)
  c.bad('batch shape', VE, Init(c, M), KEY, c.features(batch=(2, n), P=1, L=1, F=F), v, mk(p), **s)
  c.bad('feature shape', VE, Init(c, M), KEY, c.arr(n, 1, 5, F), v, mk(p), **s)
  c.bad('feature shape', VE, Init(c, M), KEY, q, c.arr(m, 3, 4, F), mk(p), **s)
  c.bad('basis shape', ANY, Init(c, M), KEY, q, v, mk(p + 1), **s)
  c.good('cutoff values', Init(c, M), KEY, q, v, mk(p), c.arr(p), **s)
  for cut in (c.arr(p + 1), c.arr(1), c.arr(p, 1), c.arr()):
    c.bad('cutoff shape', ANY, Init(c, M), KEY, q, v, mk(p), cut, **s)
  S = e3x.nn.SelfAttention(num_heads=c.pick(1, 2))
  src2 = jnp.minimum(src, n - 1)
  s2 = dict(dst_idx=dst, src_idx=src2, num_segments=n)
  c.good('self attention', Init(c, S), KEY, q, mk(p), **s2)
  c.bad('missing basis', TE, Init(c, S), KEY, q, **s2)
  c.bad('neither list', RE, Init(c, S), KEY, q, mk(p))
  c.bad('heads', VE, Init(c, e3x.nn.SelfAttention(num_heads=5)), KEY, q, mk(p), **s2)


@entry
def square_matrix(c):
  degrees = sorted(int(l) for l in c.rng.integers(0, 3, size=c.int(1, 4)))
  mult, top = c.int(1, 3), max(degrees) + c.int(0, 2)
  count = e3x.matrix.matmat.make_dict_irreps_mult(degrees, max_degree=top)
  irreps = [c.arr(2 * l + 1, count[l] * mult ** 2) for l in range(max(count) + 1)]
  f = lambda irreps, degrees, mult, top, **kw: e3x.matrix.make_square_matrix(irreps, degrees, mult, top, bool(c.int(0, 2)), None, **kw)
  out = c.good('matrix', f, irreps, degrees, mult, top)
  side = mult * sum(2 * l + 1 for l in degrees)
  c.mon.expect('matrix shape', out is None or out.shape == (side, side), str(getattr(out, 'shape', None)))
  c.bad('maximum degree below degrees', VE, f, irreps, degrees + [top + 1], mult, top)
  i = c.int(0, len(irreps))
  rows = 2 * i + c.pick(0, 2)
  c.bad('even irrep', VE, f, irreps[:i] + [c.arr(rows, irreps[i].shape[1])] + irreps[i + 1:], degrees, mult, top)
  # Too few components for at least one degree which is used.
  used = [l for l in range(len(irreps)) if count[l]]
  j = c.pick(*used)
  c.bad('too few irreps', ANY, f, irreps[:j] + [irreps[j][:, :-1]] + irreps[j + 1:], degrees, mult, top)
  g = e3x.matrix.matmat.make_rectangular_matrix
  cg = e3x.so3.clebsch_gordan(2, 2, 4, cartesian_order=True)
  a, b = c.pick(1, 3, 5), c.pick(1, 3, 5)
  full = [c.arr(2 * l + 1, mult ** 2) for l in range(5)]
  r = lambda irreps, a, b, cg: g(irreps, [0] * len(irreps), a, b, cg, mult, None)
  c.good('rectangle', r, full, a, b, cg)
  i = c.int(0, 5)
  c.bad('even irrep', VE, r, full[:i] + [c.arr(2 * i + c.pick(0, 2), mult ** 2)] + full[i + 1:], a, b, cg)
  c.bad('irrep dimensions', VE, r, full[:i] + [c.arr(2 * i + 1)] + full[i + 1:], a, b, cg)
  c.bad('even side', VE, r, full, c.pick(2, 4), b, cg)
  c.bad('even side', VE, r, full, a, c.pick(2, 4), cg)
  c.bad('too few coefficients', VE, r, full, 5, b, cg[:c.pick(4, 8)])
  c.bad('too few coefficients', VE, r, full, a, 5, cg[:, :c.pick(4, 8)])
  c.bad('too few coefficients', VE, r, full, 5, 3, cg[..., :9])


@entry
def initializer(c):
  I = e3x.nn.initializers
  shape = (c.int(1, 3), c.int(1, 4), c.int(1, 3), c.int(1, 4), c.int(1, 3), c.int(1, 4), 2)
  f = I.tensor_variance_scaling
  c.mon.begin(label='initializers', shape=shape)
  c.mon.call('valid initializer', f(1.0, c.pick('fan_in', 'fan_out', 'fan_avg'), c.pick('normal', 'truncated_normal', 'uniform')), KEY, shape)
  c.mon.raises('mode', VE, lambda: f(1.0, c.pick('fan', 'FAN_IN', ''), 'normal')(KEY, shape))
  c.mon.raises('distribution', VE, lambda: f(1.0, 'fan_in', c.pick('gauss', 'Normal', ''))(KEY, shape))
  g = getattr(I, c.pick('tensor_lecun_normal', 'tensor_glorot_uniform', 'tensor_he_normal', 'tensor_kaiming_uniform'))()
  for i in (0, 2, 4):
    s = list(shape)
    s[i] = c.pick(0, 3, 4)
    c.mon.raises('parity axis', VE, g, KEY, tuple(s))
  c.mon.raises('kernel dimensions', VE, g, KEY, shape[:-1])
  c.mon.raises('kernel dimensions', VE, g, KEY, (1,) + shape)


def run(mon, env):
  c = Ctx(mon, env)
  heavy = {attention, message_passing, products, dense}
  for r in range(env.n(2, 60)):
    for i, f in enumerate(CATALOGUE):
      if f in heavy and (i + r + env.shard) % (4 if not env.thorough else 2):
        continue
      if not mon.time_left():
        return
      mon.section(f.__name__, f, c)
