"""P20: global defaults take effect and explicit arguments always win.

A random history of Config.set_* calls is replayed against a model of the
configuration; between the changes every function and layer with configurable
defaults is called without, with some and with all of these arguments."""
import functools
import os

import jax
import jax.numpy as jnp
import numpy as np

import e3x
from e3x.matrix import matmat
from monitors import core, nets, ref

DEFAULTS = dict(cartesian_order=True, use_fused_tensor=False, normalization='racah')
VALUES = dict(cartesian_order=(True, False), use_fused_tensor=(True, False), normalization=('racah', 'schmidt', '4pi', 'orthonormal'))
KEY = jax.random.PRNGKey(7)


def leaves(x):
  return [(jax.tree_util.keystr(k), np.asarray(v)) for k, v in jax.tree_util.tree_leaves_with_path(x)]


def fingerprint(x):
  out = leaves(x)
  return core.digest(*[a for _, a in out]) + '|' + ','.join('%s%s' % (k, a.shape) for k, a in out)


class Subject:
  """A function or layer: call(**kw) with some configurable arguments."""

  def __init__(self, name, call, args):
    self.name, self.call, self.args = name, call, args


def subjects(rng, dtype):
  A = lambda *s: jnp.asarray(rng.normal(size=s), dtype)
  S = []
  add = lambda name, call, *args: S.append(Subject(name, call, args))
  r = A(4, 3)
  L = int(rng.integers(1, 4))
  co, no, fu = 'cartesian_order', 'normalization', 'use_fused_tensor'
  add('spherical_harmonics', functools.partial(e3x.so3.spherical_harmonics, r, L), co, no)
  add('solid_harmonics', functools.partial(e3x.so3.solid_harmonics, r, L), co)
  add('clebsch_gordan', functools.partial(e3x.so3.clebsch_gordan, 1, 2, L), co)
  add('clebsch_gordan_for_degrees', functools.partial(e3x.so3.clebsch_gordan_for_degrees, 1, 2, L), co)
  t = rng.normal(size=(3, 3))
  t = t + t.T
  t -= np.eye(3) * np.trace(t) / 3
  add('tensor_to_irreps', functools.partial(e3x.so3.tensor_to_irreps, jnp.asarray(t, dtype), 2), co, no)
  add('irreps_to_tensor', functools.partial(e3x.so3.irreps_to_tensor, A(2, 2 * L + 1), L), co, no)
  rot = jnp.asarray(ref.random_rot(rng), dtype)
  add('wigner_d', functools.partial(e3x.so3.wigner_d, rot, L), co)
  fn = functools.partial(e3x.nn.basic_fourier, limit=2.0)
  add('basis', functools.partial(e3x.nn.basis, r, max_degree=L, num=3, radial_fn=fn), co)
  add('basis with norm', functools.partial(e3x.nn.basis, r, max_degree=L, num=3, radial_fn=fn, return_norm=True, return_cutoff=True,
                                           cutoff_fn=e3x.nn.smooth_cutoff, damping_fn=e3x.nn.smooth_damping), co)
  add('basis with solid harmonics', functools.partial(
      e3x.nn.basis, r, max_degree=L, num=2, radial_fn=fn, angular_fn=e3x.so3.solid_harmonics), co)

  def harmonics(normalization=None, cartesian_order=None):  # default of the angular function
    f = e3x.so3.spherical_harmonics if normalization is None else functools.partial(e3x.so3.spherical_harmonics, normalization=normalization)
    kw = {} if cartesian_order is None else dict(cartesian_order=cartesian_order)
    return e3x.nn.basis(r, max_degree=L, num=2, radial_fn=fn, angular_fn=f, **kw)
  add('basis with spherical harmonics', harmonics, co, no)
  add('ExponentialBasis', lambda **kw: e3x.nn.ExponentialBasis().init_with_output(
      KEY, r, max_degree=L, num=3, radial_fn=e3x.nn.exponential_bernstein, **kw), co)
  P, F = int(rng.integers(1, 3)), 2
  l = 2  # (degree 1 couplings are the same in both orders)
  x, y = jnp.asarray(nets.features(rng, dtype, (3,), P, l, F)), jnp.asarray(nets.features(rng, dtype, (3,), 1, 1, F))
  n, z = 3, jnp.asarray(nets.features(rng, dtype, (3,), 1, 2, F))
  dst, src = jnp.asarray([0, 0, 1, 2, 2]), jnp.asarray([1, 2, 0, 0, 1])
  b = jnp.asarray(nets.features(rng, dtype, (5,), 1, 1, F))
  lists = dict(dst_idx=dst, src_idx=src, num_segments=n)
  nn = e3x.nn

  def layer(cls, *args, field=(), **kwargs):
    return lambda **kw: cls(**dict(field), **kw).init_with_output(KEY, *args, **kwargs)
  add('Tensor', layer(nn.Tensor, x, y), co)
  add('FusedTensor', layer(nn.FusedTensor, x, y), co)
  add('TensorDense', layer(nn.TensorDense, x, field=dict(features=2)), co, fu)
  add('MessagePass', layer(nn.MessagePass, x, b, **lists), co, fu)
  add('MultiHeadAttention', layer(nn.MultiHeadAttention, x, z, b, **lists), co, fu)
  add('SelfAttention', layer(nn.SelfAttention, x, b, field=dict(num_heads=2), **lists), co, fu)

  import flax.linen as fnn

  class Net(fnn.Module):  # layers constructed while the model runs
    kw: dict

    @fnn.compact
    def __call__(self, x):
      h = nn.TensorDense(features=F, max_degree=1, **self.kw)(x)
      k = {k: v for k, v in self.kw.items() if k == co}
      e = nn.basis(r[:3], max_degree=1, num=F, radial_fn=fn, **k)
      h = nn.Tensor(**k)(h, nn.Dense(F)(e))
      return nn.MessagePass(max_degree=1, **self.kw)(h, b, **lists)
  add('model', lambda **kw: Net(kw).init_with_output(KEY, x), co, fu)
  # No configurable argument: never affected.
  add('Dense', layer(nn.Dense, x, field=dict(features=3)))
  add('rotation', lambda: e3x.so3.rotation(r, r[:, 0]))
  add('euler', lambda: e3x.so3.euler_angles_from_rotation(rot))
  add('is_traceless_symmetric', lambda: jnp.asarray(e3x.so3.is_traceless_symmetric(jnp.asarray(t, dtype), 2)))
  add('change_max_degree_or_type', lambda: e3x.nn.change_max_degree_or_type(x, 3, True))
  add('quadrature', lambda: e3x.so3.lebedev_quadrature(precision=5))
  add('activation', lambda: e3x.nn.silu(x))
  irreps = [A(1, 2), A(3, 3), A(5, 1)]
  add('make_square_matrix', lambda: matmat.make_square_matrix(irreps, [0, 1], 1, 2, True, None))
  return S


class World:
  """Model of the configuration plus results recorded for explicit arguments."""

  def __init__(self, mon, env):
    self.mon, self.env, self.rng = mon, env, env.rng
    self.model = dict(DEFAULTS)
    self.caches = {k: getattr(e3x.Config, k) for k in
                   ('spherical_harmonics_cache', 'clebsch_gordan_cache', 'wigner_d_cache', 'tensor_conversion_cache')}
    self.subjects = subjects(self.rng, env.dtype)
    self.record = {}
    self.history = []

  def config_matches(self):
    for k, v in {**self.model, **self.caches}.items():
      got = getattr(e3x.Config, k)
      self.mon.expect('configuration', (got is v if isinstance(v, bool) else str(got) == str(v)), '%s is %r, expected %r' % (k, got, v),
                      history=self.history[-20:])

  def change(self):
    rng = self.rng
    k = ['cartesian_order', 'use_fused_tensor', 'normalization', 'normalization', 'cache', 'invalid', 'reset'][rng.integers(7)]
    if k == 'cache':
      name = ['spherical_harmonics_cache', 'tensor_conversion_cache'][rng.integers(2)]
      path = [None, os.path.join(self.env.scratch, 'cfg_%d_%s.npz' % (self.env.shard, name))][rng.integers(2)]
      getattr(e3x.Config, 'set_' + name)(path)
      self.caches[name] = path
      self.history.append((name, path is not None))
    elif k == 'invalid':
      bad = ['Racah', 'foo', '', '4PI'][rng.integers(4)]
      self.mon.raises('invalid normalization', ValueError, e3x.Config.set_normalization, bad)
      self.history.append(('invalid', bad))
    elif k == 'reset':
      name = list(DEFAULTS)[rng.integers(3)]
      getattr(e3x.Config, 'set_' + name)()  # without argument: the original default
      self.model[name] = DEFAULTS[name]
      self.history.append((name, 'reset'))
    else:
      v = VALUES[k][rng.integers(len(VALUES[k]))]
      if rng.integers(2):
        getattr(e3x.Config, 'set_' + k)(v)
      else:
        getattr(e3x.Config, 'set_' + k)(**{k: v})
      self.model[k] = v
      self.history.append((k, v))
    self.config_matches()

  def explicit(self, s, kw, now):
    """Result with all arguments explicit; must be the same at all times."""
    key = (s.name, tuple(sorted(kw.items())))
    if now or key not in self.record:
      got = fingerprint(self.mon.call(s.name + ' (explicit)', s.call, **kw))
      if key in self.record:
        self.mon.expect(s.name + ': explicit arguments win', got == self.record[key], 'result depends on the defaults',
                        arguments=kw, defaults=self.model, history=self.history[-20:])
      else:
        self.record[key] = got
    return self.record[key]

  def probe(self, s, full):
    rng, mon = self.rng, self.mon
    full_kw = {a: self.model[a] for a in s.args}
    mon.begin(subject=s.name, defaults={a: str(self.model[a]) for a in s.args})
    got = fingerprint(mon.call(s.name, s.call))
    want = self.explicit(s, full_kw, now=bool(rng.integers(2)))
    mon.expect(s.name + ': default is the configured value', got == want, 'differs from the explicit call', defaults=self.model,
               history=self.history[-20:])
    if s.args and full:
      # some arguments explicit, the others from the configuration
      some = {a: VALUES[a][rng.integers(len(VALUES[a]))] for a in s.args if rng.integers(2)}
      if some:
        mon.begin(subject=s.name, defaults={a: str(self.model[a]) for a in s.args}, explicit={k: str(v) for k, v in some.items()})
        got = fingerprint(mon.call(s.name, s.call, **some))
        want = self.explicit(s, {**full_kw, **some}, now=bool(rng.integers(2)))
        mon.expect(s.name + ': partly explicit', got == want, 'differs from the explicit call', arguments=some, defaults=self.model,
                   history=self.history[-20:])
      every = {a: VALUES[a][rng.integers(len(VALUES[a]))] for a in s.args}
      self.explicit(s, every, now=True)
    self.config_matches()

  def different(self):
    """The settings matter: results really differ between values (liveness)."""
    for s in self.subjects:
      by = {}
      for (name, kw), f in self.record.items():
        if name == s.name:
          kw = dict(kw)
          if kw.get('normalization') == 'schmidt':
            kw['normalization'] = 'racah'  # synonyms
          by.setdefault(f, set()).add(tuple(sorted(kw.items())))
      for f, kws in by.items():
        self.mon.expect(s.name + ': settings have an effect', len(kws) == 1, 'same result for %s' % sorted(map(str, kws)))


def restore():
  for k, v in DEFAULTS.items():
    getattr(e3x.Config, 'set_' + k)(v)


def history(mon, env):
  w = World(mon, env)
  saved = dict(w.caches)
  try:
    w.config_matches()
    # With the library's defaults first, then along a random history.
    for step in range(env.n(4, 10)):
      if step:
        for _ in range(int(env.rng.integers(1, 4))):
          w.change()
      order = env.rng.permutation(len(w.subjects))
      for i in order[:env.n(12, 40)]:
        if not mon.time_left():
          return
        mon.section('probe', w.probe, w.subjects[i], True)
    # Restoring the defaults restores the behaviour.
    for k in env.rng.permutation(list(DEFAULTS)):
      getattr(e3x.Config, 'set_' + k)()
      w.model[k] = DEFAULTS[k]
    w.config_matches()
    for i in env.rng.permutation(len(w.subjects))[:8]:
      mon.section('probe', w.probe, w.subjects[i], False)
    w.different()
  finally:
    restore()
    for k, v in saved.items():
      getattr(e3x.Config, 'set_' + k)(v)


def run(mon, env):
  for _ in range(env.n(1, 12)):
    if not mon.time_left():
      return
    mon.section('history', history, mon, env)
