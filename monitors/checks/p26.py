"""P26: attention weights are normalised, cutoff-aware and per head.

The layer's weights are observed from outside: the value and output projections are
chosen so that the output shows the weighted mean directly.
"""
import jax
import jax.numpy as jnp
import numpy as np

import e3x
from monitors import graphs, nets, ref


class Probe:
  """A MultiHeadAttention/SelfAttention layer with chosen parameters."""

  def __init__(self, mon, env, self_attn, F=None, H=None, qk=None, cutoff=None, extra_bias=False):
    rng = env.rng
    self.env, self.mon = env, mon
    self.H = H = H or [1, 2, 3, 4][rng.integers(4)]
    self.F = F = F or H * int(rng.integers(1, 4))
    self.qk = bool(rng.integers(2)) if qk is None else qk
    self.cutoff = bool(rng.integers(2)) if cutoff is None else cutoff
    self.n = n = int(rng.integers(3, 6))
    self.m = m = n if self_attn else int(rng.integers(2, 6))
    self.P, self.L = int(rng.integers(1, 3)), int(rng.integers(0, 3))
    self.Pk, self.Lk = (self.P, self.L) if self_attn else (int(rng.integers(1, 3)), int(rng.integers(0, 3)))
    self.self_attn = self_attn
    cls = e3x.nn.SelfAttention if self_attn else e3x.nn.MultiHeadAttention
    self.mod = cls(num_heads=H, use_relative_positional_encoding_qk=self.qk,
                   use_relative_positional_encoding_v=False, query_use_bias=bool(rng.integers(2)),
                   key_use_bias=bool(rng.integers(2)), use_basis_bias=bool(rng.integers(2)),
                   value_use_bias=extra_bias, output_use_bias=extra_bias)
    self.pairs = nets.random_graph(rng, n, m, p=rng.uniform(0.4, 0.9), isolated=False)
    self.x = nets.features(rng, env.dtype, (n,), self.P, self.L, F)
    self.xkv = self.x if self_attn else nets.features(rng, env.dtype, (m,), self.Pk, self.Lk, F)
    self.nb = int(rng.integers(1, 4))
    self.basis = nets.features(rng, env.dtype, (len(self.pairs),), 1, int(rng.integers(0, 2)), self.nb)
    self.cut = np.asarray(rng.uniform(0.05, 1.0, size=len(self.pairs)), env.dtype) if self.cutoff else None
    self.sparse = bool(rng.integers(2))

  def describe(self, what):
    self.mon.begin(what=what, self_attention=self.self_attn, heads=self.H, F=self.F, qk=self.qk, cutoff=self.cutoff,
                   n=self.n, m=self.m, P=self.P, L=self.L, Pk=self.Pk, Lk=self.Lk, pairs=len(self.pairs),
                   sparse=self.sparse)

  def init(self, scale=0.8):
    a, k = self.args(self.pairs, self.basis, self.cut, self.x, self.xkv)
    self.params = self.mon.call('init', nets.random_params, self.env.rng, self.mod, self.env.dtype, *a, scale=scale, **k)
    return self.params

  def transparent(self):
    """Identity value and output projections: output = weighted mean of inputs."""
    p = self.params['params']
    for name in ('value', 'out'):
      for irrep in p[name]:
        p[name][irrep]['kernel'] = np.eye(self.F, dtype=self.env.dtype)
        if 'bias' in p[name][irrep]:
          p[name][irrep]['bias'] = np.zeros(self.F, self.env.dtype)

  def args(self, pairs, basis, cut, x, xkv):
    rng = self.env.rng
    lay = (graphs.sparse if self.sparse else graphs.dense)(rng, pairs, self.n, self.m, self.env.dtype)
    a = [x] if self.self_attn else [x, xkv]
    a.append(lay.put(basis))
    if cut is not None:
      a.append(lay.put(cut))
    return [jnp.asarray(v) for v in a], lay.idx

  def out(self, pairs=None, basis=None, cut='same', x=None, xkv=None, params=None):
    pairs = self.pairs if pairs is None else pairs
    basis = self.basis if basis is None else basis
    cut = self.cut if isinstance(cut, str) else cut
    x = self.x if x is None else x
    xkv = (self.xkv if not self.self_attn else x) if xkv is None else xkv
    a, k = self.args(pairs, basis, cut, x, xkv)
    params = self.params if params is None else params
    return np.asarray(self.mon.call('attention', lambda p, *b: self.mod.apply(p, *b, **k), params, *a), np.float64)

  def weights(self, pairs=None, basis=None, cut='same', x=None, xkv=None):
    """Reference weights."""
    pairs = self.pairs if pairs is None else pairs
    x = self.x if x is None else x
    xkv = (self.xkv if not self.self_attn else x) if xkv is None else xkv
    return nets.attention_weights(
        nets.f64(self.params['params']), x, xkv, self.basis if basis is None else basis, pairs[:, 0], pairs[:, 1],
        self.H, self.cut if isinstance(cut, str) else cut, self.qk, n=self.n)

  def mean(self, w, v, pairs=None):
    pairs = self.pairs if pairs is None else pairs
    w = np.repeat(w, self.F // self.H, axis=-1)[:, None, None, :]
    return nets.pair_sum(w * np.asarray(v, float)[pairs[:, 1]], pairs[:, 0], self.n)


def exact(mon, env):
  """Output = per-head convex combination with the documented weights."""
  p = Probe(mon, env, bool(env.rng.integers(2)))
  p.describe('documented weights')
  p.init()
  p.transparent()
  w, _ = p.weights()
  y = p.out()
  mon.close('weighted mean with documented weights', y, p.mean(w, p.xkv), 300 * env.eps,
            scale=max(1.0, float(np.max(np.abs(p.xkv)))))
  # Convexity, oracle free: within the range of the neighbours' values.
  for i in range(p.n):
    v = np.asarray(p.xkv, float)[p.pairs[p.pairs[:, 0] == i, 1]]
    if len(v):
      slack = 50 * env.eps * np.max(np.abs(v))
      mon.expect('inside the neighbours\' range', np.all(y[i] <= v.max(0) + slack) and np.all(y[i] >= v.min(0) - slack), '')
  # Full layer with random projections against the reference.
  q = Probe(mon, env, bool(env.rng.integers(2)), extra_bias=True)
  q.describe('full layer')
  prm = q.init()
  want = nets.attention(nets.f64(prm['params']), q.x, q.xkv, q.basis, q.pairs[:, 0], q.pairs[:, 1], q.H, q.cut, q.qk,
                        False)
  mon.close('full layer', q.out(), want, 600 * env.eps)


def constant(mon, env):
  """Constant values pass through; with random value/out maps the same constant."""
  p = Probe(mon, env, False, extra_bias=True)
  p.describe('constant values')
  p.init(scale=env.rng.uniform(0.5, 2))
  prm = nets.f64(p.params['params'])
  row = nets.features(env.rng, env.dtype, (1,), p.Pk, p.Lk, p.F)
  # Only the value branch is constant: keys differ through the basis encoding if qk,
  # and through the multiplicity/cutoff.
  xkv = np.repeat(row, p.m, axis=0)
  want = nets.dense(prm['out'], nets.dense(prm['value'], row))[0]
  y = p.out(xkv=xkv)
  have = np.unique(p.pairs[:, 0])
  mon.close('constant values pass through', y[have], np.broadcast_to(want, y[have].shape), 300 * env.eps,
            scale=max(1.0, float(np.max(np.abs(want)))))


def equal_logits(mon, env):
  p = Probe(mon, env, bool(env.rng.integers(2)), cutoff=False)
  p.describe('equal logits')
  p.init()
  p.transparent()
  which = ['query', 'key'][env.rng.integers(2)]
  for irrep in p.params['params'][which].values():
    for k in irrep:
      irrep[k] = np.zeros_like(irrep[k])
  y = p.out()
  for i in np.unique(p.pairs[:, 0]):
    v = np.asarray(p.xkv, float)[p.pairs[p.pairs[:, 0] == i, 1]]
    mon.close('equal logits give the plain mean', y[i], v.mean(0), 50 * env.eps, scale=max(1.0, np.max(np.abs(v))))


def duplicates(mon, env):
  """Listing a pair k times = cutoff k on that pair (and the documented weight)."""
  rng = env.rng
  p = Probe(mon, env, bool(rng.integers(2)), cutoff=bool(rng.integers(2)))
  p.describe('repeated neighbours')
  p.init()
  p.transparent()
  reps = rng.integers(1, 4, size=len(p.pairs))
  idx = np.repeat(np.arange(len(p.pairs)), reps)
  perm = np.lexsort((rng.random(len(idx)), p.pairs[idx, 0]))
  idx = idx[perm]
  y = p.out(pairs=p.pairs[idx], basis=p.basis[idx], cut=None if p.cut is None else p.cut[idx])
  c = np.asarray(reps if p.cut is None else reps * p.cut, env.dtype)
  z = p.out(cut=c)
  mon.close('repeated k times = weight times k', y, z, 200 * env.eps, scale=max(1.0, np.max(np.abs(z))))
  w, _ = p.weights(cut=c)
  mon.close('repeated neighbours reference', y, p.mean(w, p.xkv), 300 * env.eps, scale=max(1.0, np.max(np.abs(z))))


def cutoffs(mon, env):
  rng = env.rng
  p = Probe(mon, env, bool(rng.integers(2)), cutoff=True)
  p.describe('cutoff values')
  p.init()
  p.transparent()
  y = p.out()
  s = np.max(np.abs(y))
  # A common factor per query drops out.
  f = np.exp(rng.uniform(-30, 30, size=p.n))[p.pairs[:, 0]]
  z = p.out(cut=np.asarray(p.cut * f, env.dtype))
  mon.close('common cutoff factor per query drops out', z, y, 100 * env.eps, scale=max(1.0, s))
  # All ones = no cutoff.
  mon.close('unit cutoff = no cutoff', p.out(cut=np.ones_like(p.cut)), p.out(cut=None), 50 * env.eps, scale=max(1.0, s))
  # Zero = pair absent.
  kill = rng.random(len(p.pairs)) < 0.4
  kill[rng.integers(len(kill))] = True
  c0 = np.where(kill, 0, p.cut).astype(env.dtype)
  z0 = p.out(cut=c0)
  mon.finite('zero cutoff finite', z0)
  keep = ~kill
  if keep.any():
    z1 = p.out(pairs=p.pairs[keep], basis=p.basis[keep], cut=p.cut[keep])
    # Queries that lose all pairs: nothing is claimed except finiteness.
    have = np.unique(p.pairs[keep, 0])
    mon.close('zero cutoff = pair removed', z0[have], z1[have], 300 * env.eps, scale=max(1.0, s))
  # Data of removed pairs is irrelevant (finite): move the source of one removed pair.
  b = p.basis.copy()
  b[kill] *= -1.5
  mon.close('data of zero-cutoff pairs is irrelevant', p.out(cut=c0, basis=b), z0, 300 * env.eps, scale=max(1.0, s))
  # Continuity: weight of a pair is proportional to its cutoff before normalisation.
  w, _ = p.weights()
  mon.close('cutoff weights', y, p.mean(w, p.xkv), 300 * env.eps, scale=max(1.0, s))
  # Derivative with respect to the cutoff values.
  a, k = p.args(p.pairs, p.basis, p.cut, p.x, p.xkv)
  co = rng.normal(size=y.shape).astype(env.dtype)
  g = mon.call('gradient', jax.grad(lambda c: jnp.sum(co * p.mod.apply(p.params, *a[:-1], c, **k))), a[-1])
  mon.finite('gradient with respect to cutoff', g)


def large(mon, env):
  """Huge logits: finite, normalised, argmax wins."""
  rng = env.rng
  p = Probe(mon, env, bool(rng.integers(2)))
  p.describe('large logits')
  p.init(scale=float(10.0 ** rng.uniform(1, 4)))
  p.transparent()
  y = p.out()
  mon.finite('large logits finite', y)
  w, dot = p.weights()
  err = 50 * env.eps * np.max(np.abs(dot))
  for i in np.unique(p.pairs[:, 0]):
    sel = np.flatnonzero(p.pairs[:, 0] == i)
    v = np.asarray(p.xkv, float)[p.pairs[sel, 1]]
    slack = 100 * env.eps * np.max(np.abs(v))
    mon.expect('large logits stay in range', np.all(y[i] <= v.max(0) + slack) and np.all(y[i] >= v.min(0) - slack), '')
    for h in range(p.H):
      d = dot[sel, h]
      top = np.argmax(d)
      rest = np.delete(d, top)
      lc = 0.0 if p.cut is None else 4.0
      if not len(rest) or d[top] - rest.max() > 45 + lc + 2 * err:
        cs = slice(h * (p.F // p.H), (h + 1) * (p.F // p.H))
        mon.close('largest logit takes all', y[i][..., cs], v[top][..., cs], 1e-5 if not env.x64 else 1e-12,
                  scale=max(1.0, np.max(np.abs(v))))
  # Constant values pass through even here.
  if not p.self_attn:
    xkv = np.repeat(p.xkv[:1], p.m, axis=0)
    y = p.out(xkv=xkv)
    have = np.unique(p.pairs[:, 0])
    mon.close('constant values, large logits', y[have], np.broadcast_to(xkv[0], y[have].shape), 100 * env.eps,
              scale=max(1.0, np.max(np.abs(xkv))))
  a, k = p.args(p.pairs, p.basis, p.cut, p.x, p.xkv)
  g = mon.call('gradient', jax.grad(lambda x: jnp.sum(p.mod.apply(p.params, x, *a[1:], **k) ** 2)), a[0])
  mon.finite('gradient, large logits', g)


def removed_large(mon, env):
  """Zero cutoff = pair removed, also when the removed pairs have the largest logits."""
  rng = env.rng
  p = Probe(mon, env, bool(rng.integers(2)), cutoff=True)
  p.describe('zero cutoff, large logits')
  p.init(scale=float(10.0 ** rng.uniform(0, 1.2)))
  p.transparent()
  _, dot = p.weights()
  # Remove the largest logit (of a random head) of every query with several pairs.
  kill = np.zeros(len(p.pairs), bool)
  h = int(rng.integers(p.H))
  for i in np.unique(p.pairs[:, 0]):
    sel = np.flatnonzero(p.pairs[:, 0] == i)
    if len(sel) > 1:
      kill[sel[np.argsort(dot[sel, h])[-int(rng.integers(1, len(sel))):]]] = True
  cut = np.where(kill, 0, p.cut).astype(env.dtype)
  y = p.out(cut=cut)
  mon.finite('zero cutoff, large logits, finite', y)
  gap = 0.0
  for i in np.unique(p.pairs[kill, 0]):
    sel = p.pairs[:, 0] == i
    gap = max(gap, np.max(dot[sel & kill].max(0) - dot[sel & ~kill].max(0)))
  p.describe('zero cutoff, removed logits larger by ' + ('more than 88' if gap > 88 else 'less than 88'))
  z = p.out(pairs=p.pairs[~kill], basis=p.basis[~kill], cut=p.cut[~kill])
  s = max(1.0, np.max(np.abs(z)))
  mon.close('zero cutoff = pair removed, large logits', y, z, 300 * env.eps * (1 + np.max(np.abs(dot))), scale=s)


def heads(mon, env):
  """Parameters of one head influence only that head."""
  rng = env.rng
  p = Probe(mon, env, bool(rng.integers(2)), H=[2, 3, 4][rng.integers(3)])
  p.describe('independent heads')
  p.init()
  p.transparent()
  y = p.out()
  h = int(rng.integers(p.H))
  q = jax.tree_util.tree_map(np.array, p.params)
  for name in ('query', 'key'):
    for irrep in q['params'][name].values():
      for k, v in irrep.items():
        v[..., h::p.H] += rng.normal(size=v[..., h::p.H].shape)
  if p.qk:
    for v in q['params']['relative_positional_encoding'].values():
      v[..., h::p.H] *= 1.7
  z = p.out(params=q)
  d = p.F // p.H
  for g in range(p.H):
    s = slice(g * d, (g + 1) * d)
    if g != h:
      mon.close('other heads unchanged', z[..., s], y[..., s], 8 * env.eps, scale=max(1.0, np.max(np.abs(y))))
  p.params = q
  w, _ = p.weights()
  mon.close('changed head follows its weights', z, p.mean(w, p.xkv), 300 * env.eps, scale=max(1.0, np.max(np.abs(z))))


def invariance(mon, env):
  """Weights depend on invariants only: rotating everything leaves them unchanged."""
  rng = env.rng
  p = Probe(mon, env, False)
  p.describe('invariant weights')
  p.init()
  p.transparent()
  R = ref.random_rot(rng)
  imp = bool(rng.integers(2))
  tf = lambda v: np.asarray(ref.transform_features(np.asarray(v, float), R, imp), env.dtype)
  # Even-scalar probes as values: replace the l=0 components by per-source tags that
  # do not enter the logits (query/key weights of the scalar channel are zero).
  for name in ('query', 'key'):
    for irrep, v in p.params['params'][name].items():
      if irrep == '0+':
        v['kernel'] = np.zeros_like(v['kernel'])
  y = p.out()
  z = p.out(x=tf(p.x), xkv=tf(p.xkv), basis=tf(p.basis))
  mon.close('weights are invariant', z[:, 0, 0], y[:, 0, 0], 400 * env.eps, scale=max(1.0, np.max(np.abs(y))))
  mon.close('output transforms', z, tf(y), 400 * env.eps, scale=max(1.0, np.max(np.abs(y))))


def run(mon, env):
  parts = [exact, constant, equal_logits, duplicates, cutoffs, large, removed_large, heads, invariance]
  for k in range(env.n(2, 40)):
    for f in parts:
      if not mon.time_left():
        return
      mon.section(f.__name__, f, mon, env)
