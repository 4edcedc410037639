"""P13: message passing and attention depend only on the listed graph."""
import functools

import jax
import jax.numpy as jnp
import numpy as np

import e3x
from monitors import graphs, nets, ref

F, NB = 4, 3


class Case:
  """One random layer with random weights and a graph; runs it in any layout."""

  def __init__(self, mon, env, kind, top):
    rng = self.rng = env.rng
    self.env, self.mon, self.kind = env, mon, kind
    self.n = n = int(rng.integers(3, 6))
    self.m = m = n if kind != 'MultiHeadAttention' else int(rng.integers(2, 6))
    P, L = int(rng.integers(1, 3)), int(rng.integers(0, 3))
    Pk, Lk = (P, L) if kind != 'MultiHeadAttention' else (int(rng.integers(1, 3)), int(rng.integers(0, 3)))
    Lb = int(rng.integers(0, 3))
    L3 = [None] + list(range(min(Lk + Lb, top) + 1))
    L3 = L3[rng.integers(len(L3))]
    self.cart = bool(rng.integers(2))
    kw = dict(max_degree=L3, include_pseudotensors=bool(rng.integers(2)), cartesian_order=self.cart,
              use_fused_tensor=bool(rng.random() < 0.4), use_basis_bias=bool(rng.integers(2)))
    self.attn = kind != 'MessagePass'
    self.weighted = (not self.attn) and bool(rng.integers(2))
    self.cutoff = self.attn and bool(rng.integers(2))
    if self.attn:
      kw.update(num_heads=[1, 2, 4][rng.integers(3)],
                use_relative_positional_encoding_qk=bool(rng.integers(2)),
                use_relative_positional_encoding_v=bool(rng.random() < 0.6),
                query_use_bias=bool(rng.integers(2)), key_use_bias=bool(rng.integers(2)),
                value_use_bias=bool(rng.integers(2)), output_use_bias=bool(rng.integers(2)))
      if not kw['use_relative_positional_encoding_v']:
        kw['max_degree'] = L3 = None
    self.kw, self.L3 = kw, L3
    self.mod = getattr(e3x.nn, kind)(**kw)
    self.pairs = nets.random_graph(rng, n, m, p=rng.uniform(0.3, 0.8))
    self.x = nets.features(rng, env.dtype, (n,), P, L, F)
    self.xkv = self.x if kind != 'MultiHeadAttention' else nets.features(rng, env.dtype, (m,), Pk, Lk, F)
    np_ = len(self.pairs)
    self.basis = nets.features(rng, env.dtype, (np_,), 1, Lb, NB)
    self.w = np.asarray(rng.uniform(0.2, 1.5, size=(np_, 1, 1, 1)), env.dtype)
    self.cut = np.asarray(rng.uniform(0.1, 1.0, size=(np_,)), env.dtype)
    mon.begin(layer=kind, n=n, m=m, P=P, L=L, Pk=Pk, Lk=Lk, basis=Lb, pairs=np_, weighted=self.weighted,
              cutoff=self.cutoff, **kw)
    lay = graphs.sparse(rng, self.pairs, n, m, env.dtype)
    a, k = self.args(lay)
    self.params = mon.call('init', nets.random_params, rng, self.mod, env.dtype, *a, scale=0.7, **k)

  def args(self, lay, x=None, xkv=None, basis=None, fill=None):
    x = self.x if x is None else x
    xkv = self.xkv if xkv is None else xkv
    basis = self.basis if basis is None else basis
    a = [x] if self.kind != 'MultiHeadAttention' else [x, xkv]
    a.append(lay.put(basis, fill))
    k = dict(lay.idx)
    if self.weighted:
      a.append(lay.put(self.w, fill))
    if self.cutoff:
      a.append(lay.put(self.cut, fill))
    return [jnp.asarray(v) for v in a], k

  def fn(self, lay):
    k = lay.idx
    return jax.jit(lambda p, *a: self.mod.apply(p, *a, **k))

  def reference(self):
    p = self.params['params']
    d, s = self.pairs[:, 0], self.pairs[:, 1]
    kw = self.kw
    if not self.attn:
      return nets.message_pass(p, self.x, self.basis, d, s, self.w.astype(float) if self.weighted else None,
                               self.L3, kw['include_pseudotensors'], self.cart)
    return nets.attention(p, self.x, self.xkv, self.basis, d, s, kw['num_heads'],
                          self.cut if self.cutoff else None, kw['use_relative_positional_encoding_qk'],
                          kw['use_relative_positional_encoding_v'], self.L3, kw['include_pseudotensors'], self.cart)


def case(mon, env, kind, top, nlay, grads):
  c = Case(mon, env, kind, top)
  rng = env.rng
  want = c.reference()
  scale = max(1.0, float(np.max(np.abs(want))))
  lays = graphs.layouts(rng, c.pairs, c.n, c.m, env.dtype)
  pick = rng.permutation(len(lays))[:nlay]
  if not any(lays[i].name.startswith('sparse') for i in pick):
    pick[0] = 1
  if not any(lays[i].name.startswith('dense') for i in pick):
    pick[0] = 4
  g0 = None
  co = rng.normal(size=want.shape).astype(env.dtype)
  for i in pick:
    lay = lays[i]
    a, _ = c.args(lay)
    f = c.fn(lay)
    y = np.asarray(mon.call(kind, f, c.params, *a))
    mon.close('%s, %s' % (kind, lay.name), y, want, 400 * env.eps, scale=scale)
    if grads:
      # Mild junk in padding slots; gradients of real entries must not see it.
      g = mon.call(kind + ' gradient', jax.jit(jax.grad(
          lambda p, *b: jnp.sum(co * c.mod.apply(p, *b, **lay.idx)), argnums=tuple(range(len(a) + 1)))), c.params, *a)
      flat = [np.asarray(v, float) for v in jax.tree_util.tree_leaves(g[0])]
      nodes = [np.asarray(g[1], float)] + ([np.asarray(g[2], float)] if kind == 'MultiHeadAttention' else [])
      nn = len(nodes)
      per = [np.asarray(v, float) for v in g[1 + nn:]]
      for v in flat + nodes + per:
        mon.finite('gradients are finite', v)
      real = [lay.get(v) for v in per]
      for v, r in zip(per, real):
        # Nothing flows into padding: total absolute gradient equals that of real pairs.
        mon.close('no gradient to padding', np.abs(v).sum(), np.abs(r).sum(), 1e-5 if not env.x64 else 1e-12)
      cur = flat + nodes + real
      if g0 is None:
        g0 = cur
      else:
        for v, r in zip(cur, g0):
          mon.close('gradients agree between layouts', v, r, 1500 * env.eps, scale=max(1.0, float(np.max(np.abs(r), initial=0))))
  return c, want, scale


def structure(mon, env, kind, top):
  """Locality, relabelling, isolated nodes, batching."""
  c = Case(mon, env, kind, top)
  rng = env.rng
  dense = bool(rng.integers(2))
  lay = (graphs.dense if dense else graphs.sparse)(rng, c.pairs, c.n, c.m, env.dtype)
  f = c.fn(lay)
  a, _ = c.args(lay, fill=0.5)
  y = np.asarray(mon.call(kind, f, c.params, *a))
  scale = max(1.0, float(np.max(np.abs(y))))
  alone = np.setdiff1d(np.arange(c.n), c.pairs[:, 0])
  mon.finite('isolated nodes finite', y[alone])
  if not c.attn:
    mon.close('isolated nodes receive nothing', y[alone], np.zeros_like(y[alone]), 0.0)
  elif len(alone):
    mon.expect('isolated nodes all equal', np.all(y[alone] == y[alone[0]]), '')
  # Locality.
  k = int(rng.integers(c.m))
  xkv = c.xkv.copy()
  xkv[k] += 1.0
  x = xkv if kind != 'MultiHeadAttention' else c.x
  b, _ = c.args(lay, x=x, xkv=xkv, fill=0.5)
  z = np.asarray(mon.call(kind, f, c.params, *b))
  touched = set(c.pairs[c.pairs[:, 1] == k, 0].tolist())
  if kind == 'SelfAttention':
    touched.add(k)
  for i in range(c.n):
    if i not in touched:
      mon.close('unlisted nodes have no influence', z[i], y[i], 8 * env.eps, scale=scale)
  if kind == 'MultiHeadAttention':
    k = int(rng.integers(c.n))
    xq = c.x.copy()
    xq[k] += 1.0
    b, _ = c.args(lay, x=xq, fill=0.5)
    z = np.asarray(mon.call(kind, f, c.params, *b))
    for i in range(c.n):
      if i != k:
        mon.close('other queries have no influence', z[i], y[i], 8 * env.eps, scale=scale)
  # Relabelling (sparse only, same compiled shapes).
  sp = graphs.sparse(rng, c.pairs, c.n, c.m, env.dtype)
  perm = rng.permutation(c.n)
  inv = np.argsort(perm)
  pk = perm if kind != 'MultiHeadAttention' else np.arange(c.m)
  ik = np.argsort(pk)
  args, _ = c.args(sp)
  g = jax.jit(lambda p, d, s, *q: c.mod.apply(p, *q, dst_idx=d, src_idx=s))
  y0 = mon.call(kind, g, c.params, sp.idx['dst_idx'], sp.idx['src_idx'], *args)
  args2 = list(args)
  args2[0] = jnp.asarray(c.x[perm])
  y1 = mon.call(kind, g, c.params, jnp.asarray(inv[c.pairs[:, 0]]), jnp.asarray(ik[c.pairs[:, 1]]), *args2)
  mon.close('relabelling nodes relabels outputs', y1, np.asarray(y0)[perm], 400 * env.eps, scale=scale)
  # Batch = members: same graph structure size, different data, dense layout.
  la = graphs.dense(rng, c.pairs, c.n, c.m, env.dtype)
  p2 = c.pairs.copy()
  p2[:, 1] = rng.permutation(c.m)[p2[:, 1]]
  lb = graphs.dense(rng, p2, c.n, c.m, env.dtype)
  use = 'dense' if rng.integers(2) else 'sparse'
  if use == 'sparse':
    la = graphs.sparse(rng, c.pairs, c.n, c.m, env.dtype)
    lb = graphs.sparse(rng, p2, c.n, c.m, env.dtype)
  aa, _ = c.args(la, fill=0.5)
  x2 = c.x[::-1].copy()
  ab, _ = c.args(lb, x=x2, xkv=c.xkv[::-1].copy() if kind == 'MultiHeadAttention' else x2, fill=0.25)
  if kind == 'SelfAttention' or kind == 'MessagePass':
    pass
  h = jax.jit(lambda p, idx, *q: c.mod.apply(p, *q, **idx))
  ya, yb = mon.call(kind, h, c.params, la.idx, *aa), mon.call(kind, h, c.params, lb.idx, *ab)
  shape = [(2,), (1, 2), (2, 1)][rng.integers(3)]
  st = lambda u, v: jnp.reshape(jnp.stack([u, v]), shape + u.shape)
  yy = mon.call(kind + ' batched', h, c.params, {k: st(la.idx[k], lb.idx[k]) for k in la.idx},
                *[st(u, v) for u, v in zip(aa, ab)])
  mon.close('batch equals members (%s)' % use, np.asarray(yy).reshape((2,) + ya.shape), np.stack([ya, yb]),
            200 * env.eps, scale=max(scale, float(np.max(np.abs(yb)))))


def empty(mon, env, kind, top):
  """Without any pairs, messages are zero and attention returns its output bias."""
  c = Case(mon, env, kind, top)
  rng = env.rng
  c.pairs = c.pairs[:0]
  for a in ('basis', 'w', 'cut'):
    setattr(c, a, getattr(c, a)[:0])
  batch = [(), (2,)][rng.integers(2)]
  mon.begin(layer=kind + ', no pairs', batch=batch, n=c.n, m=c.m, **c.kw)
  want = np.zeros_like(c.reference())
  if c.attn:
    want = nets.dense(c.params['params']['out'], np.zeros(want.shape[:-1] + (F,)))
  scale = max(1.0, float(np.max(np.abs(want))))
  z = np.zeros(0, np.int32)
  lays = [graphs.Layout('sparse', dict(dst_idx=z, src_idx=z), lambda v, fill: v, None, None),
          graphs.Layout('dense', dict(adj_idx=np.zeros((c.n, 0), np.int32)), lambda v, fill: np.zeros((c.n, 0) + v.shape[1:], env.dtype), None, None)]
  for lay in lays:
    a, _ = c.args(lay)
    lay.idx = {k: jnp.broadcast_to(v, batch + v.shape) for k, v in lay.idx.items()}
    a = [jnp.broadcast_to(v, batch + v.shape) for v in a]
    y = mon.call(kind + ', no pairs, ' + lay.name, c.fn(lay), c.params, *a)
    mon.close(kind + ', no pairs, ' + lay.name, y, np.broadcast_to(want, batch + want.shape), 50 * env.eps, scale=scale)
    g = mon.call(kind + ' gradient, no pairs', jax.jit(jax.grad(lambda p: jnp.sum(c.mod.apply(p, *a, **lay.idx)))), c.params)
    for v in jax.tree_util.tree_leaves(g):
      mon.finite('gradients are finite', v)


def run(mon, env):
  top = env.opts['tables_degree'].get('cg') or 2
  kinds = ['MessagePass', 'SelfAttention', 'MultiHeadAttention']
  for k in range(env.n(3, 80)):
    if not mon.time_left():
      break
    kind = kinds[(k + env.shard) % 3]
    mon.section(kind, case, mon, env, kind, top, env.n(3, 6), k % 3 == 1 or env.thorough)
    mon.section(kind + ' structure', structure, mon, env, kinds[(k + env.shard + 1) % 3], top)
    if k % 3 == 0:
      mon.section(kind + ' no pairs', empty, mon, env, kinds[(k // 3 + env.shard + 2) % 3], top)
