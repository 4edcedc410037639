"""P12: indexed operations against explicit reductions over neighbour lists."""
import collections

import jax
import jax.numpy as jnp
import numpy as np

import e3x
from monitors import nets

BATCH = [(), (2,), (2, 3), (1,)]


def make(rng, batch, n, m, trailing, pads, dtype, shuffle=True):
  """Random multigraph per batch entry, in dense and sparse form.

  Values are attached to pairs; padding slots carry junk values."""
  B = int(np.prod(batch)) if batch else 1
  graphs = [nets.random_graph(rng, n, m, p=rng.uniform(0.2, 0.9)) for _ in range(B)]
  vals = [rng.normal(size=(len(g),) + trailing) * 5 for g in graphs]
  if np.issubdtype(dtype, np.integer):
    vals = [np.round(v * 10) for v in vals]
  K = max(int(np.bincount(g[:, 0]).max()) for g in graphs) + pads
  Pn = max(len(g) for g in graphs) + pads
  adj = np.full((B, n, K), m, np.int32)
  if pads:
    adj += rng.integers(0, 3, size=adj.shape).astype(np.int32)  # any index >= m is padding
  junk = lambda shape: np.asarray(rng.choice([-1e6, 1e6, 0, 77], size=shape), np.float64)
  dval = junk((B, n, K) + trailing)
  dst = np.full((B, Pn), n, np.int32) + (rng.integers(0, 3, size=(B, Pn)).astype(np.int32) if pads else 0)
  src = np.full((B, Pn), m, np.int32)
  sval = junk((B, Pn) + trailing)
  where = np.zeros((B, n, K), bool)
  for b, (g, v) in enumerate(zip(graphs, vals)):
    for i in range(n):
      mine = np.flatnonzero(g[:, 0] == i)
      slots = rng.permutation(K)[:len(mine)] if shuffle else np.arange(len(mine))
      adj[b, i, slots] = g[mine, 1]
      dval[b, i, slots] = v[mine]
      where[b, i, slots] = True
    pos = rng.permutation(Pn)[:len(g)] if shuffle else np.arange(len(g))
    dst[b, pos] = g[:, 0]
    src[b, pos] = g[:, 1]
    sval[b, pos] = v
  r = lambda a: a.reshape(tuple(batch) + a.shape[1:])
  return dict(graphs=graphs, vals=vals, adj=r(adj), where=r(where), dval=r(dval).astype(dtype),
              dst=r(dst), src=r(src), sval=r(sval).astype(dtype), n=n, m=m, B=B, batch=batch)


def ref_reduce(d, mode, dtype, b):
  g, v = d['graphs'][b], np.asarray(d['vals'][b]).astype(dtype).astype(np.float64)
  out = np.zeros((d['n'],) + v.shape[1:])
  empty = np.ones(d['n'], bool)
  for i in range(d['n']):
    s = g[:, 0] == i
    if s.any():
      empty[i] = False
      out[i] = dict(sum=np.sum, min=np.min, max=np.max)[mode](v[s], axis=0)
  return out, empty


OPS = dict(sum=lambda *a, **k: e3x.ops.indexed_sum(*a, **k),
           min=lambda *a, **k: e3x.ops.indexed_min(*a, **k),
           max=lambda *a, **k: e3x.ops.indexed_max(*a, **k))


def reductions(mon, env, batch, integer):
  rng = env.rng
  n, m = int(rng.integers(1, 6)), int(rng.integers(1, 6))
  trailing = [(), (3,), (2, 4)][rng.integers(3)]
  pads = int(rng.integers(0, 4))
  dtype = np.int32 if integer else env.dtype
  d = make(rng, batch, n, m, trailing, pads, dtype)
  bd = len(batch)
  for mode, op in OPS.items():
    mon.begin(op=mode, batch=batch, trailing=trailing, pads=pads, n=n, m=m, integer=integer)
    de = mon.call(mode, op, jnp.asarray(d['dval']), adj_idx=jnp.asarray(d['adj']),
                  where=jnp.asarray(d['where']))
    sp = mon.call(mode, op, jnp.asarray(d['sval']), dst_idx=jnp.asarray(d['dst']), num_segments=n)
    kd = mon.call(mode, op, jnp.asarray(d['dval']), True, adj_idx=jnp.asarray(d['adj']),
                  where=jnp.asarray(d['where']))
    ks = mon.call(mode, op, jnp.asarray(d['sval']), True, dst_idx=jnp.asarray(d['dst']), num_segments=n)
    shape = tuple(batch) + (n,) + trailing
    mon.expect('shape', de.shape == shape and sp.shape == shape, '%s %s expected %s' % (de.shape, sp.shape, shape))
    if not integer:  # integer sums may be widened
      mon.expect('dtype', de.dtype == dtype and sp.dtype == dtype, '%s %s' % (de.dtype, sp.dtype))
    mon.expect('keepdims shape', kd.shape == tuple(batch) + (n, 1) + trailing
               and ks.shape == d['sval'].shape, '%s %s' % (kd.shape, ks.shape))
    flat = lambda a: np.asarray(a).reshape((d['B'],) + a.shape[bd:])
    de, sp, kd, ks = flat(de), flat(sp), flat(kd), flat(ks)
    dst = d['dst'].reshape(d['B'], -1)
    for b in range(d['B']):
      want, empty = ref_reduce(d, mode, dtype, b)
      sel = np.ones(n, bool) if mode == 'sum' else ~empty
      tol = 0.0 if integer or mode != 'sum' else 16 * env.eps
      mon.close('dense ' + mode, de[b][sel], want[sel], tol, scale=40)
      mon.close('sparse ' + mode, sp[b][sel], want[sel], tol, scale=40)
      mon.close('dense keepdims ' + mode, kd[b][:, 0][sel], want[sel], tol, scale=40)
      real = dst[b] < n
      mon.close('sparse keepdims ' + mode, ks[b][real], want[dst[b][real]], tol, scale=40)
  # Sorted sparse lists.
  o = make(rng, (), n, m, trailing, pads, dtype, shuffle=False)
  for mode, op in OPS.items():
    mon.begin(op=mode, sorted=True, trailing=trailing, pads=pads)
    a = mon.call(mode, op, jnp.asarray(o['sval']), dst_idx=jnp.sort(jnp.asarray(o['dst'])),
                 num_segments=n, indices_are_sorted=True)
    want, empty = ref_reduce(o, mode, dtype, 0)
    sel = np.ones(n, bool) if mode == 'sum' else ~empty
    mon.close('sorted ' + mode, a[sel], want[sel], 0.0 if integer or mode != 'sum' else 16 * env.eps, scale=40)


def softmax(mon, env, batch):
  rng = env.rng
  n, m = int(rng.integers(1, 6)), int(rng.integers(1, 6))
  pads = int(rng.integers(0, 4))
  d = make(rng, batch, n, m, (), pads, env.dtype)
  mag = [1.0, 30.0, 1e3, 1e6, 1e30, 1e-20][rng.integers(6)]
  use_mask = bool(rng.integers(2))
  bd = len(batch)
  dv, sv = (d['dval'] * mag).astype(env.dtype), (d['sval'] * mag).astype(env.dtype)
  # Zeros are valid masks, too (pairs beyond a cutoff): such pairs have weight zero.
  zeros = rng.uniform(0, 0.6) if rng.integers(2) else 0.0
  # Smooth cutoffs become arbitrarily small before they vanish.
  small = [0.0, 0.0, -8.0, -25.0][rng.integers(4)]
  mask_pairs = [np.where(rng.random(len(g)) < zeros, 0, rng.uniform(0.1, 1, size=len(g)) * 10.0 ** rng.uniform(
      small, min(small / 2 + 4, 0), size=len(g))).astype(env.dtype) for g in d['graphs']]
  dm, sm = np.full(dv.shape, 5.0, env.dtype), np.full(sv.shape, 5.0, env.dtype)
  # attach masks to the same pairs: locate each pair by its position
  fd, fs = d['dval'].reshape(d['B'], n, -1), d['sval'].reshape(d['B'], -1)
  wd, ds = d['where'].reshape(fd.shape), d['dst'].reshape(fs.shape)
  rdm, rsm = dm.reshape(fd.shape), sm.reshape(fs.shape)
  adj, src = d['adj'].reshape(fd.shape), d['src'].reshape(fs.shape)
  for b, g in enumerate(d['graphs']):
    v = d['vals'][b].astype(env.dtype)
    for t, (i, j) in enumerate(g):
      k = np.flatnonzero(wd[b, i] & (adj[b, i] == j) & (fd[b, i] == v[t]))
      rdm[b, i, k] = mask_pairs[b][t]
      k = np.flatnonzero((ds[b] == i) & (src[b] == j) & (fs[b] == v[t]))
      rsm[b, k] = mask_pairs[b][t]
  mon.begin(op='softmax', batch=batch, pads=pads, n=n, m=m, magnitude=mag, mask=use_mask, small=small)
  f = e3x.ops.indexed_softmax
  kd = dict(adj_idx=jnp.asarray(d['adj']), where=jnp.asarray(d['where']))
  ks = dict(dst_idx=jnp.asarray(d['dst']), num_segments=n)
  md, ms = (jnp.asarray(dm), jnp.asarray(sm)) if use_mask else (None, None)
  de = np.asarray(mon.call('softmax', f, jnp.asarray(dv), md, **kd)).reshape(fd.shape)
  sp = np.asarray(mon.call('softmax', f, jnp.asarray(sv), ms, **ks)).reshape(fs.shape)
  cd, cs = rng.normal(size=dv.shape).astype(env.dtype), rng.normal(size=sv.shape).astype(env.dtype)
  gd = gs = None
  if mag <= 30:
    gd = np.asarray(mon.call('softmax gradient', jax.grad(lambda x: jnp.sum(f(x, md, **kd) * cd)), jnp.asarray(dv))).reshape(fd.shape)
    gs = np.asarray(mon.call('softmax gradient', jax.grad(lambda x: jnp.sum(f(x, ms, **ks) * cs)), jnp.asarray(sv))).reshape(fs.shape)
  else:
    mon.finite('softmax gradient', mon.call('softmax gradient', jax.grad(lambda x: jnp.sum(f(x, md, **kd) * cd)), jnp.asarray(dv)))
    mon.finite('softmax gradient', mon.call('softmax gradient', jax.grad(lambda x: jnp.sum(f(x, ms, **ks) * cs)), jnp.asarray(sv)))
  mon.close('masked entries have weight zero', np.where(wd, 0, de), np.zeros_like(de), 0.0)
  mon.close('padding pairs have weight zero', np.where(ds < n, 0, sp), np.zeros_like(sp), 0.0)
  cdf, csf = cd.reshape(fd.shape), cs.reshape(fs.shape)
  for kind, out, x, sel_of, msk, grad, c in (
      ('dense', de, dv.reshape(fd.shape), lambda b, i: (b, i, np.flatnonzero(wd[b, i])), rdm, gd, cdf),
      ('sparse', sp, sv.reshape(fs.shape), lambda b, i: (b, np.flatnonzero(ds[b] == i)), rsm, gs, csf)):
    for b in range(d['B']):
      for i in range(n):
        s = sel_of(b, i)
        if not len(s[-1]):
          continue
        z = x[s].astype(np.float64)
        z0 = z if not use_mask or not np.any(msk[s]) else z[msk[s] != 0]
        e = np.exp(np.where(z > z0.max(), 0, z - z0.max()))
        if use_mask:
          e = e * msk[s]
          if not np.any(e):
            mon.close(kind + ' all pairs masked', out[s], np.zeros(len(z)), 0.0)
            continue
          mon.close(kind + ' zero mask, zero weight', np.where(msk[s] == 0, out[s], 0), np.zeros(len(z)), 0.0)
        w = e / e.sum()
        # exp(z - max) amplifies the rounding of z - max.
        tol = (8 * env.eps * (4 + np.minimum(np.abs(z - z0.max()), 200)) * np.maximum(w, 1e-30))
        mon.close(kind + ' softmax', out[s], w, 1.0, scale=tol + 1e-30)
        mon.close(kind + ' weights sum to one', out[s].astype(float).sum(), 1.0, 8 * env.eps * max(4, len(z)), scale=1.0)
        mon.expect(kind + ' weights positive', np.all((out[s] > 0) | (w < 1e-30)) and np.all(out[s] >= 0), 'weights %s' % out[s])
        if grad is not None:
          cc = c[s].astype(np.float64)
          want = w * (cc - np.sum(w * cc))
          mon.close(kind + ' softmax gradient', grad[s], want, 200 * env.eps * (1 + min(np.ptp(z), 200)), scale=1.0)
  if gd is not None:
    mon.close('no gradient to masked entries', np.where(wd, 0, gd), np.zeros_like(gd), 0.0)
    mon.close('no gradient to padding', np.where(ds < n, 0, gs), np.zeros_like(gs), 0.0)


def gradients(mon, env, batch):
  rng = env.rng
  n, m = int(rng.integers(1, 6)), int(rng.integers(1, 6))
  pads = int(rng.integers(1, 4))
  d = make(rng, batch, n, m, (2,), pads, env.dtype)
  c = rng.normal(size=tuple(batch) + (n, 2)).astype(env.dtype)
  mon.begin(op='gradient of sum', batch=batch, pads=pads)
  gd = mon.call('sum gradient', jax.grad(lambda x: jnp.sum(c * e3x.ops.indexed_sum(
      x, adj_idx=jnp.asarray(d['adj']), where=jnp.asarray(d['where'])))), jnp.asarray(d['dval']))
  gs = mon.call('sum gradient', jax.grad(lambda x: jnp.sum(c * e3x.ops.indexed_sum(
      x, dst_idx=jnp.asarray(d['dst']), num_segments=n))), jnp.asarray(d['sval']))
  want = np.where(d['where'][..., None], np.expand_dims(c, -2), 0)
  mon.close('sum gradient dense', gd, want, 0.0)
  cf, df = c.reshape(d['B'], n, 2), d['dst'].reshape(d['B'], -1)
  ws = np.zeros(df.shape + (2,))
  for b in range(d['B']):
    r = df[b] < n
    ws[b, r] = cf[b][df[b][r]]
  mon.close('sum gradient sparse', gs, ws.reshape(gs.shape), 0.0)
  for op in (e3x.ops.indexed_min, e3x.ops.indexed_max):
    mon.begin(op='gradient of min/max', batch=batch, pads=pads)
    g1 = mon.call('extremum gradient', jax.grad(lambda x: jnp.sum(jnp.where(
        jnp.abs(op(x, adj_idx=jnp.asarray(d['adj']), where=jnp.asarray(d['where']))) < 1e5,
        op(x, adj_idx=jnp.asarray(d['adj']), where=jnp.asarray(d['where'])), 0) * c)), jnp.asarray(d['dval']))
    mon.finite('extremum gradient', g1)
    mon.close('extremum gradient avoids padding', np.where(d['where'][..., None], 0, g1), np.zeros_like(g1), 0.0)


def gathers(mon, env, batch):
  rng = env.rng
  n, m = int(rng.integers(1, 6)), int(rng.integers(1, 6))
  trailing = [(), (3,), (2, 4)][rng.integers(3)]
  d = make(rng, batch, n, m, (), int(rng.integers(0, 3)), env.dtype)
  x = rng.normal(size=tuple(batch) + (m,) + trailing).astype(env.dtype)
  q = rng.normal(size=tuple(batch) + (n,) + trailing).astype(env.dtype)
  mon.begin(op='gather', batch=batch, trailing=trailing, n=n, m=m)
  a = mon.call('gather_src', e3x.ops.gather_src, jnp.asarray(x), adj_idx=jnp.asarray(d['adj']))
  s = mon.call('gather_src', e3x.ops.gather_src, jnp.asarray(x), src_idx=jnp.asarray(d['src']))
  t = mon.call('gather_dst', e3x.ops.gather_dst, jnp.asarray(q), dst_idx=jnp.asarray(d['dst']))
  u = mon.call('gather_dst', e3x.ops.gather_dst, jnp.asarray(q), adj_idx=jnp.asarray(d['adj']))
  mon.expect('gather shapes', a.shape == d['adj'].shape + trailing and s.shape == d['src'].shape + trailing
             and t.shape == d['dst'].shape + trailing and u.shape == tuple(batch) + (n, 1) + trailing,
             '%s %s %s %s' % (a.shape, s.shape, t.shape, u.shape))
  f = lambda z, k: np.asarray(z).reshape((d['B'],) + np.asarray(z).shape[len(batch):])
  xf, qf = f(x, 0), f(q, 0)
  af, sf, tf, uf = f(a, 0), f(s, 0), f(t, 0), f(u, 0)
  ad, sr, ds = f(d['adj'], 0), f(d['src'], 0), f(d['dst'], 0)
  for b in range(d['B']):
    r = ad[b] < m
    mon.close('gather dense', af[b][r], xf[b][ad[b][r]], 0.0)
    r = sr[b] < m
    mon.close('gather sparse', sf[b][r], xf[b][sr[b][r]], 0.0)
    r = ds[b] < n
    mon.close('gather destination', tf[b][r], qf[b][ds[b][r]], 0.0)
    mon.close('gather destination dense', uf[b][:, 0], qf[b], 0.0)


def counter(pairs):
  return collections.Counter(map(tuple, np.asarray(pairs).tolist()))


def conversions(mon, env, batch):
  rng = env.rng
  n = int(rng.integers(2, 6))
  pads = int(rng.integers(0, 3))
  d = make(rng, batch, n, n, (), pads, env.dtype)
  mon.begin(op='conversion', batch=batch, n=n, pads=pads)
  dst, src = mon.call('dense_to_sparse', e3x.ops.dense_to_sparse_indices, jnp.asarray(d['adj']), pad_idx=n)
  back = mon.call('sparse_to_dense', e3x.ops.sparse_to_dense_indices, dst, src, pad_idx=n)
  orig = mon.call('sparse_to_dense', e3x.ops.sparse_to_dense_indices, jnp.asarray(d['dst']), jnp.asarray(d['src']), pad_idx=n)
  f = lambda z: np.asarray(z).reshape((d['B'],) + np.asarray(z).shape[len(batch):])
  mon.expect('conversion shapes', dst.shape == src.shape and dst.shape[:-1] == tuple(batch)
             and back.shape[:-2] == tuple(batch) and back.shape[-2] == n, '%s %s' % (dst.shape, back.shape))
  fd, fs, fb, fo = f(dst), f(src), f(back), f(orig)
  for b, g in enumerate(d['graphs']):
    want = counter(g)
    r = fd[b] < n
    mon.expect('sparse padding is consistent', np.array_equal(r, fs[b] < n), '')
    mon.expect('dense to sparse keeps pairs', counter(np.stack([fd[b][r], fs[b][r]], -1)) == want, '')
    for name, o in (('there and back', fb), ('sparse to dense keeps pairs', fo)):
      got = collections.Counter()
      for i in range(n):
        got.update((i, int(j)) for j in o[b][i] if j < n)
      mon.expect(name, got == want, '%s vs %s' % (got, want))
  if not batch:
    # Without padding index: all entries are real.
    g = d['graphs'][0]
    top = max(g[:, 0].max(), g[:, 1].max())
    K = int(np.bincount(g[:, 0]).max())
    full = np.stack([np.arange(n) % n, (np.arange(n) + 1) % n], axis=-1)
    a, b = mon.call('dense_to_sparse', e3x.ops.dense_to_sparse_indices, jnp.asarray(full))
    mon.expect('no padding index', counter(np.stack([a, b], -1)) == counter(
        [(i, int(j)) for i in range(n) for j in full[i]]), '')
    c = mon.call('sparse_to_dense', e3x.ops.sparse_to_dense_indices, a, b)
    mon.expect('no padding index back', c.shape[0] == n and counter(
        [(i, int(j)) for i in range(n) for j in np.asarray(c)[i]]) == counter(
            [(i, int(j)) for i in range(n) for j in full[i]]), str(np.asarray(c)))


def pairwise(mon, env, num):
  for ms in (True, False, None):
    kw = {} if ms is None else dict(mask_self=ms)
    mon.begin(op='pairwise', num=num, mask_self=ms)
    adj = np.asarray(mon.call('pairwise', e3x.ops.dense_pairwise_indices, num, **kw))
    dst, src = mon.call('pairwise', e3x.ops.sparse_pairwise_indices, num, **kw)
    self_ = ms is False
    want = collections.Counter((i, j) for i in range(num) for j in range(num) if self_ or i != j)
    mon.expect('dense pairs', adj.shape == (num, num if self_ else num - 1) and collections.Counter(
        (i, int(j)) for i in range(num) for j in adj[i]) == want, str(adj.shape))
    mon.expect('sparse pairs', counter(np.stack([dst, src], -1)) == want and np.all(np.diff(dst) >= 0), '')
  for bad in (0, -1):
    mon.raises('num', (ValueError,), e3x.ops.dense_pairwise_indices, bad)
    mon.raises('num', (ValueError,), e3x.ops.sparse_pairwise_indices, bad)


def empty(mon, env, batch):
  """Graphs without pairs, elements without neighbour slots, batches without members."""
  o, n = e3x.ops, int(env.rng.integers(1, 5))
  trail = [(), (3,), (1, 4, 2)][env.rng.integers(3)]
  mon.begin(op='empty', batch=batch, n=n, trailing=trail)
  x = jnp.asarray(env.rng.normal(size=batch + (n,) + trail), env.dtype)
  idx = jnp.zeros(batch + (0,), int)
  adj = jnp.zeros(batch + (n, 0), int)
  v, w = jnp.zeros(batch + (0,) + trail, env.dtype), jnp.zeros(batch + (n, 0) + trail, env.dtype)
  jit = (lambda f: jax.jit(f)) if env.rng.integers(2) else (lambda f: f)
  shape = lambda label, y, want: mon.expect(label, np.shape(y) == want, 'shape %s, expected %s' % (np.shape(y), want), batch=batch)
  shape('gather_src, no pairs', mon.call('gather_src', jit(lambda x, i: o.gather_src(x, src_idx=i)), x, idx), batch + (0,) + trail)
  shape('gather_dst, no pairs', mon.call('gather_dst', jit(lambda x, i: o.gather_dst(x, dst_idx=i)), x, idx), batch + (0,) + trail)
  shape('gather_src, no slots', mon.call('gather_src', jit(lambda x, i: o.gather_src(x, adj_idx=i)), x, adj), batch + (n, 0) + trail)
  zero = np.zeros(x.shape)
  y = mon.call('indexed_sum', jit(lambda v, i: o.indexed_sum(v, dst_idx=i, num_segments=n)), v, idx)
  mon.close('indexed_sum, no pairs', y, zero, 0)
  y = mon.call('indexed_sum', jit(lambda v, i: o.indexed_sum(v, adj_idx=i, where=i < n)), w, adj)
  mon.close('indexed_sum, no slots', y, zero, 0)
  y = mon.call('indexed_softmax', jit(lambda v, i: o.indexed_softmax(v, dst_idx=i, num_segments=n)), v, idx)
  shape('indexed_softmax, no pairs', y, v.shape)
  y = mon.call('indexed_softmax', jit(lambda v, i: o.indexed_softmax(v, adj_idx=i, where=i < n)), w, adj)
  shape('indexed_softmax, no slots', y, w.shape)
  g = mon.call('gradient', jit(jax.grad(lambda x: jnp.sum(x) + jnp.sum(o.indexed_sum(o.gather_src(x, src_idx=idx), dst_idx=idx, num_segments=n)))), x)
  mon.close('gradient, no pairs', g, np.ones(x.shape), 0)
  for name, a in (('no pairs', o.sparse_to_dense_indices(idx, idx, pad_idx=n)), ('only padding', o.sparse_to_dense_indices(
      jnp.full(batch + (2,), n), jnp.full(batch + (2,), n), pad_idx=n))):
    shape('sparse to dense, ' + name, a, batch + (n, 0))
    d, s = mon.call('dense_to_sparse', o.dense_to_sparse_indices, a, pad_idx=n)
    shape('dense to sparse, ' + name, d, batch + (0,))
    shape('dense to sparse, ' + name, s, batch + (0,))
  full = jnp.zeros((0,) + batch + (3,), int)  # a batch without members
  y = mon.call('gather_src', o.gather_src, jnp.zeros((0,) + batch + (n,) + trail, env.dtype), src_idx=full)
  shape('gather_src, no members', y, (0,) + batch + (3,) + trail)
  y = mon.call('indexed_sum', o.indexed_sum, jnp.zeros((0,) + batch + (3,) + trail, env.dtype), dst_idx=full, num_segments=n)
  shape('indexed_sum, no members', y, (0,) + batch + (n,) + trail)


def run(mon, env):
  for k, batch in enumerate(((), (2,), (2, 3), (1,))):
    if env.thorough or env.mine(k):
      mon.section('empty', empty, mon, env, batch)
  for num in range(1, 13):
    if env.mine(num):
      mon.section('pairwise', pairwise, mon, env, num)
  for k in range(env.n(3, 200)):
    if not mon.time_left():
      break
    batch = BATCH[(k + env.shard) % len(BATCH)]
    mon.section('reductions', reductions, mon, env, batch, k % 3 == 2)
    mon.section('softmax', softmax, mon, env, batch)
    mon.section('gradients', gradients, mon, env, batch)
    mon.section('gathers', gathers, mon, env, batch)
    if k % 2 == 0:
      mon.section('conversions', conversions, mon, env, BATCH[(k // 2 + env.shard) % len(BATCH)])
