"""Reference (numpy float64) versions of layers, written from the documentation,
plus helpers to drive real modules with arbitrary parameter values."""
import functools
import math

import jax
import numpy as np

from monitors import ref


# ------------------------------------------------------------ driving modules
def shapes_of(module, *args, **kw):
  key = jax.random.PRNGKey(0)
  return jax.eval_shape(functools.partial(module.init, **kw), key, *args)


def random_params(rng, module, dtype, *args, scale=1.0, **kw):
  """Random parameter values for every parameter (biases and weights on masked
  coupling paths included)."""
  shapes = shapes_of(module, *args, **kw)
  return jax.tree_util.tree_map(
      lambda s: np.asarray(scale * rng.normal(size=s.shape), dtype), shapes)


def f64(tree):
  return jax.tree_util.tree_map(lambda a: np.asarray(a, np.float64), tree)


def maxdeg(x):
  return int(round(math.sqrt(x.shape[-2]))) - 1


def features(rng, dtype, batch, P, L, F, scale=1.0):
  x = scale * rng.normal(size=tuple(batch) + (P, (L + 1) ** 2, F))
  return np.asarray(x, dtype)


# ----------------------------------------------------------------- layers (ref)
def irrep_name(P, p, l):
  if P == 1:
    return '%d%s' % (l, '+' if l % 2 == 0 else '-')
  return '%d%s' % (l, '+' if p == 0 else '-')


def dense(params, x):
  x = np.asarray(x, np.float64)
  P, L = x.shape[-3], maxdeg(x)
  F = np.asarray(params[irrep_name(P, 0, 0)]['kernel']).shape[-1]
  out = np.zeros(x.shape[:-1] + (F,))
  for p in range(P):
    for l in range(L + 1):
      q = params[irrep_name(P, p, l)]
      s = slice(l * l, (l + 1) ** 2)
      out[..., p, s, :] = x[..., p, s, :] @ np.asarray(q['kernel'], np.float64)
      if p == 0 and l == 0 and 'bias' in q:
        out[..., 0, 0, :] += np.asarray(q['bias'], np.float64)
  return out


def tensor_out(P1, L1, P2, L2, L3, include):
  L3 = max(L1, L2) if L3 is None else L3
  P3 = 2 if include else 1
  if P1 == P2 == 1 and 0 in (L1, L2, L3):
    P3 = 1
  return P3, L3


def par(P, p, l):
  """Parity (0 even, 1 odd) of degree l in channel p."""
  return l % 2 if P == 1 else p


def path_mask(P1, L1, P2, L2, P3, L3):
  """1 for couplings allowed by triangle and parity rules."""
  m = np.zeros((P1, L1 + 1, P2, L2 + 1, P3, L3 + 1))
  for p in range(P1):
    for l in range(L1 + 1):
      for q in range(P2):
        for k in range(L2 + 1):
          for r in range(P3):
            for n in range(L3 + 1):
              if (par(P1, p, l) + par(P2, q, k)) % 2 == par(P3, r, n):
                if abs(l - k) <= n <= l + k:
                  m[p, l, q, k, r, n] = 1
  return m


def tensor(kernel, x1, x2, L3=None, include=True, cart=True):
  x1, x2 = np.asarray(x1, np.float64), np.asarray(x2, np.float64)
  P1, L1, P2, L2 = x1.shape[-3], maxdeg(x1), x2.shape[-3], maxdeg(x2)
  P3, L3 = tensor_out(P1, L1, P2, L2, L3, include)
  k = np.asarray(kernel, np.float64)
  mask = path_mask(P1, L1, P2, L2, P3, L3)
  batch = np.broadcast_shapes(x1.shape[:-3], x2.shape[:-3])
  out = np.zeros(batch + (P3, (L3 + 1) ** 2, x1.shape[-1]))
  for idx in np.argwhere(mask):
    p, a, q, b, r, c = idx
    C = ref.cg_block(a, b, c, cart)
    t = np.einsum('...lf,...mf,lmn->...nf', x1[..., p, a * a:(a + 1) ** 2, :],
                  x2[..., q, b * b:(b + 1) ** 2, :], C)
    out[..., r, c * c:(c + 1) ** 2, :] += k[p, a, q, b, r, c] * t
  return out


def fused(params, x1, x2, L3=None, include=True, cart=True):
  x1, x2 = np.asarray(x1, np.float64), np.asarray(x2, np.float64)
  P1, L1, P2, L2 = x1.shape[-3], maxdeg(x1), x2.shape[-3], maxdeg(x2)
  P3, L3 = tensor_out(P1, L1, P2, L2, L3, include)
  M = max(L1, L2, L3)
  t = -(-M // 2)
  C = np.concatenate([ref.cg_block(t, t, l, cart) for l in range(M + 1)], axis=-1)
  w = {k: np.asarray(v, np.float64) for k, v in params.items()}

  def mat(x, kernel, L):
    d = ref.degree_of(L)
    return np.einsum('...nf,nf,lmn->...lmf', x, kernel[d], C[..., :(L + 1) ** 2])

  def vec(X, kernel):
    return np.einsum('...lmf,nf,lmn->...nf', X, kernel[ref.degree_of(L3)],
                     C[..., :(L3 + 1) ** 2])
  f1, f2 = ref.to_full(x1), ref.to_full(x2)
  e1, o1 = mat(f1[..., 0, :, :], w['kernel_e1'], L1), mat(f1[..., 1, :, :], w['kernel_o1'], L1)
  e2, o2 = mat(f2[..., 0, :, :], w['kernel_e2'], L2), mat(f2[..., 1, :, :], w['kernel_o2'], L2)
  mm = lambda a, b: np.einsum('...lmf,...mnf->...lnf', a, b)
  e3 = vec(mm(e1, e2), w['kernel_eee']) + vec(mm(o1, o2), w['kernel_ooe'])
  o3 = vec(mm(e1, o2), w['kernel_eoo']) + vec(mm(o1, e2), w['kernel_oeo'])
  if P3 == 2:
    return np.stack([e3, o3], axis=-3)
  odd = (ref.degree_of(L3) % 2 == 1)[:, None]
  return np.where(odd, o3, e3)[..., None, :, :]


def any_tensor(params, x1, x2, L3=None, include=True, cart=True):
  """params: module dict holding either 'tensor' or 'fused_tensor'."""
  if 'tensor' in params:
    return tensor(params['tensor']['kernel'], x1, x2, L3, include, cart)
  return fused(params['fused_tensor'], x1, x2, L3, include, cart)


def tensor_dense(params, x, L3=None, include=True, cart=True):
  h = dense(params['dense'], x)
  n = h.shape[-1] // 2
  return any_tensor(params, h[..., :n], h[..., n:], L3, include, cart)


# ------------------------------------------------- graph layers (pair lists, ref)
def pair_sum(msgs, dst, n):
  """msgs (P, ...), dst (P,): sum per destination; out-of-range pairs dropped."""
  out = np.zeros((n,) + msgs.shape[1:])
  for i, d in enumerate(dst):
    if 0 <= d < n:
      out[d] += msgs[i]
  return out


def conv(params, x_pairs, basis, dst, n, L3=None, include=True, cart=True):
  """x_pairs, basis: per-pair arrays."""
  if basis is not None:
    filt = dense(params['filter'], basis)
    x_pairs = any_tensor(params, filt, x_pairs, L3, include, cart)
  return pair_sum(x_pairs, dst, n)


def message_pass(params, x, basis, dst, src, weights=None, L3=None, include=True,
                 cart=True):
  """All pairs must be real pairs."""
  x = np.asarray(x, np.float64)
  g = x[src]
  if weights is not None:
    g = g * weights
  return conv(params, g, basis, dst, len(x), L3, include, cart)


def truncate(x, L, P):
  """Features with maximum degree L (<= current) and parity channels P."""
  x = np.asarray(x, np.float64)
  x = x[..., :(L + 1) ** 2, :]
  if x.shape[-3] == 2 and P == 1:
    odd = (ref.degree_of(L) % 2 == 1)[:, None]
    x = np.where(odd, x[..., 1, :, :], x[..., 0, :, :])[..., None, :, :]
  return x


def attention_weights(params, xq, xkv, basis, dst, src, H, cutoff=None,
                      qk_encoding=True, n=None):
  """Per-pair, per-head weights (softmax over pairs with the same dst)."""
  Lqk = min(maxdeg(xq), maxdeg(xkv))
  P = 2 if xq.shape[-3] == 2 and xkv.shape[-3] == 2 else 1
  q = dense(params['query'], truncate(xq, Lqk, P))
  k = dense(params['key'], truncate(xkv, Lqk, P))
  F = q.shape[-1]
  q = q[dst].reshape(len(dst), P, (Lqk + 1) ** 2, F // H, H)
  k = k[src].reshape(len(dst), P, (Lqk + 1) ** 2, F // H, H)
  prod = q * k / math.sqrt(P * (Lqk + 1) ** 2 * (F // H))
  if qk_encoding:
    w = params['relative_positional_encoding']
    e = np.asarray(basis, np.float64)[:, 0, 0, :] @ np.asarray(w['kernel'], np.float64)
    if 'bias' in w:
      e = e + np.asarray(w['bias'], np.float64)
    e = e.reshape(len(dst), P, Lqk + 1, F)[:, :, ref.degree_of(Lqk), :]
    prod = prod * e.reshape(len(dst), P, (Lqk + 1) ** 2, F // H, H)
  dot = prod.sum(axis=(1, 2, 3))  # (pairs, H)
  n = len(xq) if n is None else n
  out = np.zeros_like(dot)
  for i in range(n):
    sel = np.asarray(dst) == i
    if not sel.any():
      continue
    d = dot[sel] - dot[sel].max(axis=0)
    e = np.exp(d)
    if cutoff is not None:
      e = e * np.asarray(cutoff, np.float64)[sel][:, None]
    s = e.sum(axis=0)
    out[sel] = np.where(s > 0, e / np.where(s > 0, s, 1), 0)
  return out, dot


def attention(params, xq, xkv, basis, dst, src, H, cutoff=None, qk_encoding=True,
              v_encoding=True, L3=None, include=True, cart=True):
  w, _ = attention_weights(params, xq, xkv, basis, dst, src, H, cutoff, qk_encoding)
  v = dense(params['value'], xkv)
  F = v.shape[-1]
  w = np.repeat(w, F // H, axis=-1)[:, None, None, :]
  out = conv(params, w * v[src], basis if v_encoding else None, dst, len(xq), L3,
             include, cart)
  return dense(params['out'], out)


# ------------------------------------------------------------------ neighbour lists
def random_graph(rng, n, m, p=0.6, isolated=True):
  """Random directed multigraph as list of (dst, src), sorted by dst."""
  pairs = []
  for i in range(n):
    if isolated and i == n - 1:
      continue
    for j in range(m):
      if rng.random() < p:
        pairs.append((i, j))
        if rng.random() < 0.1:
          pairs.append((i, j))
  if not pairs:
    pairs = [(0, 0)]
  return np.array(pairs)


def dense_layout(pairs, n, m, extra=1):
  """adj_idx (n, K) padded with m, and the slot of each pair."""
  cnt = np.bincount(pairs[:, 0], minlength=n)
  K = int(cnt.max()) + extra
  adj = np.full((n, K), m)
  slot = np.zeros(len(pairs), int)
  fill = np.zeros(n, int)
  for t, (i, j) in enumerate(pairs):
    adj[i, fill[i]] = j
    slot[t] = fill[i]
    fill[i] += 1
  return adj, slot


def to_dense(values, pairs, slot, n, K, fill=0.0):
  """Per-pair values (P, ...) to (n, K, ...)."""
  out = np.full((n, K) + values.shape[1:], fill, values.dtype)
  out[pairs[:, 0], slot] = values
  return out
