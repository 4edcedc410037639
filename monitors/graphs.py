"""The same list of pairs in many layouts (dense/sparse, order, padding)."""
import jax.numpy as jnp
import numpy as np


def junk(rng, shape, dtype):
  return np.asarray(rng.choice([-50.0, 37.0, 3.0, 1e3], size=shape), dtype)


class Layout:
  """idx: keyword arguments; put(values): per-pair values -> layout array."""

  def __init__(self, name, idx, put, get, shape):
    self.name, self.idx, self.put, self.get, self.shape = name, idx, put, get, shape


def sparse(rng, pairs, n, m, dtype, pad=0, order=None, name='sparse', sort=False):
  P = len(pairs)
  pos = np.arange(P + pad) if order is None else order
  at = np.sort(rng.permutation(P + pad)[:P]) if sort is None else (
      np.arange(P) if order is None and not pad else rng.permutation(P + pad)[:P])
  if sort:
    at = np.arange(P)
  dst = np.full(P + pad, n, np.int32) + rng.integers(0, 2, size=P + pad).astype(np.int32)
  src = np.full(P + pad, m, np.int32) + rng.integers(0, 2, size=P + pad).astype(np.int32)
  dst[at], src[at] = pairs[:, 0], pairs[:, 1]
  if sort:
    dst[P:] = np.sort(dst[P:])
  idx = dict(dst_idx=jnp.asarray(dst), src_idx=jnp.asarray(src))
  if sort:
    idx['indices_are_sorted'] = True

  def put(v, fill=None):
    out = junk(rng, (P + pad,) + v.shape[1:], dtype) if fill is None else np.full(
        (P + pad,) + v.shape[1:], fill, dtype)
    out[at] = v
    return out
  return Layout(name, idx, put, lambda a: np.asarray(a)[at], (P + pad,))


def dense(rng, pairs, n, m, dtype, extra=0, shuffle=False, where=None, name='dense'):
  cnt = np.bincount(pairs[:, 0], minlength=n)
  K = int(cnt.max()) + extra
  adj = np.full((n, K), m, np.int32) + rng.integers(0, 2, size=(n, K)).astype(np.int32)
  slot = np.zeros(len(pairs), int)
  for i in range(n):
    mine = np.flatnonzero(pairs[:, 0] == i)
    s = rng.permutation(K)[:len(mine)] if shuffle else np.arange(len(mine))
    slot[mine] = s
    adj[i, s] = pairs[mine, 1]
  mask = adj < m
  idx = {}
  if where is not None:
    idx['where'] = jnp.asarray(mask)
    if where == 'valid indices':  # masked-out slots hold valid indices
      adj = np.where(mask, adj, rng.integers(0, m, size=adj.shape)).astype(np.int32)
  idx['adj_idx'] = jnp.asarray(adj)

  def put(v, fill=None):
    out = junk(rng, (n, K) + v.shape[1:], dtype) if fill is None else np.full(
        (n, K) + v.shape[1:], fill, dtype)
    out[pairs[:, 0], slot] = v
    return out
  return Layout(name, idx, put, lambda a: np.asarray(a)[pairs[:, 0], slot], (n, K))


def layouts(rng, pairs, n, m, dtype):
  """pairs must be sorted by destination."""
  q = rng.permutation(len(pairs))
  return [
      sparse(rng, pairs, n, m, dtype, name='sparse'),
      sparse(rng, pairs, n, m, dtype, pad=int(rng.integers(1, 5)), order=q, name='sparse shuffled padded'),
      sparse(rng, pairs, n, m, dtype, pad=int(rng.integers(0, 3)), sort=True, name='sparse sorted'),
      dense(rng, pairs, n, m, dtype, name='dense'),
      dense(rng, pairs, n, m, dtype, extra=int(rng.integers(1, 4)), shuffle=True, name='dense shuffled padded'),
      dense(rng, pairs, n, m, dtype, extra=int(rng.integers(1, 4)), shuffle=True, where='valid indices',
            name='dense with mask over valid indices'),
  ]
