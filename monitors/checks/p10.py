"""P10: feature manipulations keep every irrep in its place."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import e3x
from monitors import nets, ref


def want_change(x, L, P):
  """Reference: place irreps by (parity, degree) and drop/zero-fill the rest."""
  full = ref.to_full(x, L)
  if P == 2:
    return full
  odd = (ref.degree_of(L) % 2 == 1)[:, None]
  return np.where(odd, full[..., 1, :, :], full[..., 0, :, :])[..., None, :, :]


def change(mon, env, P, L, Lo, inc):
  rng = env.rng
  F = int(rng.integers(1, 4))
  batch = [(), (2,), (2, 3), (0,)][rng.integers(4)]
  x = nets.features(rng, env.dtype, batch, P, L, F)
  mon.begin(fn='change_max_degree_or_type', P=P, L=L, to=Lo, include=inc, batch=batch)
  y = mon.call('change', e3x.nn.change_max_degree_or_type, jnp.asarray(x), Lo, inc)
  Po = P if inc is None else (2 if inc else 1)
  want = want_change(x, L if Lo is None else Lo, Po)
  mon.close('irreps keep their place', y, want, 0.0)
  mon.expect('precision', y.dtype == env.dtype, str(y.dtype))


def add(mon, env, P1, L1, P2, L2):
  rng = env.rng
  F = int(rng.integers(1, 4))
  b = [(), (2,), (2, 3), (1,)][rng.integers(4)]
  shapes = [(P1, L1), (P2, L2)]
  for _ in range(int(rng.integers(0, 3))):
    shapes.insert(int(rng.integers(0, len(shapes) + 1)),
                  (int(rng.integers(1, 3)), int(rng.integers(0, 5))))
  xs = [nets.features(rng, env.dtype, b, p, l, F) for p, l in shapes]
  mon.begin(fn='add', shapes=shapes, batch=b)
  z = mon.call('add', e3x.nn.add, *[jnp.asarray(x) for x in xs])
  L, P = max(l for _, l in shapes), max(p for p, _ in shapes)
  want = sum(want_change(x, L, P) for x in xs)
  mon.close('add', z, want, 4 * env.eps, scale=sum(np.abs(want_change(x, L, P)) for x in xs))
  w = mon.call('add', e3x.nn.add, *[jnp.asarray(x) for x in xs[::-1]])
  mon.close('add commutes', w, z, 8 * env.eps,
            scale=sum(np.abs(want_change(x, L, P)) for x in xs))
  one = mon.call('add', e3x.nn.add, jnp.asarray(xs[0]))
  mon.close('sum of one', one, xs[0], 0.0)


def rotate(mon, env, P, L, top):
  rng = env.rng
  F = int(rng.integers(1, 4))
  cart = bool(rng.integers(2))
  batch = [(), (2,), (2, 3)][rng.integers(3)]
  mode = ('one rotation', 'batched rotation')[rng.integers(2)]
  x = nets.features(rng, env.dtype, batch, P, L, F)
  rots = ref.special_rots(rng)
  pick = lambda: rots[rng.integers(len(rots))] if rng.random() < 0.4 else ref.random_rot(rng)
  mon.begin(fn='rotate', P=P, L=L, cart=cart, batch=batch, mode=mode)
  if mode == 'one rotation' or not batch:
    R = np.asarray(pick(), env.dtype)
    want = ref.transform_features(x, np.asarray(R, float), cart=cart)
  else:
    R = np.stack([pick() for _ in range(int(np.prod(batch)))]).reshape(
        tuple(batch) + (3, 3)).astype(env.dtype)
    want = np.zeros_like(x, float)
    for i in np.ndindex(*batch):
      want[i] = ref.transform_features(x[i], np.asarray(R[i], float), cart=cart)
  if R.ndim == 2:
    D = ref.wigner(np.asarray(R, float), L, cart)
  else:
    D = np.zeros(R.shape[:-2] + ((L + 1) ** 2,) * 2)
    for i in np.ndindex(*R.shape[:-2]):
      D[i] = ref.wigner(np.asarray(R[i], float), L, cart)
  y = mon.call('rotate', e3x.nn.rotate, jnp.asarray(x), jnp.asarray(D, env.dtype))
  mon.close('rotate', y, want, 20 * env.eps * (L + 1), scale=max(1, np.max(np.abs(want))))


def reflect(mon, env, P, L):
  rng = env.rng
  F = int(rng.integers(1, 4))
  batch = [(), (2,), (2, 3)][rng.integers(3)]
  x = nets.features(rng, env.dtype, batch, P, L, F)
  mon.begin(fn='reflect', P=P, L=L, batch=batch)
  y = mon.call('reflect', e3x.nn.reflect, jnp.asarray(x))
  mon.close('reflect flips odd parity', y, x * ref.parity_sign(P, L)[..., None], 0.0)
  mon.close('reflect is an involution', mon.call('reflect', e3x.nn.reflect, y), x, 0.0)
  mon.close('padding then reflecting', mon.call(
      'reflect', e3x.nn.reflect, mon.call('change', e3x.nn.change_max_degree_or_type, jnp.asarray(x), L, True)),
      ref.to_full(np.asarray(y)), 0.0)


def masks(mon, env, L):
  mon.begin(fn='degree masks', L=L)
  e = np.asarray(mon.call('mask', e3x.nn.even_degree_mask, L))
  o = np.asarray(mon.call('mask', e3x.nn.odd_degree_mask, L))
  d = ref.degree_of(L)[:, None]
  mon.expect('mask dtype', e.dtype == bool and o.dtype == bool, '%s %s' % (e.dtype, o.dtype))
  mon.close('even mask', e, d % 2 == 0, 0.0)
  mon.close('odd mask', o, d % 2 == 1, 0.0)


def layers_agree(mon, env):
  """Layers treat P=1 features exactly like the zero-padded P=2 features."""
  rng = env.rng
  L, F = int(rng.integers(1, 4)), 3
  x = nets.features(rng, env.dtype, (2,), 1, L, F)
  full = ref.to_full(x).astype(env.dtype)
  mon.begin(fn='implicit padding', L=L)
  for name in ('relu', 'silu', 'gelu', 'mish'):
    f = getattr(e3x.nn, name)
    a = mon.call(name, f, jnp.asarray(x))
    b = mon.call(name, f, jnp.asarray(full))
    mon.close('activation of padded features', ref.to_full(a), b, 8 * env.eps)
  mod = e3x.nn.Dense(features=2)
  p = nets.random_params(rng, mod, env.dtype, full)
  q = {'params': {nets.irrep_name(1, 0, l): p['params'][nets.irrep_name(1, 0, l)] for l in range(L + 1)}}
  a = mon.call('Dense', mod.apply, q, x)
  b = mon.call('Dense', mod.apply, p, full)
  mon.close('linear layer of padded features', ref.to_full(a), b, 32 * env.eps,
            scale=max(1, np.max(np.abs(np.asarray(b)))))


def run(mon, env):
  rng = env.rng
  top = 5
  k = 0
  for P, L, Lo, inc in itertools.product((1, 2), range(6), [None] + list(range(7)), (None, True, False)):
    k += 1
    if env.mine(k) and (env.thorough or k % 2 == 0 or L <= 3):
      mon.section('change', change, mon, env, P, L, Lo, inc)
  for P1, L1, P2, L2 in itertools.product((1, 2), range(5), (1, 2), range(5)):
    k += 1
    if env.mine(k):
      mon.section('add', add, mon, env, P1, L1, P2, L2)
  for P, L in itertools.product((1, 2), range(top + 1)):
    for _ in range(env.n(2, 20)):
      k += 1
      if env.mine(k) or env.thorough:
        mon.section('rotate', rotate, mon, env, P, L, top)
  for P, L in itertools.product((1, 2), range(8)):
    k += 1
    if env.mine(k):
      mon.section('reflect', reflect, mon, env, P, L)
  for L in range(12):
    if env.mine(L):
      mon.section('masks', masks, mon, env, L)
  for _ in range(env.n(1, 10)):
    mon.section('layers', layers_agree, mon, env)
  while env.thorough and mon.time_left() and k < 4000:
    k += 1
    P, L = int(rng.integers(1, 3)), int(rng.integers(0, 8))
    mon.section('change', change, mon, env, P, L, int(rng.integers(0, 9)), [None, True, False][rng.integers(3)])
    mon.section('add', add, mon, env, P, int(rng.integers(0, 6)), int(rng.integers(1, 3)), int(rng.integers(0, 6)))
    mon.section('rotate', rotate, mon, env, P, int(rng.integers(0, top + 1)), top)
