"""P27: what the library tells the compiler is true.

A sanitizer evaluates traced programs (values, derivatives, batched forms) and checks
on the index values that occur that every gather and scatter keeps its promises, and
that a requested numerical precision reaches every matrix product.  Both have no
effect on this machine's backend, so results alone cannot show a mistake."""
import jax
import jax.numpy as jnp
import numpy as np

import e3x
from monitors import catalogue, core, nets, sanitize

LEVEL = {None: 0, 'DEFAULT': 0, 'HIGH': 1, 'HIGHEST': 2}


def grade(p):
  if isinstance(p, (tuple, list)):
    return min(grade(v) for v in p)
  if p is None:
    return 0
  return LEVEL.get(getattr(p, 'name', str(p)).upper().replace('PRECISION.', ''), 0)


def total(tree):
  """A scalar that depends on all floating point outputs with different weights."""
  t = 0.0
  for i, v in enumerate(jax.tree_util.tree_leaves(tree)):
    v = jnp.asarray(v)
    if v.dtype.kind == 'f' and v.size:
      t += jnp.sum(v * jnp.cos(jnp.arange(v.size, dtype=v.dtype) + i).reshape(v.shape))
  return t


def variants(rng, fn, args, floats, smooth):
  """Forms in which a program is used."""
  out = [('value', fn)]
  if floats and smooth:
    pos = {i: k for k, i in enumerate(floats)}

    def at(*given):
      return lambda *x: fn(*[x[pos[i]] if i in pos else a for i, a in enumerate(given)])
    grad = lambda *a: jax.grad(lambda *x: total(at(*a)(*x)), argnums=tuple(range(len(floats))))(*[a[i] for i in floats])
    jvp = lambda *a: jax.jvp(at(*a), [a[i] for i in floats], [jax.tree_util.tree_map(jnp.ones_like, a[i]) for i in floats])
    out.append(('gradient', grad) if rng.integers(3) else ('tangent', jvp))
  if args:
    stack = lambda a: jax.tree_util.tree_map(lambda v: jnp.stack([jnp.asarray(v)] * 2), a)
    k = int(rng.integers(len(args)))
    base = out[-1][1]
    if rng.integers(2):
      out.append(('vmap over all of %s' % out[-1][0], lambda *a: jax.vmap(base)(*[stack(v) for v in a])))
    else:
      ax = tuple(0 if i == k else None for i in range(len(args)))
      out.append(('vmap over one of %s' % out[-1][0], lambda *a: jax.vmap(base, in_axes=ax)(*[stack(v) if i == k else v for i, v in enumerate(a)])))
  return out


def promises(mon, name, fn, args, **case):
  mon.begin(program=name, **case)
  try:
    _, found, rec = sanitize.observe(fn, *args)
  except Exception as e:  # pylint: disable=broad-except
    if core.compiler_failure(e):
      mon.note_compiler(e)
      return
    mon.violation(name, 'raised %s: %s' % (type(e).__name__, str(e)[:300]))
    return
  mon.calls += 1
  mon.count('operations evaluated', rec.operations)
  mon.count('indexed accesses hidden in loops', rec.hidden)
  for site, bad in found:
    mon.count('accesses observed')
    for k in ('sorted', 'unique'):
      if site[k]:
        mon.count('promises observed: ' + k)
    mon.expect('promise to the compiler', not bad, '%s: %s' % (name, '; '.join(bad)), site={k: str(v) for k, v in site.items()})


# ------------------------------------------------------------ index lists
def lists(mon, env):
  rng, o, dt = env.rng, e3x.ops, env.dtype
  batch = [(), (), (2,), (2, 2)][rng.integers(4)]
  n, m, P, K = (int(v) for v in rng.integers(2, 6, size=4))
  P += 2
  F = [(), (2,)][rng.integers(2)]
  srt = bool(rng.integers(2))
  dst = rng.integers(0, n + 1, size=batch + (P,))  # n: padding
  src = rng.integers(0, m, size=batch + (P,))
  if srt:
    dst = np.sort(dst, axis=-1)
  elif rng.integers(2):
    dst = -np.sort(-dst, axis=-1)
  adj = rng.integers(0, m + 1, size=batch + (n, K))
  pairs = jnp.asarray(rng.normal(size=batch + (P,) + F), dt)
  slots = jnp.asarray(rng.normal(size=batch + (n, K) + F), dt)
  atoms = jnp.asarray(rng.normal(size=batch + (m,) + F), dt)
  ends = jnp.asarray(rng.normal(size=batch + (n,) + F), dt)
  dst, src, adj = jnp.asarray(dst), jnp.asarray(src), jnp.asarray(adj)
  seg = dict(num_segments=n, indices_are_sorted=True) if srt else dict(num_segments=n)
  if not srt and rng.integers(2):
    seg['indices_are_sorted'] = False
  keep = bool(rng.integers(2))
  todo = []
  for k in ('sum', 'max', 'min'):
    f = getattr(o, 'indexed_' + k)
    todo.append(('indexed_%s sparse' % k, lambda x, d, f=f: f(x, keep, dst_idx=d, **seg), (pairs, dst), [0]))
    todo.append(('indexed_%s dense' % k, lambda x, a, f=f: f(x, keep, adj_idx=a, where=a < m), (slots, adj), [0]))
  todo.append(('indexed_softmax sparse', lambda x, d: o.indexed_softmax(x, dst_idx=d, **seg), (pairs, dst), [0]))
  todo.append(('indexed_softmax dense', lambda x, a: o.indexed_softmax(x, adj_idx=a, where=a < m), (slots, adj), [0]))
  mask = jnp.asarray(rng.uniform(0, 1, size=pairs.shape), dt)
  todo.append(('indexed_softmax mask', lambda x, w, d: o.indexed_softmax(x, w, dst_idx=d, **seg), (pairs, mask, dst), [0, 1]))
  todo.append(('gather_src sparse', lambda x, s: o.gather_src(x, src_idx=s), (atoms, src), [0]))
  todo.append(('gather_src dense', lambda x, a: o.gather_src(x, adj_idx=a), (atoms, adj), [0]))
  todo.append(('gather_dst sparse', lambda x, d: o.gather_dst(x, dst_idx=d), (ends, dst), [0]))
  for i in rng.permutation(len(todo))[:5]:
    name, fn, args, floats = todo[i]
    for how, f in variants(rng, fn, args, floats, True):
      promises(mon, name, f, args, form=how, sorted=srt, batch=batch, trailing=F, keepdims=keep, n=n, P=P, K=K)


def model_lists(mon, env):
  """The user's flag arrives at layers: true for sorted lists, false for others."""
  rng, dt, nn = env.rng, env.dtype, e3x.nn
  n = int(rng.integers(2, 5))
  P = int(rng.integers(4, 9))
  srt = bool(rng.integers(2))
  dst, src = rng.integers(0, n, size=P), rng.integers(0, n, size=P)
  dst = np.sort(dst) if srt else dst
  L = int(rng.integers(0, 2))
  x = jnp.asarray(nets.features(rng, dt, (n,), int(rng.integers(1, 3)), L, 4))
  b = jnp.asarray(nets.features(rng, dt, (P,), 1, int(rng.integers(0, 2)), 3))
  kw = dict(dst_idx=jnp.asarray(dst), src_idx=jnp.asarray(src), num_segments=n)
  if srt or rng.integers(2):
    kw['indices_are_sorted'] = srt
  which = int(rng.integers(3))
  if which == 0:
    mod, args = nn.MessagePass(use_fused_tensor=bool(rng.integers(2))), (x, b)
  elif which == 1:
    mod, args = nn.SelfAttention(num_heads=int(rng.integers(1, 3))), (x, b)
  else:
    mod, args = nn.MultiHeadAttention(num_heads=2), (x, x, b)
  params = nets.random_params(rng, mod, dt, *args, **kw)
  fn = lambda p, *a: mod.apply(p, *a, **kw)
  for how, f in variants(rng, fn, (params,) + args, list(range(1 + len(args))), True)[:2]:
    promises(mon, type(mod).__name__, f, (params,) + args, form=how, sorted=srt, P=P, n=n, L=L)


# -------------------------------------------------------------- precision
def precision(mon, env):
  rng, dt, nn = env.rng, env.dtype, e3x.nn
  want = [jax.lax.Precision.HIGHEST, 'highest', jax.lax.Precision.HIGH, 'high', 'float32'][rng.integers(5)]
  level = dict(highest=2, high=1, float32=2)[want] if isinstance(want, str) else grade(want)
  n, P, K = (int(v) for v in rng.integers(2, 5, size=3))
  L1, L2 = (int(v) for v in rng.integers(0, 3, size=2))
  P1, P2 = (int(v) for v in rng.integers(1, 3, size=2))
  F = 4
  mk = lambda *b, p=1, l=1, f=F: jnp.asarray(nets.features(rng, dt, b, p, l, f))
  L3 = int(rng.integers(0, min(L1 + L2, 2) + 1))
  tk = dict(max_degree=[None, L3][rng.integers(2)] if max(L1, L2) <= 2 else L3, include_pseudotensors=bool(rng.integers(2)),
            cartesian_order=bool(rng.integers(2)), precision=want)
  fused = dict(use_fused_tensor=bool(rng.integers(2)))
  sparse = dict(dst_idx=jnp.asarray(rng.integers(0, n, size=P)), src_idx=jnp.asarray(rng.integers(0, n, size=P)), num_segments=n)
  dense = dict(adj_idx=jnp.asarray(rng.integers(0, n + 1, size=(n, K))))
  idx, shape = (sparse, (P,)) if rng.integers(2) else (dense, (n, K))
  x, y = mk(n, p=P1, l=L1), mk(n, p=P2, l=L2)
  b = mk(*shape, p=1, l=L2, f=3)
  enc = dict(num_heads=int(2 ** rng.integers(3)), use_relative_positional_encoding_qk=bool(rng.integers(2)),
             use_relative_positional_encoding_v=bool(rng.integers(2)), use_basis_bias=bool(rng.integers(2)),
             query_use_bias=bool(rng.integers(2)), output_use_bias=bool(rng.integers(2)))
  cases = [
      ('Dense', nn.Dense(3, precision=want), (x,), {}),
      ('Tensor', nn.Tensor(**tk), (x, y), {}),
      ('FusedTensor', nn.FusedTensor(**tk), (x, y), {}),
      ('TensorDense', nn.TensorDense(3, **dict(tk, max_degree=min(L1, 2)), **fused), (x,), {}),
      ('MessagePass', nn.MessagePass(**tk, **fused), (x, b), idx),
      ('SelfAttention', nn.SelfAttention(**tk, **fused, **enc), (x, b), idx),
      ('MultiHeadAttention', nn.MultiHeadAttention(**tk, **fused, **enc), (x, y, b), idx)]
  for i in rng.permutation(len(cases))[:3]:
    name, mod, args, kw = cases[i]
    mon.begin(layer=name, precision=str(want), shapes=str([a.shape for a in args]), kw=str(sorted(kw)), options=str(tk) + str(enc))
    try:
      params = nets.random_params(rng, mod, dt, *args, **kw)
    except ValueError:  # (not a valid combination of degrees)
      continue
    fn = lambda p, *a: mod.apply(p, *a, **kw)
    for how, f in variants(rng, fn, (params,) + args, list(range(1 + len(args))), True):
      found = mon.call(name, sanitize.products, f, params, *args)
      mon.count('matrix products observed', len(found))
      low = [str(v) for v in found if grade(v) < level]
      mon.expect('precision of matrix products', not low, '%s (%s): %d of %d products use %s instead of %s' % (
          name, how, len(low), len(found), sorted(set(low)), want))
  # Matrices assembled from irreps.
  degrees = [int(v) for v in rng.integers(0, 2, size=2)]
  mm = e3x.matrix.matmat
  irreps = [jnp.ones((2 * l + 1, 8), dt) for l in range(3)]
  mon.begin(layer='make_square_matrix', precision=str(want), degrees=degrees)
  found = mon.call('make_square_matrix', sanitize.products,
                   lambda *ir: mm.make_square_matrix(list(ir), degrees, 1, 2, bool(rng.integers(2)), want), *irreps)
  w = [jnp.ones((4, 2), dt)] * 2
  found += mon.call('combine_irreps', sanitize.products, lambda x, *w: mm.combine_irreps(x, list(w), want), jnp.ones((3, 4, 4), dt), *w)
  mon.count('matrix products observed', len(found))
  low = [str(v) for v in found if grade(v) < level]
  mon.expect('precision of matrix products', not low, 'matrices: %s instead of %s' % (low, want))


# ------------------------------------------------------------- everything
def programs(mon, env):
  rng = env.rng
  todo = [p for p in catalogue.programs(rng, 2 if not env.thorough else 3) if p.traceable]
  todo = [todo[i] for i in rng.permutation(len(todo))]
  for p in todo:
    if not mon.time_left():
      return
    mon.section(p.name, program, mon, env, p)


def program(mon, env, p):
  args = [catalogue.cast(a, env.dtype) for a in p.args]
  forms = variants(env.rng, p.fn, args, p.floats, p.smooth)
  for i in {0, len(forms) - 1} if env.rng.integers(3) else {min(1, len(forms) - 1)}:
    promises(mon, p.name, forms[i][1], args, form=forms[i][0], config=p.config)


def run(mon, env):
  rounds = env.n(3, 40)
  for _ in range(rounds):
    if not mon.time_left():
      return
    mon.section('index lists', lists, mon, env)
    mon.section('layers with index lists', model_lists, mon, env)
    mon.section('precision', precision, mon, env)
  programs(mon, env)
