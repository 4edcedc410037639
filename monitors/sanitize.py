"""A sanitizer for traced programs.

JAX programs give promises to the compiler: indices of a gather or scatter may be
declared sorted or unique, and overwriting the same element twice leaves the result
unspecified.  (Out-of-bounds indices are well defined: reads are clamped or filled,
writes are dropped.)  On this machine's backend a broken promise often has no
effect; on others it silently gives wrong numbers.  `observe` runs a program and
checks every promise on the index values that actually occurred.
"""
import jax
import jax.extend.core as jc
import jax.numpy as jnp
import numpy as np

SCATTERS = ('scatter', 'scatter-add', 'scatter-mul', 'scatter-min', 'scatter-max', 'scatter-sub',
            'scatter_add', 'scatter_mul', 'scatter_min', 'scatter_max', 'scatter_sub')
INLINE = ('jit', 'pjit', 'closed_call', 'core_call', 'custom_jvp_call', 'custom_vjp_call', 'custom_vjp_call_jaxpr',
          'checkpoint', 'remat', 'remat2', 'custom_lin')
OPAQUE = ('while', 'scan', 'cond')


def _body(eqn):
  for k in ('jaxpr', 'call_jaxpr', 'fun_jaxpr'):
    if k in eqn.params:
      j = eqn.params[k]
      return j if isinstance(j, jc.ClosedJaxpr) else jc.ClosedJaxpr(j, ())
  return None


def _equations(jaxpr):
  for e in jaxpr.eqns:
    yield e
    for v in e.params.values():
      for j in v if isinstance(v, (tuple, list)) else (v,):
        if isinstance(j, jc.ClosedJaxpr):
          yield from _equations(j.jaxpr)
        elif isinstance(j, jc.Jaxpr):
          yield from _equations(j)


class Recorder:
  """Evaluates a program and keeps the operands of all indexed accesses."""

  def __init__(self):
    self.sites, self.values = [], []
    self.operations = 0
    self.hidden = 0  # indexed accesses inside of loops and branches

  def eval(self, closed, *args):
    env = {}
    read = lambda v: v.val if isinstance(v, jc.Literal) else env[v]
    jaxpr = closed.jaxpr
    for v, a in zip(jaxpr.constvars, closed.consts):
      env[v] = a
    for v, a in zip(jaxpr.invars, args):
      env[v] = a
    for e in jaxpr.eqns:
      vals = [read(v) for v in e.invars]
      name = e.primitive.name
      self.operations += 1
      body = _body(e) if name in INLINE else None
      if body is not None:
        outs = self.eval(body, *vals)
      else:
        if name == 'gather' or name in SCATTERS:
          self.record(name, e, vals)
        elif name in OPAQUE:
          self.hidden += sum(i.primitive.name == 'gather' or i.primitive.name in SCATTERS
                             for v in e.params.values() for j in (v if isinstance(v, (tuple, list)) else (v,))
                             if isinstance(j, jc.ClosedJaxpr) for i in _equations(j.jaxpr))
        outs = e.primitive.bind(*vals, **e.primitive.get_bind_params(e.params))
        if not e.primitive.multiple_results:
          outs = [outs]
      for v, o in zip(e.outvars, outs):
        env[v] = o
    return [read(v) for v in jaxpr.outvars]

  def record(self, name, e, vals):
    p = e.params
    dn = p['dimension_numbers']
    mode = str(p.get('mode'))
    if name == 'gather':
      dims, batch, index_map = dn.start_indices_batching_dims, dn.operand_batching_dims, dn.start_index_map
      keep = [vals[1]]
      slices = tuple(p['slice_sizes'])
    else:
      dims, batch, index_map = dn.scatter_indices_batching_dims, dn.operand_batching_dims, dn.scatter_dims_to_operand_dims
      keep = [vals[1]] + ([vals[2]] if name == 'scatter' else [])
      ones = set(dn.inserted_window_dims) | set(batch)
      window = iter([vals[2].shape[d] for d in dn.update_window_dims])
      slices = tuple(1 if d in ones else next(window) for d in range(np.ndim(vals[0])))
    self.sites.append(dict(op=name, sorted=bool(p.get('indices_are_sorted')), unique=bool(p.get('unique_indices')), mode=mode,
                           batch=tuple(dims), map=tuple(index_map), slices=slices, operand=tuple(np.shape(vals[0])),
                           window=tuple(getattr(dn, 'update_window_dims', ()))))
    self.values.append(keep)


def problems(site, values):
  """Broken promises of one access."""
  idx = np.asarray(values[0])
  batch = site['batch']
  rest = [d for d in range(idx.ndim - 1) if d not in batch]
  idx = np.transpose(idx, list(batch) + rest + [idx.ndim - 1])
  nb = int(np.prod([idx.shape[d] for d in range(len(batch))])) if batch else 1
  order = np.argsort(site['map'])
  if idx.size == 0 or not len(order):
    return []
  rows = idx.reshape((nb, -1, idx.shape[-1])).astype(np.int64)[..., order]
  limits = np.array([site['operand'][site['map'][o]] - site['slices'][site['map'][o]] for o in order], np.int64)
  out = []
  inside = np.all((rows >= 0) & (rows <= limits), axis=-1)
  upd = None
  if site['op'] == 'scatter':
    u = np.asarray(values[1])
    scat = [d for d in range(u.ndim) if d not in site['window']]
    u = np.transpose(u, scat + list(site['window']))
    # Axes of the updates follow those of the indices.
    lead = u.shape[:len(scat)]
    u = np.transpose(u, list(batch) + rest + list(range(len(scat), u.ndim))) if len(lead) == len(batch) + len(rest) else u
    upd = u.reshape((nb, rows.shape[1], -1))
  for b in range(nb):
    r = rows[b]
    if r.shape[1] == 0:
      continue
    if site['sorted'] and len(r) > 1:
      d = r[1:] - r[:-1]
      first = np.take_along_axis(d, np.argmax(d != 0, axis=1)[:, None], axis=1)[:, 0]
      if np.any(first < 0):
        out.append('indices declared sorted are not')
        break
  for b in range(nb):
    r = rows[b][inside[b]]
    if r.shape[1] == 0 or len(r) < 2:
      continue
    _, inv, cnt = np.unique(r, axis=0, return_inverse=True, return_counts=True)
    inv = inv.reshape(-1)
    if np.any(cnt > 1):
      if site['unique']:
        out.append('indices declared unique are not')
        break
      if upd is not None:
        u = upd[b][inside[b]]
        for k in np.flatnonzero(cnt > 1):
          same = u[inv == k]
          if not np.array_equal(same, np.broadcast_to(same[:1], same.shape), equal_nan=same.dtype.kind == 'f'):
            out.append('elements are overwritten with different values in unspecified order')
            return out
  return out


def observe(fn, *args):
  """Runs fn on the given arrays and returns its outputs, all indexed accesses with
  their broken promises and the recorder."""
  flat, tree = jax.tree_util.tree_flatten(args)
  rec = Recorder()
  closed = jax.make_jaxpr(lambda *a: fn(*jax.tree_util.tree_unflatten(tree, a)))(*flat)

  def run(*a):
    rec.sites, rec.values, rec.operations, rec.hidden = [], [], 0, 0
    outs = rec.eval(closed, *a)
    return outs, rec.values

  outs, values = jax.jit(run)(*flat)
  found = [(s, problems(s, v)) for s, v in zip(rec.sites, values)]
  return outs, found, rec


def products(fn, *args):
  """Precisions of all matrix products in a program (also inside of loops)."""
  closed = jax.make_jaxpr(fn)(*args)
  return [e.params.get('precision') for e in _equations(closed.jaxpr) if e.primitive.name in ('dot_general', 'conv_general_dilated')]
