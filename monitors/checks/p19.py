"""P19: results do not depend on how a program is transformed.

Every program of the catalogue is observed eagerly, compiled, vectorised, with batch
axes, in loops, recomputed and differentiated in all directions; all observations of
the same mathematical quantity must agree."""
import functools

import jax
import jax.numpy as jnp
import numpy as np

from monitors import catalogue, core

tmap = jax.tree_util.tree_map


def flat(tree):
  return [np.asarray(v) for v in jax.tree_util.tree_leaves(tree)]


def dot(a, b):
  return sum(float(np.sum(np.asarray(u, np.float64) * np.asarray(v, np.float64))) for u, v in zip(flat(a), flat(b)))


def size(a, b):
  return sum(float(np.sum(np.abs(np.asarray(u, np.float64) * np.asarray(v, np.float64)))) for u, v in zip(flat(a), flat(b)))


class Observer:

  def __init__(self, mon, env, prog):
    self.mon, self.env, self.prog, self.rng = mon, env, prog, env.rng
    self.args = [catalogue.cast(a, env.dtype) for a in prog.args]

  def label(self, what):
    return '%s: %s' % (self.prog.name, what)

  def same(self, what, got, want, tol=None, scale=None):
    g, w = flat(got), flat(want)
    s0, s1 = (jax.tree_util.tree_structure(v) for v in (got, want))
    if not self.mon.expect(self.label(what), s0 == s1 and len(g) == len(w), 'structure %s, expected %s' % (s0, s1)):
      return
    for a, b in zip(g, w):
      if not self.mon.expect(self.label(what), a.dtype == b.dtype, 'dtype %s, expected %s' % (a.dtype, b.dtype)):
        continue
      if a.dtype.kind in 'biu':
        self.mon.expect(self.label(what), a.shape == b.shape and np.array_equal(a, b), 'integers or flags differ')
      else:
        eps = max(self.env.eps, float(np.finfo(b.dtype).eps))
        self.mon.close(self.label(what), a, b, (tol or 300) * eps, scale=scale)

  def value(self):
    return self.mon.call(self.label('eager'), self.prog.fn, *self.args)

  # ------------------------------------------------------------- values
  def jit(self):
    return self.mon.call(self.label('jit'), jax.jit(self.prog.fn), *self.args)

  def partial_jit(self):
    """Some arguments are traced, the others are compile-time constants."""
    if len(self.args) < 2:
      return self.jit()
    traced = [bool(self.rng.integers(2)) for _ in self.args]
    f = lambda *t: self.prog.fn(*[a if not m else t[sum(traced[:i])] for i, (a, m) in enumerate(zip(self.args, traced))])
    return self.mon.call(self.label('jit of some arguments'), jax.jit(f), *[a for a, m in zip(self.args, traced) if m])

  def no_jit(self):
    with jax.disable_jit():
      return self.mon.call(self.label('disable_jit'), self.prog.fn, *self.args)

  def leaks(self):
    """JAX's own tracer leak detector watches one compilation."""
    with jax.checking_leaks():
      return self.mon.call(self.label('leak detector'), jax.jit(self.prog.fn), *self.args)

  def remat(self):
    return self.mon.call(self.label('checkpoint'), jax.jit(jax.checkpoint(self.prog.fn)), *self.args)

  def loop(self):
    def body(c, _):
      return c, self.prog.fn(*c)
    out = self.mon.call(self.label('scan'), lambda: jax.lax.scan(body, tuple(self.args), jnp.arange(2))[1])
    return tmap(lambda v: v[1], out)

  def branch(self):
    f = lambda b, *a: jax.lax.cond(b, self.prog.fn, lambda *a: tmap(jnp.zeros_like, self.prog.fn(*a)), *a)
    return self.mon.call(self.label('cond'), jax.jit(f), jnp.asarray(True), *self.args)

  def shapes(self, want):
    s = self.mon.call(self.label('eval_shape'), jax.eval_shape, self.prog.fn, *self.args)
    for a, b in zip(jax.tree_util.tree_leaves(s), flat(want)):
      self.mon.expect(self.label('eval_shape'), a.shape == b.shape and a.dtype == b.dtype, '%s %s, expected %s %s' % (
          a.shape, a.dtype, b.shape, b.dtype))

  def batches(self):
    """One axis of samples: a Python loop, vmap (of jit, jit of vmap) and batch axes."""
    prog, rng, n = self.prog, self.rng, 3
    if not self.args:
      return
    which = [not p for p in prog.params]
    if sum(which) > 1 and rng.integers(2):  # some arguments are shared by all samples
      drop = rng.permutation(np.flatnonzero(which))[0]
      which[drop] = False
    if not any(which):
      return
    samples = [[catalogue.cast(prog.resample(rng, i), self.env.dtype) if w else a for i, (a, w) in enumerate(zip(self.args, which))]
               for _ in range(n)]
    f = jax.jit(prog.fn)
    single = [self.mon.call(self.label('single'), f, *s) for s in samples]
    want = tmap(lambda *v: np.stack([np.asarray(u) for u in v]), *single)
    stacked = [tmap(lambda *v: jnp.stack(v), *[s[i] for s in samples]) if w else a for i, (a, w) in enumerate(zip(self.args, which))]
    axes = [0 if w else None for w in which]
    vm = jax.vmap(prog.fn, in_axes=axes)
    mode = rng.integers(3)
    run = vm if mode == 0 else jax.jit(vm) if mode == 1 else jax.vmap(f, in_axes=axes)
    got = self.mon.call(self.label('vmap'), run, *stacked)
    self.same('vmap', got, want)
    # other positions of the mapped axis
    axes = [-1 if w else None for w in which]
    got = self.mon.call(self.label('vmap last axis'), jax.jit(jax.vmap(prog.fn, in_axes=axes, out_axes=-1)),
                        *[tmap(lambda v: jnp.moveaxis(v, 0, -1), a) if w else a for a, w in zip(stacked, which)])
    self.same('vmap last axis', tmap(lambda v: np.moveaxis(np.asarray(v), -1, 0), got), want)
    if prog.batch is not None and all(b or not w for b, w in zip(prog.batch, which)):
      # Unbatched arguments take part with a batch axis of size one.
      k = n if prog.equal else 1
      args = [a if w or not b else tmap(lambda v: jnp.stack([v] * k), a) for a, w, b in zip(stacked, which, prog.batch)]
      got = self.mon.call(self.label('batch axis'), prog.fn, *args)
      self.same('batch axis', got, want)
      shape = [(1, n), (n, 1), (1, n, 1)][rng.integers(3)]
      args = [tmap(lambda v: v.reshape(shape + v.shape[1:]), a) if w else (tmap(lambda v: jnp.broadcast_to(v, (shape if prog.equal else (1,) * len(shape)) + v.shape), a) if b else a)
              for a, w, b in zip(stacked, which, prog.batch)]
      got = self.mon.call(self.label('several batch axes'), f, *args)
      self.same('several batch axes', tmap(lambda v: np.asarray(v).reshape((n,) + v.shape[len(shape):]), got), want)
      empty = [tmap(lambda v: v[:0], a) if b else a for a, b in zip(args, prog.batch)]
      if prog.equal or all(w or not b for w, b in zip(which, prog.batch)):
        got = self.mon.call(self.label('empty batch'), prog.fn, *empty)
        for g, w in zip(flat(got), flat(want)):
          self.mon.expect(self.label('empty batch'), g.dtype == w.dtype and g.size == 0 and g.shape[len(shape):] == w.shape[1:],
                          'shape %s %s' % (g.shape, g.dtype))

  def precision(self, want):
    """x64 enabled: double inputs give double results, single inputs agree."""
    if not self.env.x64 or not self.prog.floats:
      return
    for v in flat(want):
      if v.dtype.kind == 'f':
        self.mon.expect(self.label('double in, double out'), v.dtype == np.float64, str(v.dtype))
    low = [catalogue.cast(tmap(lambda v: np.asarray(v, np.float32) if np.asarray(v).dtype.kind == 'f' else v, a), np.float32)
           for a in self.args]
    eps = float(np.finfo(np.float32).eps)
    up = [catalogue.cast(a, np.float64) for a in low]
    ref = self.mon.call(self.label('double'), self.prog.fn, *up)
    got = self.mon.call(self.label('single'), self.prog.fn, *low)
    for a, b in zip(flat(got), flat(ref)):
      if b.dtype.kind == 'f':
        a, b = np.asarray(a, np.float64), np.asarray(b)
        skip = np.abs(b) == np.finfo(np.float64).max  # neutral element of an empty minimum or maximum
        if a.shape == b.shape:
          a, b = np.where(skip, 0, a), np.where(skip, 0, b)
        self.mon.close(self.label('single precision'), a, b, 300 * eps)

  # -------------------------------------------------------- derivatives
  def derivatives(self, want):
    prog, rng, mon, env = self.prog, self.rng, self.mon, self.env
    fl = prog.floats
    if not fl or not any(v.dtype.kind == 'f' for v in flat(want)):
      return
    x = [self.args[i] for i in fl]

    def g(*x):
      a = list(self.args)
      for i, v in zip(fl, x):
        a[i] = v
      return [v for v in jax.tree_util.tree_leaves(prog.fn(*a)) if jnp.issubdtype(v.dtype, jnp.floating)]
    want = [v for v in flat(want) if v.dtype.kind == 'f']
    rand = lambda t: tmap(lambda v: jnp.asarray(rng.normal(size=np.shape(v)), v.dtype), t)
    t, u = rand(x), rand([jnp.asarray(w) for w in want])
    fwd = lambda x, t: jax.jvp(g, tuple(x), tuple(t))
    rev = lambda x, u: (lambda o: (o[0], list(o[1](u))))(jax.vjp(g, *x))
    tree = jax.tree_util.tree_structure(x)
    ts = rand([jnp.stack([v] * 3) for v in jax.tree_util.tree_leaves(x)])
    us = rand([jnp.stack([jnp.asarray(v)] * 2) for v in want])

    def everything(x, t, u, ts, us):
      one = lambda *leaves: fwd(x, jax.tree_util.tree_unflatten(tree, leaves))[1]
      back = lambda *u: rev(x, list(u))[1]
      return (fwd(x, t), rev(x, u), jax.vmap(one)(*ts), one(*[v[1] for v in ts]), jax.vmap(back)(*us), back(*[v[0] for v in us]))
    (y1, jt), (y2, uj), many1, single1, many2, single2 = mon.call(self.label('derivatives'), jax.jit(everything), x, t, u, ts, us)
    if rng.random() < (0.5 if env.thorough else 0.15):  # op by op
      z1, kt = mon.call(self.label('eager forward mode'), fwd, x, t)
      z2, vj = mon.call(self.label('eager reverse mode'), rev, x, u)
      self.same('value inside forward mode', z1, want)
      self.same('value inside reverse mode', z2, want)
      if prog.smooth:
        for what, p, q in (('forward mode under jit', kt, jt), ('reverse mode under jit', vj, uj)):
          self.same(what, p, q, scale=max([1.0] + [float(np.max(np.abs(v))) for v in flat(q) if v.size]))
    self.same('value inside forward mode', y1, want)
    self.same('value inside reverse mode', y2, want)
    if not prog.smooth:
      return
    for v in flat(jt) + flat(uj):
      mon.finite(self.label('derivatives are finite'), v)
    a, b = dot(jt, u), dot(t, uj)
    scale = max(1.0, size(jt, u), size(t, uj))
    mon.close(self.label('forward and reverse mode agree'), a, b, 500 * env.eps, scale=scale)
    # Vectorised derivatives equal those of single samples.
    sc = max([1.0] + [float(np.max(np.abs(v))) for v in flat(single1) if v.size])
    self.same('vmap of forward mode', tmap(lambda v: v[1], many1), single1, scale=sc)
    sc = max([1.0] + [float(np.max(np.abs(v))) for v in flat(single2) if v.size])
    self.same('vmap of reverse mode', tmap(lambda v: v[0], many2), single2, scale=sc)
    self.differences(g, x, t, u)
    if prog.second and (env.thorough or rng.random() < 0.5):
      self.second(g, x, t, u)

  def differences(self, g, x, t, u):
    """Central differences at two step sizes; only converged ones are an oracle."""
    if not self.env.x64:
      return
    f = jax.jit(lambda h: [v for v in g(*tmap(lambda a, b: a + h * b, x, list(t)))])
    d = self.mon.call(self.label('forward mode'), jax.jit(lambda h: jax.jvp(lambda h: g(*tmap(lambda a, b: a + h * b, x, list(t))),
                                                                             (h,), (jnp.ones_like(h),))[1]), jnp.asarray(0.0))
    at = lambda h: [np.asarray(v) for v in f(jnp.asarray(h))]
    for what, h, tol in (('finite differences', 1e-4, 1e-6), ('response to tiny changes', 1e-10, 1e-3)):
      p, m, p2, m2 = at(h), at(-h), at(2 * h), at(-2 * h)
      for i, v in enumerate(flat(d)):
        if not v.size:
          continue
        d1, d2 = (p[i] - m[i]) / (2 * h), (p2[i] - m2[i]) / (4 * h)
        scale = max(1.0, float(np.max(np.abs(v))), float(np.max(np.abs(p[i]))))
        best = (4 * d1 - d2) / 3
        if what == 'finite differences' and np.max(np.abs(d1 - d2)) > 1e-4 * scale:
          continue  # not in the asymptotic regime (next to a kink)
        self.mon.close(self.label(what), v, best, tol, scale=scale)

  def second(self, g, x, t, u):
    mon, env = self.mon, self.env
    s = lambda *x: sum(jnp.sum(a * b * (1 + a)) for a, b in zip(g(*x), u))
    n = tuple(range(len(x)))
    grad = jax.grad(s, argnums=n)
    ft = tuple(t)
    forward_over_reverse = lambda x: list(jax.jvp(grad, tuple(x), ft)[1])
    pair = lambda *x: sum(jnp.vdot(a, b) for a, b in zip(jax.tree_util.tree_leaves(grad(*x)), jax.tree_util.tree_leaves(ft)))
    reverse_over_reverse = lambda x: list(jax.grad(pair, argnums=n)(*x))
    reverse_over_forward = lambda x: list(jax.grad(lambda *x: jax.jvp(s, x, ft)[1], argnums=n)(*x))
    h = mon.call(self.label('second derivatives'), jax.jit(lambda x: [f(x) for f in (
        forward_over_reverse, reverse_over_reverse, reverse_over_forward)]), x)
    if not all(np.all(np.isfinite(v)) for v in flat(h)):
      for v in flat(h):
        mon.finite(self.label('second derivatives are finite'), v)
      return
    sc = max([1.0] + [float(np.max(np.abs(v))) for v in flat(h) if v.size])
    self.same('second derivatives: reverse over reverse', h[1], h[0], tol=3000, scale=sc)
    self.same('second derivatives: reverse over forward', h[2], h[0], tol=3000, scale=sc)


def observe(mon, env, prog):
  rng = env.rng
  mon.begin(program=prog.name, config=prog.config)
  o = Observer(mon, env, prog)
  values = dict(eager=o.value, jit=o.jit, some=o.partial_jit, nojit=o.no_jit, leaks=o.leaks, remat=o.remat, scan=o.loop, cond=o.branch)
  names = list(values)
  if not prog.traceable:
    names = ['eager', 'nojit']
  if not prog.args:
    names = [n for n in names if n != 'remat']
  chance = dict(eager=1, jit=0.7, nojit=0.04, leaks=0.2, cond=0.25, scan=0.25)
  names = [n for n in names if rng.random() < chance.get(n, 0.35) or (env.thorough and rng.random() < 0.6)]
  # The first observation in this process may be of any kind: tables are then
  # generated inside the transformation.
  got = {}
  parts = []
  for k in rng.permutation(len(names)):
    n = names[k]
    v = mon.section(prog.name + ' ' + n, values[n])
    if v is not None:
      got[n] = v
  if 'eager' not in got:
    return
  want = got['eager']
  for n, v in got.items():
    if n != 'eager':
      o.same(n, v, want)
  parts = [o.batches, functools.partial(o.derivatives, want), functools.partial(o.precision, want)]
  if prog.traceable:
    parts.append(functools.partial(o.shapes, want))
  for k in rng.permutation(len(parts)):
    mon.section(prog.name, parts[k])
  # Nothing of the above left traces behind: the same call gives the same bits.
  again = mon.call(o.label('eager'), prog.fn, *o.args)
  mon.expect(o.label('repeatable'), core.digest(*flat(again)) == core.digest(*flat(want)), 'a second eager call gives other values')


def run(mon, env):
  for rep in range(env.n(1, 12)):
    progs = catalogue.programs(env.rng, 3)
    mine = [p for i, p in enumerate(progs) if env.mine(i + env.seed + rep) and (
        env.thorough or not p.name.endswith(' init') or env.rng.random() < 0.25)]
    for i in env.rng.permutation(len(mine)):
      if not mon.time_left():
        return
      mon.section('program', observe, mon, env, mine[i])
    jax.clear_caches()
