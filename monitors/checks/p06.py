"""P06: quadrature grids."""
import math

import numpy as np
from scipy.special import eval_legendre

import e3x

# Published grids: (precision, number of points).
LEBEDEV = dict(zip(
    [3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 25, 27, 29, 31, 35, 41, 47, 53, 59,
     65, 71, 77, 83, 89, 95, 101, 107, 113, 119, 125, 131],
    [6, 14, 26, 38, 50, 74, 86, 110, 146, 170, 194, 230, 266, 302, 350, 434, 590,
     770, 974, 1202, 1454, 1730, 2030, 2354, 2702, 3074, 3470, 3890, 4334, 4802,
     5294, 5810]))
DELLEY = dict(zip(
    [5, 7, 11, 17, 23, 29, 35, 41, 47, 53, 59, 65, 71, 77, 83, 89, 95, 101],
    [14, 26, 50, 110, 194, 302, 434, 590, 770, 974, 1202, 1454, 1730, 2030, 2354,
     2702, 3074, 3470]))
GRIDS = (('lebedev', LEBEDEV, lambda **k: e3x.so3.lebedev_quadrature(**k)),
         ('delley', DELLEY, lambda **k: e3x.so3.delley_quadrature(**k)))


def integrate(mon, env, name, fn, p, num):
  rng = env.rng
  mon.begin(what='grid', kind=name, precision=p)
  r, w = mon.call('grid', fn, precision=p)
  mon.expect('number of points', r.shape == (num, 3) and w.shape == (num,),
             'shapes %s %s' % (r.shape, w.shape))
  r, w = np.asarray(r, np.float64), np.asarray(w, np.float64)
  base = 2e-12 if env.x64 else 4 * env.eps
  mon.close('unit vectors', np.sum(r * r, -1), np.ones(len(r)), base, scale=1.0)
  mon.close('weights sum to one', w.sum(), 1.0, base * (1 if env.x64 else 20), scale=1.0)
  # In float32 the stored points are rounded: use directions of rounded points
  # and the resulting perturbation bound.
  n = env.n(3, 12)
  dirs = rng.normal(size=(n, 3))
  dirs = np.concatenate([dirs, np.eye(3), [[1, 1, 1], [1, 1, 0]]])
  dirs /= np.linalg.norm(dirs, axis=-1, keepdims=True)
  c = np.clip(r @ dirs.T, -1, 1)
  worst = 0.0
  for k in range(1, p + 1):
    v = w @ eval_legendre(k, c)
    tol = base * (1 + k) ** (1.0 if env.x64 else 1.5) * 4
    mon.close('harmonics integrate to zero', v, np.zeros(len(dirs)), tol, scale=1.0,
              msg='degree %d' % k)
    worst = max(worst, float(np.max(np.abs(v))))
  v = w @ eval_legendre(p + 1, c)
  if np.max(np.abs(v)) < 1e-9 and env.x64:
    mon.notes.append('%s %d also integrates degree %d' % (name, p, p + 1))
  # random monomials x^i y^j z^k of total degree <= p
  for _ in range(env.n(20, 200)):
    d = int(rng.integers(0, p + 1))
    i = int(rng.integers(0, d + 1))
    j = int(rng.integers(0, d - i + 1))
    e = (i, j, d - i - j)
    got = w @ (r[:, 0] ** e[0] * r[:, 1] ** e[1] * r[:, 2] ** e[2])
    want = 0.0
    if all(q % 2 == 0 for q in e):
      lg = math.lgamma
      want = math.exp(sum(lg((q + 1) / 2) for q in e) - lg((sum(e) + 3) / 2)) / (2 * math.pi)
    mon.close('monomials', got, want, base * (1 + d), scale=1.0, msg=str(e))


def selection(mon, env, name, table, fn, lo, hi):
  ps = sorted(table)
  ns = sorted(table.values())
  by_num = {v: k for k, v in table.items()}
  for kind, value in zip(lo, hi):
    mon.begin(what='selection', kind=name, by=kind, value=value)
    r, w = mon.call('select', fn, **{kind: value})
    if kind == 'precision':
      fit = [p for p in ps if p >= value]
      want = table[fit[0]] if fit else table[ps[-1]]
    else:
      fit = [n for n in ns if n <= value]
      want = fit[-1] if fit else ns[0]
    mon.expect('selection', len(w) == want and r.shape == (want, 3),
               '%s=%s gave %d points, expected %d (precision %s)' % (
                   kind, value, len(w), want, by_num[want]))


def run(mon, env):
  i = 0
  for name, table, fn in GRIDS:
    for p, num in table.items():
      i += 1
      if not env.mine(i):
        continue
      if env.thorough or num <= 2100 or (env.x64 and i % 3 == 0) or p == max(table):
        mon.section('integrate', integrate, mon, env, name, fn, p, num)
    ps, ns = sorted(table), sorted(table.values())
    req = []
    for p in ps:
      req += [('precision', p + d) for d in (-1, 0, 1)]
    for n in ns:
      req += [('num', n + d) for d in (-1, 0, 1)]
    req += [('precision', v) for v in (0, 1, 2, -5, 1000)] + [
        ('num', v) for v in (0, 1, 5, 10 ** 6)]
    req += [('precision', int(v)) for v in env.rng.integers(0, 140, size=10)]
    req += [('num', int(v)) for v in env.rng.integers(0, 6000, size=10)]
    req = [q for k, q in enumerate(req) if env.mine(k)]
    mon.section('selection', selection, mon, env, name, table, fn,
                [q[0] for q in req], [q[1] for q in req])
    mon.begin(what='both or neither', kind=name)
    mon.raises('both', (ValueError,), fn, precision=5, num=50)
    mon.raises('neither', (ValueError,), fn)
