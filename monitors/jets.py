"""Truncated Taylor arithmetic in extended precision (reference derivatives)."""
import math

import numpy as np

LD = np.longdouble
N = 4  # derivatives 0..3


class Jet:
  """c[k] = k-th Taylor coefficient (f^(k)/k!)."""

  def __init__(self, c):
    self.c = [np.asarray(v, LD) for v in c]

  @staticmethod
  def var(x):
    x = np.asarray(x, LD)
    return Jet([x, np.ones_like(x)] + [np.zeros_like(x)] * (N - 2))

  @staticmethod
  def const(v, like):
    z = np.zeros_like(like.c[0])
    return Jet([z + LD(v)] + [z] * (N - 1))

  def _co(self, o):
    return o if isinstance(o, Jet) else Jet.const(o, self)

  def __add__(self, o):
    o = self._co(o)
    return Jet([a + b for a, b in zip(self.c, o.c)])
  __radd__ = __add__

  def __neg__(self):
    return Jet([-a for a in self.c])

  def __sub__(self, o):
    return self + (-self._co(o))

  def __rsub__(self, o):
    return self._co(o) - self

  def __mul__(self, o):
    if not isinstance(o, Jet):
      return Jet([a * LD(o) for a in self.c])
    return Jet([sum(self.c[i] * o.c[k - i] for i in range(k + 1)) for k in range(N)])
  __rmul__ = __mul__

  def recip(self):
    r = [1 / self.c[0]]
    for k in range(1, N):
      r.append(-sum(self.c[i] * r[k - i] for i in range(1, k + 1)) / self.c[0])
    return Jet(r)

  def __truediv__(self, o):
    if not isinstance(o, Jet):
      return self * (1 / LD(o))
    return self * o.recip()

  def __rtruediv__(self, o):
    return self._co(o) * self.recip()

  def exp(self):
    e = [np.exp(self.c[0])]
    for k in range(1, N):
      e.append(sum(i * self.c[i] * e[k - i] for i in range(1, k + 1)) / k)
    return Jet(e)

  def cossin(self):
    c, s = [np.cos(self.c[0])], [np.sin(self.c[0])]
    for k in range(1, N):
      c.append(-sum(i * self.c[i] * s[k - i] for i in range(1, k + 1)) / k)
      s.append(sum(i * self.c[i] * c[k - i] for i in range(1, k + 1)) / k)
    return Jet(c), Jet(s)

  def power(self, n):
    """Integer power n >= 0 by repeated multiplication."""
    r, b = Jet.const(1, self), self
    while n:
      if n & 1:
        r = r * b
      b = b * b
      n >>= 1
    return r

  def where(self, cond, o):
    o = self._co(o)
    return Jet([np.where(cond, a, b) for a, b in zip(self.c, o.c)])

  def d(self, k):
    return self.c[k] * math.factorial(k)


def stack(js):
  return Jet([np.stack([j.c[k] for j in js], axis=-1) for k in range(N)])


# --------------------------------------------------------- documented functions
def reciprocal(x, kind):
  if kind == 'shifted':
    return 1 / (x + 1)
  if kind == 'cuspless':
    return 1 / (x + (-x).exp())
  small = x.c[0] < 0.5
  s = Jet.const(0, x)
  xs = x.where(small, 0)
  for k in range(30, -1, -1):  # (1-exp(-x))/x = sum (-x)^k/(k+1)!
    s = s * (-xs) + LD(1) / LD(math.factorial(k + 1))
  xl = x.where(~small, 1)
  return s.where(small, (1 - (-xl).exp()) / xl)


def exponential(x, gamma, cuspless):
  if cuspless:
    # x + exp(-x) - 1 without cancellation for small x
    small = x.c[0] < 0.5
    xs = x.where(small, 0)
    s = Jet.const(0, x)
    for k in range(32, 1, -1):
      s = s * (-xs) + LD(1) / LD(math.factorial(k))
    s = s * xs * xs
    x = s.where(small, x + (-x).exp() - 1)
  return (x * (-LD(gamma))).exp()


def one_minus(f, *args):
  return 1 - f(*args)


def bernstein(u, num):
  n = num - 1
  inside = (u.c[0] >= 0) & (u.c[0] <= 1)
  v = u.where(inside, np.where(u.c[0] < 0, LD(0), LD(1))) if not np.all(inside) else u
  if not np.all(inside):
    v = Jet([np.where(inside, a, np.where(k == 0, np.clip(u.c[0], 0, 1), 0)) for k, a in enumerate(u.c)])
  pu, pw = [Jet.const(1, v)], [Jet.const(1, v)]
  w = 1 - v
  for _ in range(n):
    pu.append(pu[-1] * v)
    pw.append(pw[-1] * w)
  return stack([pu[k] * pw[n - k] * LD(math.comb(n, k)) for k in range(num)])


def chebyshev(t, num):
  ts = [Jet.const(1, t), t]
  for _ in range(num - 2):
    ts.append(t * 2 * ts[-1] - ts[-2])
  return stack(ts[:num])


def fourier(u, num):
  return stack([(u * (LD(k) * PI)).cossin()[0]
                for k in range(num)])


def gaussian(u, num):
  g = np.sqrt(LD(2 * num)) * (num - 1)
  out = []
  for k in range(num):
    m = u - (LD(k) / LD(num - 1) if num > 1 else LD(0))
    out.append((m * m * (-g)).exp())
  return stack(out)


PI = LD('3.14159265358979323846264338327950288')


def sinc(u, num):
  """sin(pi k u)/(pi k u), k = 1..num, 0 beyond 1."""
  out = []
  for k in range(1, num + 1):
    z = u * (PI * k)
    small = np.abs(z.c[0]) < 0.5
    zs = z.where(small, 0)
    q = zs * zs
    s = Jet.const(0, z)
    for j in range(15, -1, -1):
      s = s * q + LD((-1) ** j) / LD(math.factorial(2 * j + 1))
    zl = z.where(~small, 1)
    v = s.where(small, zl.cossin()[1] / zl)
    out.append(v.where(u.c[0] <= 1, 0))
  return stack(out)
