"""Truncated power series over mpmath numbers: the oracle for derivatives.

A series is a list c of length n: sum_i c[i] t^i + O(t^n).
"""
from lib import mpm
from lib.mpm import mp, mpf


def const(v, n):
  return [mpf(v)] + [mpf(0)] * (n - 1)


def var(v, n):
  c = const(v, n)
  if n > 1:
    c[1] = mpf(1)
  return c


def add(a, b):
  return [x + y for x, y in zip(a, b)]


def sub(a, b):
  return [x - y for x, y in zip(a, b)]


def neg(a):
  return [-x for x in a]


def scale(k, a):
  return [k * x for x in a]


def mul(a, b):
  n = len(a)
  return [mp.fsum(a[j] * b[i - j] for j in range(i + 1)) for i in range(n)]


def div(a, b):
  n = len(a)
  c = []
  for i in range(n):
    c.append((a[i] - mp.fsum(c[j] * b[i - j] for j in range(i))) / b[0])
  return c


def exp(a):
  n = len(a)
  c = [mp.exp(a[0])]
  for i in range(1, n):
    c.append(mp.fsum(k * a[k] * c[i - k] for k in range(1, i + 1)) / i)
  return c


def log(a):
  n = len(a)
  c = [mp.log(a[0])]
  for i in range(1, n):
    s = mp.fsum(k * c[k] * a[i - k] for k in range(1, i))
    c.append((a[i] - s / i) / a[0])
  return c


def power(a, p):
  """a**p; for a non-negative integer p, also if a[0] is zero."""
  if p == int(p) and p >= 0:
    r = const(1, len(a))
    for _ in range(int(p)):
      r = mul(r, a)
    return r
  n = len(a)
  if p == int(p):
    return power(div(const(1, n), a), -int(p))
  p = mpf(p)
  c = [a[0] ** p]
  for i in range(1, n):
    s = mp.fsum((p * k - (i - k)) * a[k] * c[i - k] for k in range(1, i + 1))
    c.append(s / (i * a[0]))
  return c


def sigmoid(a):
  n = len(a)
  s = [mpm.sigmoid(a[0])]
  # s' = s (1 - s) a'
  for i in range(1, n):
    q = [x for x in s]
    w = [-(x) for x in q]
    w[0] += 1
    u = [mp.fsum(q[j] * w[k - j] for j in range(k + 1)) for k in range(i)]
    s.append(mp.fsum((k) * a[k] * u[i - k] for k in range(1, i + 1)) / i)
  return s


def softplus(a):
  n = len(a)
  s = sigmoid(a)
  c = [mpm.softplus(a[0])]
  for i in range(1, n):
    c.append(mp.fsum(k * a[k] * s[i - k] for k in range(1, i + 1)) / i)
  return c


def swish(a):
  return mul(a, sigmoid(a))


def sin_cos(a):
  n = len(a)
  s, c = [mp.sin(a[0])], [mp.cos(a[0])]
  for i in range(1, n):
    s_i = mp.fsum(k * a[k] * c[i - k] for k in range(1, i + 1)) / i
    c_i = -mp.fsum(k * a[k] * s[i - k] for k in range(1, i + 1)) / i
    s.append(s_i)
    c.append(c_i)
  return s, c


def tanh(a):
  # tanh(a) = 2 sigmoid(2a) - 1
  t = scale(2, sigmoid(scale(2, a)))
  t[0] -= 1
  return t


def absolute(a):
  return list(a) if a[0] > 0 else neg(a)
