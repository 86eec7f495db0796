"""The elementwise functions, independently: derivatives, extrema, ranges.

Everything is computed with mpmath from definitions: derivatives of the
sigmoid are polynomials in s = sigmoid(x) (P_0 = s, P_{k+1} = P_k' s (1-s)).
"""
import functools
import math

from lib import mpm

mp, mpf = mpm.mp, mpm.mpf


@functools.lru_cache(None)
def sigmoid_poly(k):
  """Integer coefficients of the k-th derivative of sigmoid, in s."""
  p = [0, 1]
  for _ in range(k):
    d = [i * c for i, c in enumerate(p)][1:]
    q = [0] * (len(d) + 2)
    for i, c in enumerate(d):
      q[i + 1] += c
      q[i + 2] -= c
    p = q
  return tuple(p)


def _poly_at(p, s):
  r = mpf(0)
  for c in reversed(p):
    r = r * s + c
  return r


def sigmoid_deriv(k, x):
  x = mpf(x)
  if x > 0 and k > 0:
    # sigmoid^(k)(-x) = (-1)^(k+1) sigmoid^(k)(x): no cancellation for x < 0.
    return (-1) ** (k + 1) * sigmoid_deriv(k, -x)
  return _poly_at(sigmoid_poly(k), mpm.sigmoid(x))


def deriv(name, k, x, p=None):
  """k-th derivative of the named function at x (mpf)."""
  x = mpf(x)
  if name == 'exp':
    return mp.exp(x)
  if name == 'log':
    if k == 0:
      return mp.log(x)
    return (-1) ** (k - 1) * mp.factorial(k - 1) / x ** k
  if name == 'sigmoid':
    return sigmoid_deriv(k, x)
  if name == 'softplus':
    return mpm.softplus(x) if k == 0 else sigmoid_deriv(k - 1, x)
  if name == 'swish':
    if k == 0:
      return mpm.swish(x)
    return k * sigmoid_deriv(k - 1, x) + x * sigmoid_deriv(k, x)
  if name == 'abs':
    return abs(x) if k == 0 else (mp.sign(x) if k == 1 else mpf(0))
  if name == 'pow':
    p = mpf(p)
    c = mpf(1)
    for i in range(k):
      c *= p - i
    if c == 0:
      return mpf(0)
    e = p - k
    if e == int(e):
      return c * x ** int(e)
    return c * x ** e
  raise ValueError(name)


@functools.lru_cache(None)
def extrema(name, k):
  """[(x, 'min' or 'max')] of the k-th derivative, sorted."""
  if name in ('exp', 'log'):
    return ()
  if name == 'abs':
    return ((mpf(0), 'min'),) if k == 0 else ()
  if name == 'sigmoid':
    return extrema('softplus', k + 1)
  if name == 'pow':
    raise ValueError
  f = lambda x: deriv(name, k + 1, x)
  xs = [mpf(i) / 16 for i in range(-16 * 40, 16 * 40 + 1)]
  # An irregular offset, so that no zero (e.g. 0) is hit exactly.
  xs = [x + mpf('0.0123456789') for x in xs]
  out = []
  fa = f(xs[0])
  for a, b in zip(xs, xs[1:]):
    fb = f(b)
    if fa * fb < 0:
      r = mp.findroot(f, (a, b), solver='anderson', tol=mpf(10) ** -60)
      if abs(r) < mpf(10) ** -30:
        r = mpf(0)
      out.append((r, 'max' if fa > 0 else 'min'))
    fa = fb
  return tuple(out)


def deriv_range(name, k, a, b, p=None):
  """Exact range of the k-th derivative over [a, b]."""
  pts = [mpf(a), mpf(b)]
  if name == 'pow':
    if a < 0 < b:
      pts.append(mpf(0))
  else:
    pts += [x for x, _ in extrema(name, k) if a < x < b]
  vals = [deriv(name, k, x, p) for x in pts]
  return min(vals), max(vals)


def monotone(name, k, a, b, p=None):
  """Whether the k-th derivative is monotone over [a, b]; None if too close."""
  if name == 'pow':
    if a >= 0 or b <= 0:
      return True
    if p == int(p) and 0 <= p:
      return p <= k or (p - k) % 2 == 1
    return False
  near = [x for x, _ in extrema(name, k)
          if min(abs(x - a), abs(x - b)) < mpf(10) ** -9]
  if near:
    return None
  return not any(a < x < b for x, _ in extrema(name, k))


def ratio(name, k, x0, x, p=None):
  """R_{k-1}(x; f, x0) / (x-x0)^k."""
  x0, x = mpf(x0), mpf(x)
  if x == x0:
    return deriv(name, k, x0, p) / math.factorial(k)
  r = deriv(name, 0, x, p)
  for i in range(k):
    r -= deriv(name, i, x0, p) / math.factorial(i) * (x - x0) ** i
  return r / (x - x0) ** k
