"""P08: polynomial evaluation, products and powers are exact."""
import fractions
import math

import numpy as np
from lib import tb

PROPERTY = 'P08'
TECHNIQUE = ('runtime monitoring: the real polynomial routines run over exact '
             'rings (rationals, residues, matrices, skew and divided-power '
             'bases) and intervals, against direct expansion term by term')
RULE = ('A case is one operation on random polynomials of 1 to 7 coefficients '
        'over one ring or interval arithmetic; non-trivial if at least two '
        'coefficients are nonzero; distinct by operation, ring and operands.')
ASSUMPTIONS = ['Python integers and fractions are exact']
REQUIRE = {'exact_results': 4000, 'interval_members': 30000}

F = fractions.Fraction


def setup():
  tb.setup_jax()


def _p():
  from autobound import polynomials
  return polynomials


# Rings: (random element, add, mul, zero, one, equality, is commutative)


class Mat:
  """2x2 integer matrix (not commutative)."""

  def __init__(self, v):
    self.v = tuple(v)

  def __add__(self, o):
    return Mat(a + b for a, b in zip(self.v, o.v))

  def __mul__(self, o):
    a, b, c, d = self.v
    e, f, g, h = o.v
    return Mat((a * e + b * g, a * f + b * h, c * e + d * g, c * f + d * h))

  def __eq__(self, o):
    return isinstance(o, Mat) and self.v == o.v

  def __hash__(self):
    return hash(self.v)

  def __repr__(self):
    return f'Mat{self.v}'


def _rings(rng):
  k = int(rng.integers(5))
  if k == 0:
    return ('integers', lambda: int(rng.integers(-9, 10)), lambda a, b: a + b,
            lambda a, b: a * b, 0, 1, True)
  if k == 1:
    return ('rationals', lambda: F(int(rng.integers(-9, 10)),
                                   int(rng.integers(1, 8))),
            lambda a, b: a + b, lambda a, b: a * b, F(0), F(1), True)
  if k == 2:
    m = int(rng.integers(2, 30))
    return (f'integers modulo {m}', lambda: int(rng.integers(m)),
            lambda a, b: (a + b) % m, lambda a, b: a * b % m, 0, 1 % m, True)
  if k == 3:
    # Tropical semiring.
    inf = math.inf
    return ('tropical', lambda: int(rng.integers(-9, 10)), min,
            lambda a, b: a + b, inf, 0, True)
  return ('matrices', lambda: Mat(int(v) for v in rng.integers(-4, 5, 4)),
          lambda a, b: a + b, lambda a, b: a * b, Mat((0,) * 4),
          Mat((1, 0, 0, 1)), False)


def _pow(mul, one, z, n):
  out = one
  for _ in range(n):
    out = mul(out, z)
  return out


def _times(add, zero, n, c):
  out = zero
  for _ in range(n):
    out = add(out, c)
  return out


def _poly(rng, draw, zero, n):
  return [zero if rng.uniform() < .2 else draw() for _ in range(n)]


def case_exact(ctx):
  rng = ctx.rng
  poly = _p()
  name, draw, add, mul, zero, one, commutative = _rings(rng)
  n, m = int(rng.integers(1, 8)), int(rng.integers(1, 8))
  a, b = _poly(rng, draw, zero, n), _poly(rng, draw, zero, m)
  if rng.uniform() < .5:
    a, b = tuple(a), tuple(b)
  z = draw()
  ctx.describe(f'{name}: {a}, {b} at {z}')

  # Evaluation.
  power = lambda x, i: _pow(mul, one, x, i)
  want = zero
  for i, c in enumerate(a):
    want = add(want, mul(c, power(z, i)))
  got = ctx.sut(poly.eval_polynomial, a, z, mul, power, add, zero, one)
  ctx.count('exact_results')
  if got != want:
    ctx.violation(f'{name}: value of {a} at {z} is {got}, not {want}')
    return
  if name in ('integers', 'rationals'):
    got = ctx.sut(poly.eval_polynomial, a, z, lambda x, y: x * y,
                  lambda x, i: x ** i)
    if got != want:
      ctx.violation(f'{name}: value of {a} at {z} is {got}, not {want}')
      return

  # Product under a bilinear operation; z commutes with coefficients.
  want = [zero] * (n + m - 1)
  for i in range(n):
    for j in range(m):
      want[i + j] = add(want[i + j], mul(a[i], b[j]))
  got = ctx.sut(poly.arbitrary_bilinear, a, b, add, zero,
                lambda x, y, i, j: mul(x, y))
  ctx.count('exact_results')
  if list(got) != want:
    ctx.violation(f'{name}: product of {a} and {b} is {got}, not {want}')
    return
  if name in ('integers', 'rationals'):
    got = ctx.sut(poly.arbitrary_bilinear, a, b)
    if list(got) != want:
      ctx.violation(f'{name}: product of {a} and {b} is {got}, not {want}')
      return

  # Powers.
  if commutative:
    k = int(rng.integers(0, 6)) if n > 1 else int(rng.integers(0, 9))
    c = a[:4] if k > 3 else a
    want = [one]
    for _ in range(k):
      nxt = [zero] * (len(want) + len(c) - 1)
      for i, x in enumerate(want):
        for j, y in enumerate(c):
          nxt[i + j] = add(nxt[i + j], mul(x, y))
      want = nxt
    got = ctx.sut(
        poly.integer_power, c, k, add, zero, one,
        lambda x, y, i, j: mul(x, y),
        lambda x, i, j: _pow(mul, one, x, j),
        lambda s, x: _times(add, zero, s, x))
    ctx.count('exact_results')
    if list(got) != want:
      ctx.violation(f'{name}: {c} to the power {k} is {got}, not {want}')
      return
    if name in ('integers', 'rationals'):
      got = ctx.sut(poly.integer_power, c, k)
      if list(got) != want:
        ctx.violation(f'{name}: {c} to the power {k} is {got}, not {want}')
        return
  if sum(x != zero for x in a) > 1:
    ctx.distinct(name, repr(a), repr(b), repr(z))


def case_bases(ctx):
  """Operations whose coefficient rule depends on the degrees of the terms."""
  rng = ctx.rng
  poly = _p()
  n, m = int(rng.integers(1, 7)), int(rng.integers(1, 7))
  kind = int(rng.integers(3))
  if kind == 0:
    # Skew polynomials over Gaussian integers: z c = conj(c) z.
    def draw():
      return complex(int(rng.integers(-5, 6)), int(rng.integers(-5, 6)))
    a, b = [draw() for _ in range(n)], [draw() for _ in range(m)]
    def rule(x, y, i, j):
      del j
      return x * (y.conjugate() if i % 2 else y)
    want = [0j] * (n + m - 1)
    for i in range(n):
      for j in range(m):
        want[i + j] += rule(a[i], b[j], i, j)
    got = ctx.sut(poly.arbitrary_bilinear, a, b, lambda x, y: x + y, 0j, rule)
    name = 'skew product'
  elif kind == 1:
    # A bilinear operation that is not symmetric in the degrees: u * v'.
    a = [F(int(v)) for v in rng.integers(-5, 6, n)]
    b = [F(int(v)) for v in rng.integers(-5, 6, m)]
    def rule(x, y, i, j):
      return x * y * j      # the operation is u * (z v')
    want = [F(0)] * (n + m - 1)
    for i in range(n):
      for j in range(m):
        want[i + j] += a[i] * b[j] * j
    got = ctx.sut(poly.arbitrary_bilinear, a, b, lambda x, y: x + y, F(0), rule)
    name = 'product with z times the derivative'
  else:
    # Divided powers: the basis is z**i / i!.
    k = int(rng.integers(0, 6))
    a = [F(int(v), int(w)) for v, w in zip(rng.integers(-5, 6, min(n, 4)),
                                           rng.integers(1, 5, min(n, 4)))]
    f = math.factorial
    want = [F(1)]
    plain = [c / f(i) for i, c in enumerate(a)]
    for _ in range(k):
      nxt = [F(0)] * (len(want) + len(a) - 1)
      for i, x in enumerate(want):
        for j, y in enumerate(plain):
          nxt[i + j] += x * y
      want = nxt
    want = [c * f(i) for i, c in enumerate(want)]
    got = ctx.sut(
        poly.integer_power, a, k, lambda x, y: x + y, F(0), F(1),
        lambda x, y, i, j: x * y * f(i + j) / (f(i) * f(j)),
        lambda x, i, j: x ** j * f(i * j) / F(f(i)) ** j,
        lambda s, x: s * x)
    name = f'divided powers, exponent {k}'
    b = ()
  ctx.count('exact_results')
  ctx.describe(f'{name}: {a}, {b}')
  if list(got) != want:
    ctx.violation(f'{name} of {a} and {b} is {got}, not {want}')
    return
  ctx.distinct(name, repr(a), repr(b))


def _expand(p, k, mod=None):
  want = [1]
  for _ in range(k):
    nxt = [0] * (len(want) + len(p) - 1)
    for i, x in enumerate(want):
      for j, y in enumerate(p):
        nxt[i + j] += x * y
    want = nxt if mod is None else [v % mod for v in nxt]
  return want


def case_large(ctx):
  """Large exponents, and polynomials with many terms."""
  rng = ctx.rng
  poly = _p()
  kind = int(rng.integers(4))
  small = lambda n: [int(v) for v in rng.integers(-3, 4, n)]
  name = 'integers'
  if kind == 0:
    a, k = [int(v) for v in rng.choice([-2, -1, 1, 2, 3], 2)], int(
        rng.integers(9, 70))
  elif kind == 1:
    a, k = small(3), int(rng.integers(6, 22))
  elif kind == 2:
    a, k = small(int(rng.integers(4, 7))), int(rng.integers(4, 8))
  else:
    a, k = small(int(rng.integers(8, 40))), 2
    if rng.uniform() < .5:
      a = [c if rng.uniform() < .3 else 0 for c in a]
  mod = int(rng.integers(2, 10**9)) if rng.uniform() < .3 else None
  if rng.uniform() < .3:
    # The fractions of a unit are not floats.
    name, a = 'rationals', [F(c, int(rng.integers(1, 6))) for c in a]
    mod = None
  ctx.describe(f'{a} to the power {k} modulo {mod}')
  want = _expand(a, k, mod)
  if mod is None:
    got = ctx.sut(poly.integer_power, a, k)
  else:
    got = ctx.sut(poly.integer_power, a, k, lambda x, y: (x + y) % mod, 0, 1,
                  lambda x, y, i, j: x * y % mod, lambda x, i, j: pow(x, j, mod),
                  lambda s, x: s * x % mod)
  ctx.count('exact_results')
  if list(got) != want:
    i = [u == v for u, v in zip(got, want)].index(False) if len(got) == len(
        want) else -1
    ctx.violation(f'{name} modulo {mod}: coefficient {i} of {a} to the power {k}'
                  f' is {got[i]}, not {want[i]}')
    return
  # Products and values of long polynomials.
  b = small(int(rng.integers(8, 60)))
  want = [0] * (len(a) + len(b) - 1)
  for i, x in enumerate(a):
    for j, y in enumerate(b):
      want[i + j] += x * y
  got = ctx.sut(poly.arbitrary_bilinear, a, b)
  if list(got) != want:
    ctx.violation(f'product of {a} and {b} is {got}, not {want}')
    return
  z = int(rng.integers(-9, 10))
  value = sum(c * z**i for i, c in enumerate(b))
  got = ctx.sut(poly.eval_polynomial, b, z, lambda x, y: x * y,
                lambda x, i: x ** i)
  ctx.count('exact_results', 2)
  if got != value:
    ctx.violation(f'value of {b} at {z} is {got}, not {value}')
    return
  ctx.distinct(name, repr(a), repr(b), k)


# Intervals of rationals, written here.


def _iadd(a, b):
  if isinstance(a, tuple) or isinstance(b, tuple):
    (u, v), (w, x) = _ends(a), _ends(b)
    return (u + w, v + x)
  return a + b


def _imul(a, b):
  if isinstance(a, tuple) or isinstance(b, tuple):
    c = [x * y for x in _ends(a) for y in _ends(b)]
    return (min(c), max(c))
  return a * b


def _ipow(a, k):
  if not isinstance(a, tuple):
    return a ** k
  if k == 0:
    return F(1)
  u, v = a[0] ** k, a[1] ** k
  lo, hi = min(u, v), max(u, v)
  return (min(lo, F(0)) if k % 2 else F(0), hi) if a[0] < 0 < a[1] else (lo, hi)


def _ends(x):
  return x if isinstance(x, tuple) else (x, x)


def _member(rng, x):
  if not isinstance(x, tuple):
    return x
  return x[0] + (x[1] - x[0]) * F(int(rng.integers(0, 5)), 4)


def case_interval(ctx):
  """Interval coefficients: contain all members; exact for single terms."""
  rng = ctx.rng
  poly = _p()
  def draw():
    u, v = [F(int(x), 4) for x in rng.integers(-12, 13, 2)]
    r = rng.uniform()
    if r < .35:
      return u
    if r < .5:
      return (min(abs(u), abs(v)), max(abs(u), abs(v)))
    return (min(u, v), max(u, v))
  n, m = int(rng.integers(1, 5)), int(rng.integers(1, 5))
  a, b = [draw() for _ in range(n)], [draw() for _ in range(m)]
  k = int(rng.integers(0, 5))
  ctx.describe(f'intervals: {a}, {b}, power {k}')
  prod = ctx.sut(poly.arbitrary_bilinear, a, b, _iadd, F(0),
                 lambda x, y, i, j: _imul(x, y))
  powr = ctx.sut(poly.integer_power, a, k, _iadd, F(0), F(1),
                 lambda x, y, i, j: _imul(x, y),
                 lambda x, i, j: _ipow(x, j),
                 lambda s, x: _imul(F(s), x))
  if len(prod) != n + m - 1 or len(powr) != (n - 1) * k + 1:
    ctx.violation(f'product or power of {a}, {b}, {k} has length {len(prod)}, '
                  f'{len(powr)}')
    return
  for _ in range(12):
    u, v = [_member(rng, x) for x in a], [_member(rng, x) for x in b]
    want = [F(0)] * (n + m - 1)
    for i, x in enumerate(u):
      for j, y in enumerate(v):
        want[i + j] += x * y
    wp = [F(1)]
    for _ in range(k):
      nxt = [F(0)] * (len(wp) + n - 1)
      for i, x in enumerate(wp):
        for j, y in enumerate(u):
          nxt[i + j] += x * y
      wp = nxt
    for got, w, what in ((prod, want, 'product'), (powr, wp, f'power {k}')):
      ctx.count('interval_members')
      for i, c in enumerate(got):
        lo, hi = _ends(c)
        if not lo <= w[i] <= hi:
          ctx.violation(f'{what} of {a} and {b}: coefficient {i} is {c}, which '
                        f'lacks {w[i]}, from members {u} and {v}')
          return
  # Powers of a single term have the exact range.
  j = int(rng.integers(n))
  one = [F(0)] * j + [a[j]]
  got = ctx.sut(poly.integer_power, one, k, _iadd, F(0), F(1),
                lambda x, y, i, j: _imul(x, y), lambda x, i, j: _ipow(x, j),
                lambda s, x: _imul(F(s), x))
  want = [F(0)] * (j * k) + [_ipow(a[j], k)]
  if [_ends(c) for c in got] != [_ends(c) for c in want]:
    ctx.violation(f'power {k} of {one} is {got}, not {want}')
    return
  if any(isinstance(c, tuple) for c in a):
    ctx.distinct('interval', repr(a), repr(b), k)


def _coef(rng, shape):
  def v():
    return np.asarray(rng.integers(-8, 9, shape) / 4.)
  if rng.uniform() < .5:
    x, y = v(), v()
    return np.minimum(x, y), np.maximum(x, y)
  return v()


def case_evaluate(ctx):
  """eval_taylor_enclosure and eval_elementwise_taylor_enclosure."""
  rng = ctx.rng
  poly = _p()
  xshape = [(), (1,), (2,), (3,), (2, 2), ()][int(rng.integers(6))]
  vshape = [(), (2,), (3, 1)][int(rng.integers(3))]
  n = int(rng.integers(1, 6 if np.prod(xshape) < 3 else 4))
  elementwise = ctx.index % 2 == 0
  if elementwise:
    xshape = vshape
    enc = tuple(_coef(rng, vshape) for _ in range(n))
  else:
    enc = tuple(_coef(rng, vshape + xshape * i) for i in range(n))
  pairs = [c if isinstance(c, tuple) else (c, c) for c in enc]
  u, v = [rng.integers(-6, 7, xshape) / 4. for _ in range(2)]
  z = (np.minimum(u, v), np.maximum(u, v)) if rng.uniform() < .5 else u
  if xshape == () and rng.uniform() < .3:
    z = (float(z[0]), float(z[1])) if isinstance(z, tuple) else float(z)
  what = f'{"elementwise " if elementwise else ""}enclosure {enc!r} at {z!r}'
  ctx.describe(what)
  f = (poly.eval_elementwise_taylor_enclosure if elementwise
       else poly.eval_taylor_enclosure)
  got = ctx.sut(f, enc, z, np)
  gl, gh = [np.asarray(x) for x in (got if isinstance(got, tuple)
                                    else (got, got))]
  if gl.shape != vshape or gh.shape != vshape:
    ctx.violation(f'value has shape {gl.shape}, not {vshape}: {what}')
    return
  def value(p):
    if elementwise:
      lo = hi = 0.
      for i, (a, b) in enumerate(pairs):
        q = p ** i
        lo, hi = lo + np.minimum(a * q, b * q), hi + np.maximum(a * q, b * q)
      return lo, hi
    return tb.array_bounds(pairs, p)[:2]
  if isinstance(z, tuple):
    pts = tb.sample_vector_points(rng, (z[0] + np.asarray(z[1])) / 2, z[0], z[1],
                                  8)
    if np.all(np.asarray(z[0]) <= 0) and np.all(np.asarray(z[1]) >= 0):
      pts.append(np.zeros(xshape))
  else:
    pts = [np.asarray(z)]
  for p in pts:
    lo, hi = value(np.asarray(p))
    ctx.count('interval_members')
    s = 1e-12 * (1 + np.abs(lo) + np.abs(hi) + np.abs(gl) + np.abs(gh))
    bad = (gl > lo + s) | (gh < hi - s)
    if not isinstance(z, tuple):
      bad = bad | (np.abs(gl - lo) > s) | (np.abs(gh - hi) > s)
    if np.any(bad):
      ctx.violation(f'value is [{gl.tolist()}, {gh.tolist()}], but at '
                    f'{np.asarray(p).tolist()} it is [{np.asarray(lo).tolist()}, '
                    f'{np.asarray(hi).tolist()}]: {what}')
      return
  if not isinstance(z, tuple) and not any(isinstance(c, tuple) for c in enc):
    if isinstance(got, tuple):
      ctx.violation(f'an interval for arrays only: {what}')
      return
    ctx.count('exact_results')
  if n > 1:
    ctx.distinct(what)


KINDS = {'exact': (case_exact, 2000, 100000),
         'bases': (case_bases, 1500, 60000),
         'large': (case_large, 400, 12000),
         'interval': (case_interval, 1200, 60000),
         'evaluate': (case_evaluate, 1600, 60000)}
