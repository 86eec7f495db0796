"""P04: elementwise enclosures are sound, and sharp where promised."""
import functools
import math

import numpy as np
from lib import mpm
from lib import mpnp
from lib import progen
from lib import truth
from lib.runner import SutError

PROPERTY = 'P04'
TECHNIQUE = ('runtime monitoring: the real enclosure code run on 120-digit '
             'numbers and on float64, against independent mpmath oracles for '
             'soundness and sharpness')
RULE = ('A case is one elementwise function, exponent and degree, with 10 '
        'regions (ends at, near and far from extrema, zero and the reference '
        'point; tiny, zero-width and huge); non-trivial if each region was '
        'judged for soundness at 11 or more points and for sharpness; distinct '
        'by function, degree and regions.')
ASSUMPTIONS = ['mpmath evaluates exp and log correctly']
REQUIRE = {'points': 8000, 'sharp_regions': 300, 'range_regions': 60,
           'float64_points': 8000}

mp, mpf = mpm.mp, mpm.mpf
TOP = {'abs': 1, 'exp': 8, 'log': 8, 'sigmoid': 4, 'softplus': 5, 'swish': 4,
       'pow': 7}


def setup():
  mpnp.setup()


def _enclosure(name, p):
  from autobound import primitive_enclosures as pe
  if name == 'pow':
    return functools.partial(pe.pow_enclosure, p)
  return getattr(pe, name + '_enclosure')


def _regions(rng, name, degree, p, n):
  """n hostile (x0, a, b) with x0 in [a, b]."""
  out = []
  special = [0.]
  if name in ('sigmoid', 'softplus', 'swish'):
    special += [float(x) for k in (degree, degree + 1)
                for x, _ in truth.extrema(name, k)]
  positive = name == 'log' or (name == 'pow' and p != int(p))
  while len(out) < n:
    kind = str(rng.choice(['plain', 'special', 'special2', 'tiny', 'left',
                           'right', 'point', 'far', 'wide', 'sym', 'lop']))
    if name == 'pow' and p < 0 and rng.uniform() < .4:
      kind = 'special2'
    c = float(np.round(rng.normal() * 2, int(rng.integers(0, 5))))
    ha, hb = rng.uniform(.01, 2, 2)
    if kind == 'special':
      c = float(rng.choice(special)) + float(rng.choice([0., 0., 1e-3, -1e-3]))
      if rng.uniform() < .5:
        ha = 0.
      if rng.uniform() < .3:
        hb = 0.
    elif kind == 'special2':
      s = float(rng.choice(special))
      a, b = s - rng.uniform(0, 2), s + rng.uniform(0, 2)
      c = rng.uniform(a, b)
      r = rng.uniform() * (.6 if name == 'pow' and p < 0 else 1.)
      if r < .25:
        a = s
        c = max(c, s)
      elif r < .5:
        b = s
        c = min(c, s)
      ha, hb = c - a, b - c
    elif kind == 'tiny':
      ha, hb = 10. ** rng.uniform(-8, -2, 2)
    elif kind == 'left':
      hb = 0.
    elif kind == 'right':
      ha = 0.
    elif kind == 'point':
      ha = hb = 0.
    elif kind == 'far':
      c = float(rng.choice([-1, 1]) * 10. ** rng.uniform(.5, 2))
      if name == 'exp' and c > 30:
        continue
    elif kind == 'wide':
      ha, hb = rng.uniform(2, 15, 2)
      if name == 'exp':
        ha, hb = ha / 2, hb / 2
    elif kind == 'sym':
      ha = hb
    elif kind == 'lop':
      ha, hb = 10. ** rng.uniform(-4, 1, 2)
    x0, a, b = c, c - ha, c + hb
    if kind == 'special2':
      # (c + (b - c) need not be b.)
      a, b = [s if abs(v - s) < 1e-12 else v for v in (a, b)]
    if positive:
      if kind in ('special', 'special2') and name == 'pow' and p > 0 and (
          rng.uniform() < .5):
        a, b = 0., abs(b) + .1
        x0 = float(rng.uniform(a + .05, b))
      elif a <= 0:
        lo = float(rng.choice([1e-6, .01, .3]))
        x0, a, b = x0 - a + lo, lo, b - a + lo
    if name == 'pow' and p < 0 and x0 == 0:
      continue
    if name == 'pow' and max(abs(a), abs(b)) > 50:
      continue
    a, b = min(a, x0), max(b, x0)
    if not (math.isfinite(a) and math.isfinite(b)):
      continue
    out.append((float(x0), float(a), float(b)))
  return out


def _f(name, p):
  return lambda x: truth.deriv(name, 0, x, p)


def case_function(ctx):
  rng = ctx.rng
  names = ['pow', 'softplus', 'swish', 'sigmoid', 'exp', 'pow', 'log', 'pow',
           'abs', 'softplus', 'swish', 'pow']
  name = names[ctx.index % len(names)]
  degree = int(rng.integers(0, TOP[name] + 1))
  if name == 'pow' and rng.uniform() < .3:
    degree = int(rng.integers(0, 3))
  p = None
  if name == 'pow':
    p = [int(rng.integers(-4, 9)), float(rng.choice([-.5, .5, 1 / 3, 1.5, 2.5,
                                                     -1.5, 4.5])),
         progen.real_exponent(rng, (.5, -.25, 3.3, 2.05))][int(rng.integers(3))]
    if p == int(p) and rng.uniform() < .5:
      p = float(p)
  regions = _regions(rng, name, degree, p, 10)
  ctx.describe(f'{name}{"" if p is None else p} degree {degree} on {regions}')
  enc = _enclosure(name, p)
  shape = [(10,), (2, 5), (5, 2), (10, 1), (1, 10), (5, 1, 2)][
      int(rng.integers(6))]
  x0, a, b = [np.array(v).reshape(shape) for v in zip(*regions)]
  with np.errstate(all='ignore'):
    e64 = ctx.sut(enc, x0, (a, b), degree, np)
    try:
      hp_enc = enc if p is None or p == int(p) else _enclosure(
          name, mpnp.Hp(p))
      hp = ctx.sut(hp_enc, mpnp.array(x0), (mpnp.array(a), mpnp.array(b)), degree,
                   mpnp.hp_np)
    except SutError:
      # The high-precision back end lacks something that numpy has.
      ctx.count('no_high_precision_run')
      hp = None
  for e in (e64, hp):
    if e is not None and len(e) != degree + 1:
      ctx.violation(f'{name} {p}: enclosure of degree {len(e) - 1} instead of '
                    f'{degree}')
      return
  for j, (xj, aj, bj) in enumerate(regions):
    if hp is not None and not _judge_exact(ctx, name, p, degree, xj, aj, bj,
                                           _pick(hp, j)):
      return
    if not _judge_float(ctx, name, p, degree, xj, aj, bj, _pick(e64, j)):
      return
    ctx.distinct(name, p, degree, xj, aj, bj)
  ctx.count('function.' + name)
  ctx.count(f'degree.{degree}')


def _pick(e, j):
  """Element j of each coefficient, as (lo, hi) pairs of mpf."""
  def num(c):
    c = np.asarray(c, object)
    v = c.reshape(-1)[j if c.size > 1 else 0]
    return mpnp._v(v)
  return [(num(c[0]), num(c[1])) if isinstance(c, tuple) else (num(c), num(c))
          for c in e]


def _undefined(name, p, a, b):
  """Whether the enclosure cannot be informative on [a, b]."""
  if name == 'pow':
    if p != int(p):
      return a < 0 or (a == 0 and p < 0)
    return p < 0 and a <= 0 <= b
  return name == 'log' and a <= 0


def _points(name, p, x0, a, b):
  n = 9
  pts = [mpf(a) + (mpf(b) - mpf(a)) * i / (n - 1) for i in range(n)]
  pts += [mpf(x0) + (mpf(b) - mpf(x0)) / 1000, mpf(x0) - (
      mpf(x0) - mpf(a)) / 1000, (mpf(a) + 7 * mpf(x0)) / 8]
  if a <= -x0 <= b:
    pts.append(-mpf(x0))
  if a < 0 < b:
    pts.append(mpf(0))
  return [x for x in pts if a <= x <= b]


def _where(name, p, degree, x0, a, b):
  return (f'{name}{"" if p is None else f" with exponent {p}"}, degree {degree}'
          f', x0={x0!r} on [{a!r}, {b!r}]')


def _judge_exact(ctx, name, p, degree, x0, a, b, e):
  """Judges an enclosure computed with 120 digits."""
  where = _where(name, p, degree, x0, a, b)
  lo, hi = e[-1]
  for i in range(degree):
    want = truth.deriv(name, i, x0, p) / math.factorial(i)
    if name == 'abs' and x0 == 0:
      break
    if not abs(e[i][0] - want) <= mpf(10) ** -30 * max(1, abs(want)):
      ctx.violation(f'coefficient {i} is {mp.nstr(e[i][0], 20)} instead of '
                    f'{mp.nstr(want, 20)}: {where}')
      return False
    ctx.count('exact_coefficients')
  if _undefined(name, p, a, b):
    ctx.count('undefined_regions')
    ok = (mp.isnan(lo) or lo == -mp.inf) and (mp.isnan(hi) or hi == mp.inf)
    if name == 'pow' and not ok and not _sound_where_defined(
        ctx, name, p, degree, x0, a, b, e, where):
      return False
    return True
  scale = _scale(name, p, degree, x0, a, b)
  tol = mpf(10) ** -13 * scale
  # Soundness.
  for x in _points(name, p, x0, a, b):
    ctx.count('points')
    h = x - x0
    f = truth.deriv(name, 0, x, p)
    t = mp.fsum(e[i][0] * h ** i for i in range(degree))
    u, v = sorted([lo * h ** degree, hi * h ** degree])
    s = abs(h) ** degree * tol + mpf(10) ** -60
    if not (t + u <= f + s and f <= t + v + s):
      ctx.violation(
          f'unsound at x={mp.nstr(x, 20)}: value {mp.nstr(f, 20)}, enclosure '
          f'[{mp.nstr(t + u, 20)}, {mp.nstr(t + v, 20)}]: {where}')
      return False
  # Sharpness.
  mono = truth.monotone(name, degree, a, b, p)
  even = name == 'softplus' and degree == 2
  got = (lo, hi)
  if name == 'abs' and degree == 1 and x0 == 0:
    return True
  if mono and not (name == 'abs' and degree == 0):
    r = [truth.ratio(name, degree, x0, v, p) for v in (a, b)]
    want = (min(r), max(r))
  elif even:
    r = [truth.ratio(name, degree, x0, v) for v in (a, b)]
    m = truth.ratio(name, degree, x0, min(max(-mpf(x0), mpf(a)), mpf(b)))
    want = (min(r), max(r + [m]))
  elif mono is None:
    ctx.count('too_close_to_an_extremum')
    return True
  else:
    want = None
  if want is not None:
    ctx.count('sharp_regions')
    if not (abs(got[0] - want[0]) <= tol and abs(got[1] - want[1]) <= tol):
      ctx.violation(
          f'final interval is [{mp.nstr(lo, 20)}, {mp.nstr(hi, 20)}], the sharp '
          f'one is [{mp.nstr(want[0], 20)}, {mp.nstr(want[1], 20)}]: {where}')
      return False
    return True
  ctx.count('range_regions')
  if name == 'abs':
    want = (mpf(0), max(abs(mpf(a)), abs(mpf(b))))
  else:
    want = [v / math.factorial(degree)
            for v in truth.deriv_range(name, degree, a, b, p)]
  if not (got[0] >= want[0] - tol and got[1] <= want[1] + tol):
    ctx.violation(
        f'final interval [{mp.nstr(lo, 20)}, {mp.nstr(hi, 20)}] exceeds the '
        f'range of the derivative [{mp.nstr(want[0], 20)}, '
        f'{mp.nstr(want[1], 20)}]: {where}')
    return False
  return True


def _scale(name, p, degree, x0, a, b):
  """Magnitude of the derivative over the region, divided by degree!."""
  pts = [v for v in (a, b, x0) if not (v == 0 and name == 'pow' and
                                       p != int(p))]
  m = [abs(truth.deriv(name, degree, v, p)) / math.factorial(degree)
       for v in pts]
  if name in ('sigmoid', 'softplus', 'swish'):
    m += [abs(truth.deriv(name, degree, x)) / math.factorial(degree)
          for x, _ in truth.extrema(name, degree) if a <= x <= b]
  return max(m)


def _sound_where_defined(ctx, name, p, degree, x0, a, b, e, where):
  """An informative enclosure of a function that is undefined somewhere."""
  lo, hi = e[-1]
  for x in _points(name, p, x0, a, b):
    if x == 0 or (x < 0 and p != int(p)):
      continue
    h = x - x0
    f = truth.deriv(name, 0, x, p)
    t = mp.fsum(e[i][0] * h ** i for i in range(degree))
    u, v = sorted([lo * h ** degree, hi * h ** degree])
    s = mpf(10) ** -12 * (abs(f) + abs(t))
    if t + u > f + s or f > t + v + s:
      ctx.violation(
          f'unsound at x={mp.nstr(x, 20)}: value {mp.nstr(f, 20)}, enclosure '
          f'[{mp.nstr(t + u, 20)}, {mp.nstr(t + v, 20)}]: {where}')
      return False
  return True


def _judge_float(ctx, name, p, degree, x0, a, b, e):
  """Judges soundness of an enclosure computed in float64."""
  where = _where(name, p, degree, x0, a, b)
  lo, hi = e[-1]
  if name == 'abs' and x0 == 0 and degree:
    pass
  else:
    for i in range(degree):
      want = truth.deriv(name, i, x0, p) / math.factorial(i)
      tol = mpf(10) ** -12 * max(abs(want), truth_noise(name, i, x0))
      if not abs(e[i][0] - want) <= tol + mpf(10) ** -290:
        ctx.violation(f'float64 coefficient {i} is {mp.nstr(e[i][0], 20)} '
                      f'instead of {mp.nstr(want, 20)}: {where}')
        return False
  if _undefined(name, p, a, b):
    if name == 'pow' and not (mp.isnan(lo) or mp.isnan(hi)):
      return _sound_where_defined(ctx, name, p, degree, x0, a, b, e, where)
    return True
  if mp.isnan(lo) or mp.isnan(hi):
    ctx.violation(f'final interval is [{lo}, {hi}]: {where}')
    return False
  if lo > hi + mpf(10) ** -7 * max(abs(lo), abs(hi)) and degree == 0:
    ctx.violation(f'final interval is reversed: {lo}, {hi}: {where}')
    return False
  for x in _points(name, p, x0, a, b):
    h = x - x0
    f = truth.deriv(name, 0, x, p)
    terms = [e[i][0] * h ** i for i in range(degree)]
    u, v = sorted([lo * h ** degree, hi * h ** degree])
    t = mp.fsum(terms)
    mag = mp.fsum(abs(z) for z in terms) + abs(f)
    c = _pos(truth_coef(name, p, degree, x0)) * abs(h) ** degree
    s = mpf(10) ** -13 * (mag + c)
    ctx.count('float64_points')
    if t + u > f + s or f > t + v + s:
      ctx.violation(
          f'float64 enclosure unsound at x={mp.nstr(x, 20)}: value '
          f'{mp.nstr(f, 20)}, enclosure [{mp.nstr(t + u, 20)}, '
          f'{mp.nstr(t + v, 20)}], allowed {mp.nstr(s, 5)}: {where}')
      return False
  return True


def _pos(v):
  return abs(v)


def truth_coef(name, p, degree, x0):
  if name == 'pow' and x0 == 0 and (p < degree or p != int(p)):
    return mpf(0)
  return truth.deriv(name, degree, x0, p) / math.factorial(degree)


def truth_noise(name, i, x0):
  """Size of the terms whose sum is the i-th derivative (cancellation)."""
  if name in ('sigmoid', 'softplus', 'swish'):
    s = mpm.sigmoid(x0) * mpm.sigmoid(-mpf(x0))
    return s * (1 + abs(x0)) * 4 if i else abs(mpf(x0)) * s
  return mpf(0)


KINDS = {'function': (case_function, 1200, 60000)}
