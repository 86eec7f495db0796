"""P05: the table of elementwise functions."""
import math

import numpy as np
from lib import mpm
from lib import truth

PROPERTY = 'P05'
TECHNIQUE = ('runtime monitoring: table entries, derivative callables, '
             'monotone_over and get_range against mpmath oracles')
RULE = ('deriv: one function, derivative order and 40 arguments of all '
        'magnitudes; table: extrema, symmetry and monotonicity claims of one '
        'entry; region: 30 regions for one entry (ends at, next to and far '
        'from extrema, any subset of extrema inside); extremum: '
        'maximum_value/minimum_value of a user function.  All are non-trivial; '
        'distinct by entry and arguments.')
REQUIRE = {'derivative_values': 3000, 'table_entries': 15, 'regions': 4000,
           'user_function_regions': 500}
mp, mpf = mpm.mp, mpm.mpf
TOP = {'abs': 1, 'exp': 8, 'log': 8, 'sigmoid': 4, 'softplus': 5, 'swish': 4}
TABLE_TOP = {'abs': 1, 'exp': 8, 'log': 8, 'sigmoid': 4, 'softplus': 5,
             'swish': 5}
ENTRIES = [(n, k) for n in TOP for k in range(TABLE_TOP[n] + 1)]


def setup():
  mp.dps = 60
  import jax
  jax.config.update('jax_enable_x64', True)


def _id(name):
  from autobound import elementwise_functions as ef
  return getattr(ef, name.upper())


def _backend(ctx):
  import jax.numpy as jnp
  return (jnp, 'jax') if ctx.index % 4 == 3 else (np, 'numpy')


def _args(rng, name, n):
  e = rng.uniform(-4, 3, n)
  x = np.where(rng.uniform(size=n) < .5, 10. ** e, rng.uniform(0, 8, n))
  x = x * rng.choice([-1., 1.], n)
  hostile = [0., 1e-300, 1e-17, 1e-8, 30., 36.7, 40., 709., 745., 800., 1e4,
             1e17, 1e308]
  k = n // 3
  x[:k] = rng.choice(hostile, k) * rng.choice([-1., 1.], k)
  if name == 'log':
    x = np.abs(x)
    x = np.where(x == 0, 1., x)
  return x


def _noise(name, k, x):
  """Size of the terms whose sum is the k-th derivative."""
  if name in ('exp', 'log', 'abs'):
    return mpf(0)
  s = mpm.sigmoid(x) * mpm.sigmoid(-mpf(x))
  if name == 'sigmoid':
    return s if k else mpf(0)
  if name == 'softplus':
    return s if k > 1 else mpf(0)
  return (k + abs(mpf(x))) * s + (k * mpm.sigmoid(x) if k == 1 else 0)


def case_deriv(ctx):
  from autobound import elementwise_functions as ef
  rng = ctx.rng
  fns = [(n, k) for n in TOP for k in range(TOP[n] + 1)]
  name, k = fns[ctx.index % len(fns)]
  xp, backend = _backend(ctx)
  x = _args(rng, name, 40)
  if name == 'abs' and k == 1:
    x = np.where(x == 0, 1., x)
  ctx.describe(f'derivative {k} of {name} at {x.tolist()}')
  order = int(rng.integers(0, k + 1))
  fid = _id(name).derivative_id(order).derivative_id(k - order)
  with np.errstate(all='ignore'):
    y = np.asarray(ctx.sut(lambda: ef.get_function(fid, xp)(xp.asarray(x))))
    scalar = float(ctx.sut(lambda: ef.get_function(fid, xp)(
        xp.asarray(x[7]))))
  if y.shape != x.shape:
    ctx.violation(f'derivative {k} of {name} has shape {y.shape}')
    return
  if not (scalar == y[7] or abs(scalar - y[7]) <= 1e-12 * abs(y[7]) + 1e-300):
    ctx.violation(f'derivative {k} of {name} at {x[7]!r}: {scalar!r} for a '
                  f'scalar, {y[7]!r} in an array')
  for xi, yi in zip(x, y):
    want = truth.deriv(name, k, xi)
    if abs(want) > mpf(10) ** 300:
      continue
    ctx.count('derivative_values')
    tol = mpf(10) ** -13 * (1 + abs(mpf(xi)) / 100 * (name == 'exp')) * max(
        abs(want), 8 * _noise(name, k, xi)) + mpf(10) ** -300
    if backend == 'jax':  # flushes subnormal numbers to zero
      tol = 10 * tol + mpf('3e-308')
    if not (np.isfinite(yi) and abs(mpf(float(yi)) - want) <= tol):
      ctx.violation(f'derivative {k} of {name} at {xi!r} is {yi!r} instead of '
                    f'{mp.nstr(want, 17)} ({backend})')
      return
  if k <= TOP[name] and name != 'abs':
    x0 = np.abs(x[:5]) % 3 + .1
    cs = ctx.sut(lambda: ef.get_taylor_polynomial_coefficients(
        _id(name), k, xp.asarray(x0), xp))
    if len(cs) != k + 1:
      ctx.violation(f'{len(cs)} Taylor coefficients for degree {k} of {name}')
      return
    for i, c in enumerate(cs):
      for xi, ci in zip(x0, np.asarray(c)):
        want = truth.deriv(name, i, xi) / math.factorial(i)
        ctx.count('taylor_coefficients')
        if not abs(mpf(float(ci)) - want) <= mpf(10) ** -12 * max(
            abs(want), 8 * _noise(name, i, xi)):
          ctx.violation(f'Taylor coefficient {i} of {name} at {xi!r} is {ci!r} '
                        f'instead of {mp.nstr(want, 17)}')
          return
  ctx.distinct('deriv', name, k, x.tolist())


def case_table(ctx):
  from autobound import elementwise_functions as ef
  rng = ctx.rng
  name, k = ENTRIES[ctx.index % len(ENTRIES)]
  ctx.describe(f'table entry for derivative {k} of {name}')
  d = ctx.sut(lambda: ef.get_function_data(_id(name).derivative_id(k)))
  want = truth.extrema(name, k)
  got = sorted([(x, 'min') for x in d.local_minima] +
               [(x, 'max') for x in d.local_maxima])
  if len(got) != len(want) or any(
      t != u or abs(mpf(x) - y) > mpf(10) ** -11
      for (x, t), (y, u) in zip(got, want)):
    ctx.violation(f'local extrema of derivative {k} of {name} are listed as '
                  f'{got}, they are '
                  f'{[(mp.nstr(x, 17), t) for x, t in want]}')
  for l in (d.local_minima, d.local_maxima):
    if list(l) != sorted(l):
      ctx.violation(f'extrema of derivative {k} of {name} are not sorted: {l}')
  xs = sorted(mpf(float(v)) for v in np.abs(rng.normal(size=40) * 3) + .01)
  if name != 'log':
    xs = sorted(xs + [-v for v in xs])
  if name == 'abs' and k == 1:
    xs = [v for v in xs if v != 0]
  f = [truth.deriv(name, k, v) for v in xs]
  up = all(u <= v for u, v in zip(f, f[1:]))
  down = all(u >= v for u, v in zip(f, f[1:]))
  if d.monotonically_increasing and not up:
    ctx.violation(f'derivative {k} of {name} is not increasing')
  if d.monotonically_decreasing and not down:
    ctx.violation(f'derivative {k} of {name} is not decreasing')
  if not want and not (d.monotonically_increasing or
                       d.monotonically_decreasing):
    ctx.violation(f'derivative {k} of {name} is monotone, but not listed so')
  if d.even_symmetric:
    for v in xs:
      a, b = truth.deriv(name, k, v), truth.deriv(name, k, -v)
      if abs(a - b) > mpf(10) ** -30 * abs(a):
        ctx.violation(f'derivative {k} of {name} is not even: {a}, {b} at {v}')
        break
  ctx.count('table_entries')
  ctx.distinct('table', name, k)


def _regions(rng, ext, positive, n):
  ext = [float(x) for x, _ in ext] or [0.]
  a, b = [], []
  for _ in range(n):
    r = rng.uniform()
    def end():
      q = rng.uniform()
      if q < .35:
        e = float(rng.choice(ext))
        return e + float(rng.choice([0., 1e-6, -1e-6, 1e-3, -1e-3, 0.]))
      if q < .75:
        return float(rng.uniform(-9, 9))
      return float(rng.choice([-1, 1]) * 10. ** rng.uniform(-3, 2.5))
    u, v = sorted([end(), end()])
    if r < .08:
      u = v
    elif r < .15:
      u, v = -abs(v), abs(v)
    elif r < .2:
      u, v = -30., 30.
    if positive:
      u, v = abs(u) + 1e-3, abs(v) + 1e-3
      u, v = min(u, v), max(u, v)
    a.append(u)
    b.append(v)
  return np.array(a), np.array(b)


def case_region(ctx):
  from autobound import elementwise_functions as ef
  rng = ctx.rng
  name, k = ENTRIES[ctx.index % len(ENTRIES)]
  xp, _ = _backend(ctx)
  ext = truth.extrema(name, k)
  a, b = _regions(rng, ext, name == 'log', 30)
  if name == 'exp':
    b = np.minimum(b, 300.)
    a = np.minimum(a, b)
  shape = [(30,), (5, 6), ()][int(rng.choice([0, 0, 1, 2]))]
  if shape == ():
    a, b = a[0], b[0]
  a, b = np.reshape(a, shape), np.reshape(b, shape)
  ctx.describe(f'{name} derivative {k} on {a.tolist()}..{b.tolist()}')
  fid = _id(name).derivative_id(k)
  data = ctx.sut(lambda: ef.get_function_data(fid))
  region = (xp.asarray(a), xp.asarray(b))
  with np.errstate(all='ignore'):
    flags = ctx.sut(lambda: data.monotone_over(region, xp))
    rng_ = None
    if k <= TOP[name]:
      rng_ = ctx.sut(lambda: ef.get_range(fid, region, xp))
  dec, inc = [np.asarray(v) for v in flags]
  if dec.shape != shape or inc.shape != shape:
    ctx.violation(f'monotone_over returns shapes {dec.shape}, {inc.shape} for '
                  f'regions of shape {shape}')
    return
  if rng_ is not None:
    rlo, rhi = [np.asarray(v) for v in rng_]
    if rlo.shape != shape or rhi.shape != shape:
      ctx.violation(f'get_range returns shapes {rlo.shape}, {rhi.shape} for '
                    f'regions of shape {shape}')
      return
  for i in np.ndindex(shape):
    u, v = float(a[i]), float(b[i])
    ctx.count('regions')
    mono = truth.monotone(name, k, u, v)
    if name == 'abs' and k == 1:
      mono = True
    if mono is not None and u < v:
      fu, fv = truth.deriv(name, k, u), truth.deriv(name, k, v)
      want_dec = mono and fu >= fv
      want_inc = mono and fu <= fv
      if bool(dec[i]) and not want_dec or bool(inc[i]) and not want_inc:
        ctx.violation(f'derivative {k} of {name} over [{u!r}, {v!r}] is said '
                      f'to be decreasing={bool(dec[i])}, '
                      f'increasing={bool(inc[i])}, which is wrong')
        return
      if mono and not (dec[i] or inc[i]):
        ctx.violation(f'derivative {k} of {name} over [{u!r}, {v!r}] is '
                      'monotone, but not said to be so')
        return
      ctx.count('monotone_regions' if mono else 'non_monotone_regions')
    elif mono is None and u < v:
      # An end is next to (or at) an extremum.  At an end that is exactly the
      # listed extremum, the region counts as monotone.
      inside = [x for x, _ in ext if u + 1e-9 < x < v - 1e-9]
      listed = data.local_minima + data.local_maxima
      at = all(abs(mpf(e) - x) > 1e-8 or e in listed
               for e in (u, v) for x, _ in ext)
      if not inside and at and not (dec[i] or inc[i]):
        ctx.violation(f'derivative {k} of {name} over [{u!r}, {v!r}] has no '
                      'extremum inside, but is not said to be monotone')
        return
      if inside and (dec[i] or inc[i]):
        ctx.violation(f'derivative {k} of {name} over [{u!r}, {v!r}] has the '
                      f'extremum {inside} inside, but is said to be monotone')
        return
      ctx.count('regions_ending_at_extrema')
    if rng_ is None:
      continue
    lo, hi = truth.deriv_range(name, k, u, v)
    if name == 'abs' and k == 1:
      lo, hi = mp.sign(mpf(u)), mp.sign(mpf(v))
    noise = max(_noise(name, k, t) for t in (u, v, 0. if u < 0 < v else u))
    tol = mpf(10) ** -12 * max(abs(lo), abs(hi), noise) + mpf(10) ** -300
    if abs(lo) > 1e300 or abs(hi) > 1e300:
      continue
    ctx.count('ranges')
    if not (abs(mpf(float(rlo[i])) - lo) <= tol and
            abs(mpf(float(rhi[i])) - hi) <= tol):
      ctx.violation(f'range of derivative {k} of {name} over [{u!r}, {v!r}] is '
                    f'given as [{float(rlo[i])!r}, {float(rhi[i])!r}], it is '
                    f'[{mp.nstr(lo, 17)}, {mp.nstr(hi, 17)}]')
      return
  ctx.distinct('region', name, k, a.tolist(), b.tolist())


def case_extremum(ctx):
  """maximum_value and minimum_value of functions that are not in the table."""
  from autobound import elementwise_functions as ef
  rng = ctx.rng
  xp, _ = _backend(ctx)
  kind = int(rng.integers(3))
  if kind == 0:
    n = int(rng.integers(1, 6))
    w = float(np.round(rng.uniform(.3, 2), 2))
    ph = rng.uniform(-1, 1)
    f = lambda x: xp.sin(w * x + ph) * 2
    g = lambda x: np.sin(w * x + ph) * 2
    maxima = [(math.pi / 2 + 2 * math.pi * j - ph) / w for j in range(-n, n + 1)]
    minima = [(-math.pi / 2 + 2 * math.pi * j - ph) / w for j in range(-n, n + 2)]
    lim = min(abs(maxima[0]), abs(minima[-1]))
    a = rng.uniform(-lim, lim, 12)
    b = rng.uniform(-lim, lim, 12)
  elif kind == 1:
    # Two maxima of different height and a minimum between: x^4-like.
    f = g = lambda x: -(x ** 4) / 4 + x ** 2 / 2 + .1 * x
    roots = np.sort(np.roots([-1, 0, 1, .1]).real)
    maxima, minima = [roots[0], roots[2]], [roots[1]]
    a, b = rng.uniform(-2, 2, (2, 12))
  else:
    f = g = lambda x: x ** 3
    maxima, minima = (), ()
    a, b = rng.uniform(-2, 2, (2, 12))
  a, b = np.minimum(a, b), np.maximum(a, b)
  if kind == 1:
    a[:3] = rng.choice(list(maxima) + list(minima), 3)
    b = np.maximum(a, b)
  ctx.describe(f'extrema of function kind {kind} on {a.tolist()}..{b.tolist()}')
  top = np.asarray(ctx.sut(ef.maximum_value, f, xp.asarray(a), xp.asarray(b),
                           tuple(maxima), xp))
  bot = np.asarray(ctx.sut(ef.minimum_value, f, xp.asarray(a), xp.asarray(b),
                           tuple(minima), xp))
  for i in range(len(a)):
    pts = np.concatenate([np.linspace(a[i], b[i], 401),
                          [m for m in list(maxima) + list(minima)
                           if a[i] <= m <= b[i]]])
    v = g(pts)
    s = 1e-12 * (1 + np.abs(v).max())
    ctx.count('user_function_regions')
    if not (abs(top[i] - v.max()) <= s and abs(bot[i] - v.min()) <= s):
      ctx.violation(f'over [{a[i]!r}, {b[i]!r}] the extreme values are given as '
                    f'{bot[i]!r}, {top[i]!r}; they are {v.min()!r}, '
                    f'{v.max()!r} (function kind {kind}, maxima {maxima}, '
                    f'minima {minima})')
      return
  ctx.distinct('extremum', kind, a.tolist(), b.tolist())


KINDS = {
    'deriv': (case_deriv, 200, 6000),
    'table': (case_table, len(ENTRIES), len(ENTRIES) * 4),
    'region': (case_region, 400, 12000),
    'extremum': (case_extremum, 80, 2000),
}
