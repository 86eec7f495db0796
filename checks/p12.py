"""P12: smaller trust regions, and propagating them, only tighten bounds."""
import numpy as np
from lib import arrprog
from lib import progen
from lib import tb
from lib.runner import SutError

PROPERTY = 'P12'
TECHNIQUE = ('runtime monitoring: relational monitor over runs that differ only '
             'in the trust region (nested chains) or in propagation')
RULE = ('A case is a random program (scalar, vector or array), or a single '
        'elementwise enclosure, with a chain of nested regions around one '
        'reference point, both propagation modes and a degree; non-trivial if '
        'two runs with different regions or modes were compared; distinct by '
        'program, degree and regions.')
REQUIRE = {'pairs': 1500, 'propagation_pairs': 500, 'strictly_tighter': 300,
           'points': 3000, 'elementwise_pairs': 4000,
           'cancelling': 25}


def setup():
  from lib import mpnp
  tb.setup_jax()
  mpnp.setup()


def nested(rng, x0, a, b, n=4):
  """Regions from [a, b] inwards, all containing x0."""
  out = [(a, b)]
  for _ in range(n - 1):
    a, b = out[-1]
    t = rng.uniform(size=(2,) + np.shape(a))
    r = rng.uniform()
    if r < .2:
      t = np.round(t)
    elif r < .3:
      t = t * 1e-3
    elif r < .4:
      t[int(rng.integers(2))] = 1.
    na = np.clip(x0 - (x0 - a) * t[0], a, x0)
    nb = np.clip(x0 + (b - x0) * t[1], x0, b)
    out.append((na, nb))
  if rng.uniform() < .3:
    out[-1] = (np.asarray(x0) * 1., np.asarray(x0) * 1.)
  return out


def _within(ctx, small, large, width, narrow, scale, noises, what, same_below):
  """small (coefs) must lie within large.

  width, narrow: the widest and narrowest side of the small region (remainders
  are divided by powers of the sides).
  """
  if len(small) != len(large):
    ctx.violation(f'{len(small)} coefficients instead of {len(large)}: {what}')
    return False
  c32 = None
  strict = False
  n = len(small)
  for i in range(n):
    for e in (0, 1):
      a, b = small[i][e], large[i][e]
      if a.shape != b.shape:
        a, b = np.broadcast_arrays(a, b)
      with np.errstate(all='ignore'):
        # > 0: how far small leaves large.
        out = (b - a) if e == 0 else (a - b)
        out = np.where(a == b, 0., out)
        if i < n - 1 and same_below:
          out = np.abs(out)
        strict |= bool(np.any(out < -1e-9 * (1 + np.abs(b))))
        # Nothing is claimed where the larger one says nothing.
        out = np.where(np.isnan(b), 0., out)
        out = np.where(np.isnan(a) & ~np.isnan(b) & np.isfinite(b), np.inf, out)
        out = np.where(np.isnan(out), 0., out)
        ok = out <= 1e-11 * np.maximum(1., np.abs(b))
        ok |= out * width ** i <= 1e-11 * scale
        if i == n - 1:
          ok |= out * narrow ** i <= 1e-13 * scale
      if np.all(ok):
        continue
      if c32 is None:
        c32 = [f() for f in noises]
      allowed = 0.
      for c, own in zip(c32, (small, large)):
        if c is not None and len(c) == n:
          u = np.asarray(c[i][e], float)
          if u.shape == own[i][e].shape:
            with np.errstate(all='ignore'):
              d = 1e3 * 2. ** -29 * np.abs(u - own[i][e])
              allowed = allowed + np.where(np.isfinite(d), d, np.inf)
      ok |= out <= allowed
      ctx.count('suspects_within_roundoff', np.all(ok))
      if not np.all(ok):
        j = tuple(np.argwhere(~ok)[0])
        ctx.violation(f'coefficient {i}, end {e}{list(j)}: {a[j]!r} leaves '
                      f'{b[j]!r}: {what}', small=small, large=large)
        return False
  ctx.count('pairs')
  ctx.count('strictly_tighter', strict)
  return True


def _judge(ctx, run, f32, regions, x0, scale, what, points):
  """run(region, propagate) -> coefs."""
  coefs = {}
  for k, r in enumerate(regions):
    for p in (False, True):
      coefs[k, p] = run(r, p)
  for k, (a, b) in enumerate(regions):
    width = float(np.max(np.maximum(x0 - a, b - x0)))
    sides = np.concatenate([np.ravel(x0 - a), np.ravel(b - x0)])
    narrow = float(np.min(sides[sides > 0], initial=width))
    # Propagation.
    ctx.count('propagation_pairs')
    if not _within(ctx, coefs[k, True], coefs[k, False], width, narrow, scale,
                   [lambda: f32(regions[k], True), lambda: f32(regions[k], False)],
                   f'with propagation, against without, on {(a, b)}: {what}',
                   True):
      return False
    if k == 0:
      continue
    for p in (False, True):
      j = int(ctx.rng.integers(k))
      if not _within(ctx, coefs[k, p], coefs[j, p], width, narrow, scale,
                     [lambda: f32(regions[k], p), lambda: f32(regions[j], p)],
                     f'region {(a, b)} against {regions[j]}, propagate={p}: '
                     f'{what}', True):
        return False
      # The bounds themselves.
      for x in points(a, b):
        lo, hi, m = tb.array_bounds(coefs[k, p], x - x0)
        lo2, hi2, m2 = tb.array_bounds(coefs[j, p], x - x0)
        ctx.count('points')
        with np.errstate(all='ignore'):
          s = 1e-10 * np.maximum(np.maximum(m, m2), scale)
          bad = (lo < lo2 - s) | (hi > hi2 + s)
        if np.any(bad):
          extra = sum(tb.array_noise(c, d, x - x0) for c, d in (
              (coefs[k, p], f32(regions[k], p)), (coefs[j, p], f32(regions[j],
                                                                   p))))
          if np.all(~((lo < lo2 - s - extra) | (hi > hi2 + s + extra))):
            continue
          ctx.violation(f'bounds [{lo.tolist()}, {hi.tolist()}] at {x} for '
                        f'{(a, b)} leave [{lo2.tolist()}, {hi2.tolist()}] for '
                        f'{regions[j]}, propagate={p}: {what}')
          return False
  return True


def case_scalar(ctx):
  import jax
  import autobound.jax as ab
  rng = ctx.rng
  x0, a, b = progen.random_region(rng)
  degree = int(rng.choice(
      [0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 5]))
  guard = rng.uniform() < .85
  prog = progen.generate(rng, (a, b), x0, degree, guard=guard, smooth=False)
  f = progen.to_jax(prog, int(rng.choice([0, 0, 1, 2, 3])))
  regions = [(float(u), float(v)) for u, v in nested(rng, x0, a, b)]
  what = f'{prog} at {x0}, degree {degree}'
  ctx.describe(f'{what} on {regions}')
  with np.errstate(all='ignore'):
    scale = float(np.nanmax(progen.magnitude(prog, np.linspace(a, b, 9))))
    if not np.isfinite(scale):
      scale = 1.
  if not guard:
    with np.errstate(all='ignore'):
      if not np.isfinite(progen.evaluate(prog, np.float64(x0), progen.NpLib)):
        ctx.count('undefined_at_x0')
        return
  bf = {p: ab.taylor_bounds(f, degree, propagate_trust_regions=p)
        for p in (False, True)}
  def run(r, p):
    return tb.coefficients(ctx.sut(bf[p], x0, r))
  def f32(r, p):
    return tb.float32_coefs(prog, 0, degree, p, x0, r)
  def points(a, b):
    return [np.asarray(v) for v in (a, b, a + (b - a) * rng.uniform())]
  if _judge(ctx, run, f32, regions, x0, scale, what, points):
    ctx.distinct(prog.key(), degree, regions)
    ctx.count(f'degree.{degree}')


def case_array(ctx):
  import jax
  import autobound.jax as ab
  from checks import p02
  rng = ctx.rng
  shape, dims = (((), (1, 2)), ((2,), (1, 2)), ((2,), (2,)), ((), (2, 3)))[
      ctx.index % 4]
  degree = int(rng.choice([0, 1, 1, 2, 2, 3] if not shape else [0, 1, 1, 2, 2]))
  x0, a, b = p02.region(rng, shape)
  g = arrprog.Generator(rng, a, b, dims=dims, conv=not shape, max_degree=degree,
                        limit=8)
  prog = g.build(int(rng.integers(2, 6)))
  f = prog.to_jax(0)
  regions = nested(rng, x0, a, b, 3)
  what = f'{prog} at {x0.tolist()}, degree {degree}'
  ctx.describe(what)
  scale = max(float(np.max(prog.evaluate(x)[1], initial=0.)) for x in (a, b, x0))
  bf = {p: ab.taylor_bounds(f, degree, propagate_trust_regions=p)
        for p in (False, True)}
  def run(r, p):
    return tb.coefficients(ctx.sut(bf[p], x0, r))
  def f32(r, p):
    with jax.enable_x64(False):
      try:
        f4 = np.float32
        return tb.coefficients(ab.taylor_bounds(
            f, degree, propagate_trust_regions=p)(f4(x0), (f4(r[0]), f4(r[1]))))
      except Exception:  # pylint: disable=broad-except
        return None
  def points(a, b):
    return tb.sample_vector_points(rng, x0, a, b, 2)
  if _judge(ctx, run, f32, regions, x0, scale, what, points):
    ctx.distinct(prog.key(), degree, x0.tolist())
    ctx.count('vector_argument', x0.ndim > 0)


_TOP = {'abs': 1, 'exp': 6, 'log': 6, 'sigmoid': 4, 'softplus': 5, 'swish': 4,
        'pow': 7}


def case_elementwise(ctx):
  """Elementwise enclosures, 120 digits: no roundoff, so no tolerance."""
  from autobound import primitive_enclosures as pe
  from lib import mpnp
  from lib import mpm
  rng = ctx.rng
  name = list(_TOP)[ctx.index % len(_TOP)]
  degree = int(rng.integers(0, _TOP[name] + 1))
  p = float(rng.choice([-3, -2, -1, 0, 1, 2, 3, 4, 5, 6, .5, -.5, 1.5, 2.5,
                        1 / 3]))
  exact = True
  q = p if p == int(p) else mpnp.Hp(p)
  enc64 = {'pow': lambda *r: pe.pow_enclosure(p, *r)}.get(
      name, getattr(pe, name + '_enclosure'))
  enc = {'abs': pe.abs_enclosure, 'exp': pe.exp_enclosure,
         'log': pe.log_enclosure, 'sigmoid': pe.sigmoid_enclosure,
         'softplus': pe.softplus_enclosure, 'swish': pe.swish_enclosure,
         'pow': lambda *r: pe.pow_enclosure(q, *r)}[name]
  n = 12
  x0 = np.round(rng.normal(size=n) * 2.5, 2)
  wa, wb = rng.choice([0., .5, 1., 2., 4.], (2, n)) * rng.uniform(size=(2, n))
  positive = name == 'log' or (name == 'pow' and (p != int(p)))
  if positive:
    x0 = np.abs(x0) + .3
    wa = np.minimum(wa, x0 - .1)
  a, b = x0 - wa, x0 + wb
  t = rng.uniform(size=(2, n))
  r = rng.uniform(size=(2, n))
  t = np.where(r < .2, np.round(t), t)
  na, nb = x0 - wa * t[0], x0 + wb * t[1]
  na, nb = np.clip(na, a, x0), np.clip(nb, x0, b)
  what = f'{name}{p if name == "pow" else ""} degree {degree}'
  ctx.describe(f'{what} x0={x0.tolist()} in {a.tolist()}..{b.tolist()}')
  X0, A, B, NA, NB = [mpnp.array(v) for v in (x0, a, b, na, nb)]
  try:
    large = ctx.sut(enc, X0, (A, B), degree, mpnp.hp_np)[-1]
    small = ctx.sut(enc, X0, (NA, NB), degree, mpnp.hp_np)[-1]
  except SutError:
    # The high-precision back end lacks something that numpy has.
    ctx.count('no_high_precision_run')
    with np.errstate(all='ignore'):
      enc2 = enc64
      large = ctx.sut(enc2, x0, (a, b), degree, np)[-1]
      small = ctx.sut(enc2, x0, (na, nb), degree, np)[-1]
    exact = False
  if not (isinstance(large, tuple) and isinstance(small, tuple)):
    ctx.violation(f'final coefficient is not an interval: {what}')
    return
  for j in range(n):
    l0, l1, s0, s1 = [np.asarray(v)[j] if np.ndim(v) else v
                      for v in (*large, *small)]
    l0, l1, s0, s1 = [mpnp._v(v) for v in (l0, l1, s0, s1)]
    ctx.count('elementwise_pairs')
    # A region next to a listed extremum (1e-15) or wide powers: 1e-13.
    tol = mpm.mpf('1e-13') * (1 + max(abs(s0), abs(s1)))
    if not exact:
      w = min([v for v in (x0[j] - na[j], nb[j] - x0[j]) if v > 0] or [1.])
      tol = tol * 1000 / mpm.mpf(float(min(1., w))) ** degree
    if not (l0 - tol <= s0 and s1 <= l1 + tol):
      ctx.violation(
          f'{what} at {x0[j]!r}: final interval [{float(s0)!r}, {float(s1)!r}] '
          f'on {(na[j], nb[j])} leaves [{float(l0)!r}, {float(l1)!r}] on '
          f'{(a[j], b[j])}')
      return
  ctx.distinct(what, x0.tolist())


def case_cancelling(ctx):
  """Elementwise functions of sums whose terms cancel: the degree-0 enclosure of
  the sum is far wider than the sum, so every way of tightening matters."""
  import jax
  import jax.numpy as jnp
  import autobound.jax as ab
  rng = ctx.rng
  degree = int(rng.integers(1, 5))
  x0 = float(np.round(rng.normal(), 2))
  a, b = [float(v) for v in x0 + np.array([-1., 1.]) * rng.uniform(.1, 2., 2)]
  vector = ctx.index % 4 == 3
  n = int(rng.integers(2, 6))
  ks = np.round(rng.normal(size=n) * 2., 2)
  # The sum of the linear terms stays moderate.
  ks[-1] = float(np.round(rng.normal() * .7 - np.sum(ks[:-1]), 2))
  powers = [int(v) for v in rng.choice([1, 1, 1, 2, 3], n)]
  powers[-1] = 1
  outer = [str(v) for v in rng.choice(
      ['exp', 'sigmoid', 'softplus', 'swish', 'square', 'abs', 'inverse'],
      int(rng.integers(1, 3)))]
  fns = {'exp': lambda v: jnp.exp(.5 * v), 'sigmoid': jax.nn.sigmoid,
         'softplus': jax.nn.softplus, 'swish': jax.nn.swish,
         'square': lambda v: v ** 2, 'abs': jnp.abs,
         'inverse': lambda v: 1. / (1. + jnp.exp(v))}
  if 'abs' in outer:
    degree = 1
  shuffle = rng.permutation(n)
  w = np.round(rng.uniform(.2, 1., 2), 2)
  def f(x):
    # (Indexing is not supported: a weighted sum.)
    y = jnp.dot(w, x) if vector else x
    s = 0.25
    for i in shuffle:
      s = s + ks[i] * y ** powers[i]
    for name in outer:
      s = fns[name](s)
    return s
  what = (f'{outer} of sum of {ks.tolist()} * x**{powers} at {x0}, degree '
          f'{degree}, vector={vector}')
  if vector:
    X0 = np.array([x0, x0 + .3])
    A, B = X0 - (x0 - a), X0 + (b - x0)
  else:
    X0, A, B = np.asarray(x0), np.asarray(a), np.asarray(b)
  ctx.describe(what)
  regions = nested(rng, X0, A, B, 2)
  bf = {p: ab.taylor_bounds(f, degree, propagate_trust_regions=p)
        for p in (False, True)}
  def run(r, p):
    return tb.coefficients(ctx.sut(bf[p], X0, r))
  def f32(r, p):
    with jax.enable_x64(False):
      try:
        f4 = np.float32
        return tb.coefficients(ab.taylor_bounds(
            f, degree, propagate_trust_regions=p)(f4(X0), (f4(r[0]), f4(r[1]))))
      except Exception:  # pylint: disable=broad-except
        return None
  scale = float(np.sum(np.abs(ks) * max(abs(a), abs(b), 1.) ** 3))
  if _judge(ctx, run, f32, regions, X0, scale, what,
            lambda a, b: tb.sample_vector_points(rng, X0, a, b, 2)):
    ctx.distinct(what)
    ctx.count('cancelling')


KINDS = {'cancelling': (case_cancelling, 60, 2500),
         'scalar': (case_scalar, 240, 5000),
         'array': (case_array, 72, 2000),
         'elementwise': (case_elementwise, 700, 30000)}
