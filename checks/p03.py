"""P03: coefficients below the final one are the Taylor coefficients."""
import numpy as np
from lib import arrprog
from lib import arrseries
from lib import mpm
from lib import progen
from lib import series
from lib import tb

PROPERTY = 'P03'
TECHNIQUE = ('runtime monitoring: returned coefficients compared with power '
             'series computed in extended precision')
RULE = ('A case is a random scalar program (oracle: 50-digit power series) or '
        'a random array/vector program (oracle: extended-precision power '
        'series along random directions), with region, degree and mode; '
        'non-trivial if a coefficient below the final one was compared; '
        'distinct by program, degree, mode and reference point.')
REQUIRE = {'coefficients': 800, 'array_coefficients': 300,
           'final_contains': 250}


def setup():
  tb.setup_jax()


def _ends_equal(ctx, coefs, degree, prog, x0):
  if len(coefs) > degree + 1:
    ctx.violation(f'degree {degree} requested, but {len(coefs)} coefficients '
                  'returned', program=prog)
    return False
  for i, (lo, hi) in enumerate(coefs):
    if i >= degree:
      continue
    same = (lo == hi) | (np.isnan(lo) & np.isnan(hi))
    if not np.all(same):
      ctx.violation(f'coefficient {i} < {degree} is an interval: {lo}, {hi}',
                    program=prog, x0=x0)
      return False
  return True


def case_scalar(ctx):
  import autobound.jax as ab
  rng = ctx.rng
  x0, a, b = progen.random_region(rng)
  degree = int(rng.choice(
      [1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 3, 4, 4, 5, 6]))
  prog = progen.generate(rng, (a, b), x0, degree, guard=rng.uniform() < .8,
                         n_ops=int(rng.integers(1, 7)))
  jit_mode = int(rng.choice([0, 0, 1, 3]))
  propagate = bool(rng.integers(2))
  ctx.describe(f'{prog} at x0={x0} on {(a, b)}, degree {degree}')
  try:
    truth = progen.evaluate(prog, series.var(x0, degree + 1),
                            progen.SeriesLib(degree + 1))
    if any(isinstance(t, mpm.mpmath.mpc) or not mpm.mpmath.isfinite(t)
           for t in truth):
      raise ValueError
  except (ZeroDivisionError, ValueError, OverflowError, TypeError):
    ctx.count('undefined_at_x0')
    return
  bound = ctx.sut(lambda: ab.taylor_bounds(
      progen.to_jax(prog, jit_mode), degree,
      propagate_trust_regions=propagate)(x0, (a, b)))
  coefs = tb.coefficients(bound)
  if not _ends_equal(ctx, coefs, degree, prog, x0):
    return
  scale = float(progen.magnitude(prog, np.float64(x0)))
  maj = arrseries.majorant(prog, x0, 1., degree + 1)
  c32 = None
  for i in range(degree + 1):
    t = truth[i]
    lo, hi = [mpm.mpf(float(v)) for v in coefs[i]] if i < len(coefs) else (
        mpm.mpf(0), mpm.mpf(0))
    exact = i < degree
    if exact and not (mpm.mpmath.isfinite(lo)):
      if not (_series_singular(prog, x0)):
        ctx.violation(f'coefficient {i} is {lo}, the Taylor coefficient is '
                      f'{mpm.mp.nstr(t, 17)}', program=prog, x0=x0,
                      region=(a, b))
        return
      continue
    if mpm.mpmath.isnan(lo) or mpm.mpmath.isnan(hi):
      ctx.count('final_nan')
      continue
    gap = max(lo - t, t - hi)
    # (The oracle has 50 digits.)
    allowed = 1e-12 * float(maj[i]) + 1e-40 * max(1., scale)
    ctx.count('coefficients' if exact else 'final_contains')
    if gap <= allowed:
      continue
    if c32 is None:
      c32 = tb.float32_coefs(prog, jit_mode, degree, propagate, x0, (a, b))
    if c32 is not None and i < len(c32):
      d = max(abs(float(c32[i][e]) - float(coefs[i][e])) for e in (0, 1))
      allowed += 1e3 * 2. ** -29 * d if np.isfinite(d) else np.inf
    if gap > allowed:
      ctx.violation(
          f'coefficient {i} is [{float(lo)!r}, {float(hi)!r}], the Taylor '
          f'coefficient is {mpm.mp.nstr(t, 17)}', program=prog, x0=x0,
          region=(a, b), degree=degree, propagate=propagate, float32=c32)
      return
    ctx.count('suspects_within_roundoff')
  if degree >= 1:
    f0 = truth[0]
    for name in ('lower', 'upper'):
      v = float(getattr(bound, name)(x0))
      if not abs(v - float(f0)) <= 1e-9 * max(scale, abs(float(f0))):
        last = coefs[-1]
        if np.all(np.isfinite(last)):
          g = 1e3 * 2. ** -29 * abs(float(c32[0][0]) - v) if c32 else 0.
          if abs(v - float(f0)) > g + 1e-9 * scale:
            ctx.violation(f'{name}(x0) is {v!r}, f(x0) is {float(f0)!r}',
                          program=prog, x0=x0, region=(a, b))
            return
      ctx.count('values_at_x0')
  for op in set(prog.ops()):
    ctx.count('op.' + op)
  ctx.distinct(prog.key(), degree, propagate, x0)


def _series_singular(prog, x0):
  """Whether some intermediate series is singular (then inf/nan is fine)."""
  with np.errstate(all='ignore'):
    m = progen.magnitude(prog, np.float64(x0))
  return not np.isfinite(m) or m > 1e100


FAMILIES = (((), (1, 2)), ((2,), (1, 2)), ((), (2, 3)), ((3,), (1, 3)),
            ((2,), (2,)), ((), (1, 3)), ((1,), (1, 2)), ((2,), (2, 3)))


def case_array(ctx):
  import autobound.jax as ab
  import jax
  from checks import p02
  rng = ctx.rng
  shape, dims = FAMILIES[ctx.index % len(FAMILIES)]
  degree = int(rng.choice([1, 2, 2, 3]))
  x0, a, b = p02.region(rng, shape)
  g = arrprog.Generator(rng, a, b, dims=dims, conv=not shape,
                        max_degree=degree, limit=9)
  prog = g.build(int(rng.integers(2, 6)))
  propagate = bool(rng.integers(2))
  ctx.describe(f'{prog} at x0={x0.tolist()} on {a.tolist()}..{b.tolist()}, '
               f'degree {degree}')
  bound, c32_fn = p02.run(ctx, prog, x0, a, b, degree, propagate, 0)
  coefs = tb.coefficients(bound)
  if not _ends_equal(ctx, coefs, degree, prog, x0):
    return
  c32 = None
  dirs = [np.ones(shape), rng.normal(size=shape)]
  if shape:
    dirs += list(np.eye(shape[0])[:2])
  for v in dirs:
    truth, _ = arrseries.evaluate(prog, x0, v, degree + 1)
    maj = arrseries.majorant(prog, x0, v, degree + 1)
    for i in range(degree + 1):
      t = truth[i]
      if i < len(coefs):
        p = tb.outer_power(v, i)
        u, w = coefs[i][0] * p, coefs[i][1] * p
        axes = tuple(range(-p.ndim, 0)) if p.ndim else ()
        lo, hi = np.minimum(u, w), np.maximum(u, w)
        if axes:
          lo, hi = lo.sum(axes), hi.sum(axes)
      else:
        lo = hi = np.zeros(())
      gap = np.maximum(lo - t, t - hi)
      allowed = 1e-12 * maj[i] + 1e-300
      ctx.count('array_coefficients')
      if np.isnan(gap).any() and i < degree:
        ctx.violation(f'coefficient {i} is not a number', program=prog,
                      x0=x0.tolist(), coefs=coefs)
        return
      if np.all(~(gap > allowed)):
        continue
      if c32 is None:
        c32 = (c32_fn(),)
      if c32[0] is not None and i < min(len(c32[0]), len(coefs)):
        p = np.abs(tb.outer_power(v, i))
        d = sum(np.abs(c32[0][i][e] - coefs[i][e]) * p for e in (0, 1))
        d = d.sum(tuple(range(-p.ndim, 0))) if p.ndim else d
        allowed = allowed + 1e3 * 2. ** -29 * np.where(np.isfinite(d), d, 0.)
      if np.any(gap > allowed):
        ctx.violation(
            f'coefficient {i} along {v.tolist()} is [{lo.tolist()}, '
            f'{hi.tolist()}], the Taylor coefficient is '
            f'{t.astype(float).tolist()}', program=prog, x0=x0.tolist(),
            region=(a.tolist(), b.tolist()), degree=degree)
        return
  ctx.distinct(prog.key(), degree, propagate, x0.tolist())
  ctx.count('vector_argument', x0.ndim > 0)


KINDS = {
    'scalar': (case_scalar, 700, 15000),
    'array': (case_array, 160, 6000),
}
