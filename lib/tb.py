"""Running taylor_bounds and judging what it returns."""
import math

import numpy as np
from lib import mpm
from lib import progen

mpf = mpm.mpf


def setup_jax(x64=True):
  import jax
  jax.config.update('jax_enable_x64', x64)


def as_pair(c):
  """(lower, upper) numpy arrays of a coefficient."""
  if isinstance(c, tuple):
    return np.asarray(c[0]), np.asarray(c[1])
  c = np.asarray(c)
  return c, c


def coefficients(bound):
  return [as_pair(c) for c in bound.coefficients]


def scalar_bounds(coefs, h):
  """Lower and upper bounds at displacements h (array), from scalar coefs.

  The interval coefficients are multiplied exactly as intervals by h**i.
  """
  h = np.asarray(h, float)
  lo = np.zeros_like(h)
  hi = np.zeros_like(h)
  with np.errstate(all='ignore'):
    for i, (a, b) in enumerate(coefs):
      a, b = float(a), float(b)
      p = h ** i
      if a == b:
        lo = lo + a * p
        hi = hi + a * p
      else:
        u, v = a * p, b * p
        lo = lo + np.minimum(u, v)
        hi = hi + np.maximum(u, v)
  return lo, hi


def abs_terms(coefs, h):
  h = np.abs(np.asarray(h, float))
  s = np.zeros_like(h)
  for i, (a, b) in enumerate(coefs):
    m = max(abs(float(a)), abs(float(b)))
    s = s + (m * h ** i if m else 0.)
  return s


def mp_gap(coefs, h, truth):
  """How far truth (mpf) lies outside of the bounds at h, exactly computed."""
  h = mpf(float(h))
  lo = hi = mpf(0)
  for i, (a, b) in enumerate(coefs):
    p = h ** i
    u, v = mpf(float(a)) * p, mpf(float(b)) * p
    lo += min(u, v)
    hi += max(u, v)
  return max(lo - truth, truth - hi), lo, hi


def float32_coefs(prog, jit_mode, degree, propagate, x0, region):
  """Coefficients of the same program in single precision (noise estimate)."""
  import jax
  import autobound.jax as ab
  with jax.enable_x64(False):
    try:
      bf = ab.taylor_bounds(progen.to_jax(prog, jit_mode), degree,
                            propagate_trust_regions=propagate)
      b = bf(np.float32(x0), (np.float32(region[0]), np.float32(region[1])))
      return coefficients(b)
    except Exception:  # pylint: disable=broad-except
      return None


def noise(c64, c32, h):
  """Estimated roundoff in the float64 bounds at |h|, from a float32 run."""
  if c32 is None or len(c32) != len(c64):
    return 0.
  h = abs(float(h))
  s = 0.
  for i in range(len(c64)):
    for e in (0, 1):
      d = abs(float(c32[i][e]) - float(c64[i][e]))
      if not math.isfinite(d):
        return math.inf
      s += d * h ** i
  return 1e3 * 2. ** -29 * s


def sensitivity(prog, x, x0, truth):
  """How much the true value moves when x moves by a few ulp of x or x0.

  The library computes with x - x0 and with ends of regions of intermediate
  values, so next to a singularity its rounding acts like this.
  """
  d = 8 * 2. ** -52 * max(abs(float(x)), abs(float(x0)))
  out = 0.
  for y in (mpf(float(x)) - d, mpf(float(x)) + d):
    v = progen.mp_value(prog, y)
    if v is not None:
      out = max(out, abs(float(v - truth)))
  return out


def check_scalar_soundness(ctx, prog, coefs, x0, region, xs, c32_fn,
                           tol=1e-11, what='bounds'):
  """Reports points xs at which the bounds do not hold.

  Returns the number of points judged.
  """
  h = xs - x0
  with np.errstate(all='ignore'):
    lo, hi = scalar_bounds(coefs, h)
    f = np.asarray(progen.evaluate(prog, xs, progen.NpLib), float)
    f = np.broadcast_to(f, xs.shape)
    mag = progen.magnitude(prog, xs)
    scale = np.maximum(mag, abs_terms(coefs, h))
    scale = np.where(np.isfinite(scale), scale, np.maximum(np.abs(f), 1.))
    gap = np.maximum(lo - f, f - hi)
  ctx.count('points', len(xs))
  ctx.count('points_without_information', int(np.sum(np.isnan(lo + hi))))
  bad = np.where(gap > tol * scale)[0]
  c32 = None
  for n, i in enumerate(sorted(bad, key=lambda j: -gap[j])[:4]):
    truth = progen.mp_value(prog, xs[i])
    if truth is None:
      ctx.count('points_undefined')
      continue
    g, l, u = mp_gap(coefs, mpf(float(xs[i])) - mpf(float(x0)), truth)
    if not g > tol * scale[i]:
      ctx.count('suspects_cleared_by_exact_evaluation')
      continue
    if c32 is None:
      c32 = (c32_fn(),)
    extra = noise(coefs, c32[0], h[i]) + sensitivity(prog, xs[i], x0, truth)
    if g <= tol * scale[i] + extra:
      ctx.count('suspects_within_roundoff')
      continue
    ctx.violation(
        f'{what} fail at x={float(xs[i])!r}: true value '
        f'{mpm.mp.nstr(truth, 17)}, bounds [{mpm.mp.nstr(l, 17)}, '
        f'{mpm.mp.nstr(u, 17)}], gap {mpm.mp.nstr(g, 5)}, '
        f'allowed {tol * scale[i] + extra:.3g}',
        program=prog, x0=repr(x0), region=repr(region), coefs=coefs,
        float32=c32[0])
    return len(xs)
  return len(xs)


def outer_power(h, i, dtype=np.float64):
  """h (x) h (x) ... (i times); for scalar h, h**i."""
  h = np.asarray(h, dtype)
  p = np.ones((), dtype)
  for _ in range(i):
    p = np.multiply.outer(p, h)
  return p


def array_bounds(coefs, h):
  """(lower, upper, sum of |terms|) at displacement h (scalar or vector)."""
  h = np.asarray(h, float)
  lo = hi = mag = np.zeros(())
  with np.errstate(all='ignore'):
    for i, (a, b) in enumerate(coefs):
      p = outer_power(h, i)
      u, v = a * p, b * p
      axes = tuple(range(-p.ndim, 0)) if p.ndim else ()
      l, r = np.minimum(u, v), np.maximum(u, v)
      m = np.maximum(np.abs(u), np.abs(v))
      if axes:
        l, r, m = l.sum(axes), r.sum(axes), m.sum(axes)
      lo, hi, mag = lo + l, hi + r, mag + m
  return lo, hi, mag


def array_noise(c64, c32, h):
  """Roundoff estimate per element, as noise()."""
  if c32 is None or len(c32) != len(c64):
    return 0.
  s = np.zeros(())
  with np.errstate(all='ignore'):
    for i in range(len(c64)):
      p = np.abs(outer_power(h, i))
      for e in (0, 1):
        d = np.abs(np.asarray(c32[i][e], float) - c64[i][e]) * p
        s = s + (d.sum(tuple(range(-p.ndim, 0))) if p.ndim else d)
  return np.where(np.isfinite(s), 1e3 * 2. ** -29 * s, 0.)


def sample_vector_points(rng, x0, a, b, n):
  """Points of the box [a, b]: corners, faces, x0, random."""
  x0, a, b = [np.asarray(v, float) for v in (x0, a, b)]
  pts = [a, b, np.clip(x0, a, b)]
  for k in range(n):
    t = rng.uniform(size=x0.shape)
    r = rng.uniform()
    if r < .35:
      t = np.round(t)          # a corner
    elif r < .55:
      t = np.where(rng.uniform(size=t.shape) < .5, np.round(t), t)
    x = a + (b - a) * t
    if .55 <= r < .7:
      x = x0 + (x - x0) * 10. ** rng.uniform(-4, 0)
    if r > .9:
      x = np.where(rng.uniform(size=t.shape) < .5, x0, x)
    pts.append(np.clip(x, a, b))
  return pts


def check_array_soundness(ctx, prog, coefs, x0, region, pts, c32_fn,
                          tol=1e-10, what='bounds'):
  """Judges array-valued bounds.  Returns False after a violation."""
  c32 = None
  for x in pts:
    with np.errstate(all='ignore'):
      f, m = prog.evaluate(x)
    h = np.asarray(x, float) - np.asarray(x0, float)
    lo, hi, mag = array_bounds(coefs, h)
    if lo.shape != f.shape or hi.shape != f.shape:
      try:
        ok = np.broadcast_shapes(lo.shape, f.shape) == f.shape
      except ValueError:
        ok = False
      if not ok:
        ctx.violation(f'{what} have shape {lo.shape}, the function value has '
                      f'shape {f.shape}', program=prog, x0=x0, region=region)
        return False
    ctx.count('points')
    ctx.count('elements', f.size)
    with np.errstate(all='ignore'):
      scale = np.maximum(np.where(np.isfinite(mag), mag, 0.), m)
      gap = np.maximum(lo - f, f - hi)
      bad = gap > tol * scale
    ctx.count('elements_without_information', np.isnan(lo + hi).sum())
    if not np.any(bad):
      continue
    # Look closer: extended precision, and the roundoff seen in float32.
    t, _ = prog.evaluate(np.asarray(x, np.longdouble), np.longdouble)
    gap = np.maximum(lo - t, t - hi)
    if c32 is None:
      c32 = (c32_fn(),)
    allowed = tol * scale + array_noise(coefs, c32[0], h)
    d = 8 * 2. ** -52 * np.maximum(np.abs(x), np.abs(x0))
    for y in (np.asarray(x, np.longdouble) - d, np.asarray(x, np.longdouble) + d):
      v = np.abs(prog.evaluate(y, np.longdouble)[0] - t)
      allowed = allowed + np.where(np.isfinite(v), v, 0.)
    bad = gap > allowed
    if np.any(bad):
      i = np.unravel_index(np.argmax(np.where(bad, gap, -1)), gap.shape)
      ctx.violation(
          f'{what} fail at x={np.asarray(x).tolist()} for element {i}: value '
          f'{float(t[i])!r}, bounds [{np.broadcast_to(lo, f.shape)[i]!r}, '
          f'{np.broadcast_to(hi, f.shape)[i]!r}]', program=prog,
          x0=np.asarray(x0).tolist(), region=region, allowed=allowed,
          coefs=coefs)
      return False
    ctx.count('suspects_within_roundoff')
  return True


def check_description(ctx, bound, x0, region, prog):
  """The reference point, trust region and last coefficient that bounds state."""
  ctx.count('descriptions')
  outside = np.any((x0 < region[0]) | (x0 > region[1]))
  for name, got, want in (
      ('x0', bound.x0, x0),
      ('start of x_trust_region', bound.x_trust_region[0], region[0]),
      ('end of x_trust_region', bound.x_trust_region[1], region[1])):
    got, want = np.asarray(got, float), np.asarray(want, float)
    # A region that does not contain x0 may be extended up to it.
    off = got - np.clip(got, np.minimum(x0, want), np.maximum(x0, want)) if (
        name != 'x0' and got.shape == want.shape and outside) else got - want
    if got.shape != want.shape or not np.all(
        np.abs(off) <= 1e-12 * (1 + np.abs(want))):
      ctx.violation(f'{name} of the bounds is {got}, not {want}', program=prog,
                    x0=x0, region=region)
      return
  c = bound.coefficients[-1]
  want = c if isinstance(c, tuple) else (c, c)
  got = ctx.sut(bound.final_interval)
  if len(got) != 2 or not all(np.array_equal(u, v, equal_nan=True)
                              for u, v in zip(got, want)):
    ctx.violation(f'final_interval() is {got}, but the last coefficient is {c}',
                  program=prog, x0=x0, region=region)
