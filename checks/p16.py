"""P16: exactness for low-degree polynomials, convergence, attained bounds."""
import math

import numpy as np
from lib import arrprog
from lib import mpm
from lib import progen
from lib import series
from lib import tb
from lib import truth

PROPERTY = 'P16'
TECHNIQUE = ('runtime monitoring: width monitors over polynomial programs, '
             'shrinking and empty regions, and end points of regions')
RULE = ('A case is a random scalar or array program of polynomial degree at '
        'most the requested one, a smooth program with a pair of regions that '
        'differ by a factor of 27 or an empty region, or one elementwise '
        'function whose derivative is monotone; non-trivial if a width or an '
        'end point was judged; distinct by program, degree, region and mode.')
REQUIRE = {'exact_points': 1000, 'exact_elements': 700, 'shrinking': 120,
           'empty': 100, 'attained': 250, 'array_shrinking': 20}


def setup():
  tb.setup_jax()


def _poly_degrees(prog):
  """Syntactic degree of each node (inf if it is no polynomial)."""
  deg = []
  dep = []
  for op, args, param in prog.nodes:
    d = [deg[i] for i in args]
    x = any(dep[i] for i in args)
    if op == 'x':
      deg.append(1)
      x = True
    elif not x:
      deg.append(0)
    elif op in ('add', 'sub'):
      deg.append(max(d))
    elif op in ('mul', 'einsum', 'matmul', 'conv'):
      deg.append(sum(d))
    elif op == 'div' and not dep[args[1]]:
      deg.append(d[0])
    elif op == 'ipow' and param >= 0:
      deg.append(d[0] * param)
    elif op == 'neg' or op in arrprog.LINEAR:
      deg.append(d[0])
    else:
      deg.append(math.inf)
    dep.append(x)
  return deg


def case_exact_scalar(ctx):
  import autobound.jax as ab
  rng = ctx.rng
  x0, a, b = progen.random_region(rng)
  degree = int(rng.choice(
      [1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 5, 6]))
  for _ in range(40):
    prog = progen.generate(rng, (a, b), x0, degree, ops=(
        'add', 'sub', 'mul', 'neg', 'ipow', 'div'), n_ops=int(rng.integers(1, 8)))
    degs = _poly_degrees(prog)
    if max(degs[i] for i in prog.live()) <= degree:
      break
  else:
    return
  jit_mode = int(rng.choice([0, 0, 1, 2, 3]))
  propagate = bool(rng.integers(2))
  what = (f'{prog} at x0={x0} on {(a, b)}, degree {degree}, propagate='
          f'{propagate}')
  ctx.describe(what)
  bound = ctx.sut(lambda: ab.taylor_bounds(
      progen.to_jax(prog, jit_mode), degree,
      propagate_trust_regions=propagate)(x0, (a, b)))
  coefs = tb.coefficients(bound)
  xs = progen.sample_points(rng, x0, a, b, n=9)
  with np.errstate(all='ignore'):
    lo, hi = tb.scalar_bounds(coefs, xs - x0)
    scale = np.maximum(progen.magnitude(prog, xs),
                       tb.abs_terms(coefs, xs - x0))
  c32 = None
  for x, l, h, s in zip(xs, lo, hi, scale):
    t = progen.mp_value(prog, x)
    if t is None:
      continue
    ctx.count('exact_points')
    gap = max(abs(float(l - t)), abs(float(h - t)))
    if not gap <= 1e-11 * s:
      if c32 is None:
        c32 = (tb.float32_coefs(prog, jit_mode, degree, propagate, x0, (a, b)),)
      if gap <= 1e-11 * s + tb.noise(coefs, c32[0], x - x0):
        ctx.count('suspects_within_roundoff')
        continue
      ctx.violation(f'a polynomial of degree {max(degs)} at most has bounds '
                    f'[{l!r}, {h!r}] instead of {float(t)!r} at x={x!r}: {what}',
                    coefs=coefs)
      return
  ctx.distinct('exact', prog.key(), degree, propagate, x0)


class PolyGenerator(arrprog.Generator):

  def add(self, op, args=(), param=None):
    r = super().add(op, args, param)
    if r is not None and _poly_degrees(self)[-1] > self.limit_degree:
      for l in (self.nodes, self.style, self.iv, self.dep):
        l.pop()
      return None
    return r


def case_exact_array(ctx):
  import autobound.jax as ab
  from checks import p02
  rng = ctx.rng
  shape, dims = p02.FAMILIES[ctx.index % len(p02.FAMILIES)]
  degree = int(rng.choice([1, 2, 2, 3, 3]))
  x0, a, b = p02.region(rng, shape)
  g = PolyGenerator(rng, a, b, dims=dims, conv=not shape, limit=12,
                    elementwise=('neg', 'ipow'))
  g.limit_degree = degree
  prog = g.build(int(rng.integers(2, 7)))
  if max(_poly_degrees(prog)) > degree:
    return
  jit_mode = int(rng.choice([0, 0, 1, 3]))
  propagate = bool(rng.integers(2))
  what = (f'{prog} at x0={x0.tolist()} on {a.tolist()}..{b.tolist()}, degree '
          f'{degree}, propagate={propagate}')
  ctx.describe(what)
  bound, c32_fn = p02.run(ctx, prog, x0, a, b, degree, propagate, jit_mode)
  coefs = tb.coefficients(bound)
  c32 = None
  for x in tb.sample_vector_points(rng, x0, a, b, 6):
    f, m = prog.evaluate(x, np.longdouble)
    lo, hi, mag = tb.array_bounds(coefs, x - x0)
    if np.broadcast_shapes(lo.shape, f.shape) != f.shape:
      return  # P02 judges shapes
    ctx.count('exact_elements', f.size)
    gap = np.maximum(np.abs(lo - f), np.abs(hi - f))
    allowed = 1e-10 * np.maximum(m, mag)
    if np.all(gap <= allowed):
      continue
    if c32 is None:
      c32 = (c32_fn(),)
    if np.all(gap <= allowed + tb.array_noise(coefs, c32[0], x - x0)):
      ctx.count('suspects_within_roundoff')
      continue
    ctx.violation(f'a polynomial of degree {max(_poly_degrees(prog))} at most '
                  f'has bounds {lo.tolist()}, {hi.tolist()} instead of '
                  f'{f.tolist()} at x={x.tolist()}: {what}', coefs=coefs)
    return
  ctx.distinct('exact', prog.key(), degree, propagate, x0.tobytes())


def _around(rng, x0, h, side):
  """A region of about the width h around x0."""
  one = np.ones(np.shape(x0))
  if side == 0:
    return x0 - h * one, x0 + h * one
  if side == 1:
    return x0 - h * one, x0 + 0. * one
  if side == 2:
    return x0 + 0. * one, x0 + h * one
  return x0 - .3 * h * one, x0 + h * one


def _width(coefs, degree):
  if len(coefs) <= degree:
    return np.zeros(())
  return np.asarray(coefs[degree][1] - coefs[degree][0])


def case_shrink(ctx):
  """The final interval shrinks at least proportionally."""
  import autobound.jax as ab
  rng = ctx.rng
  x0 = progen.random_region(rng)[0]
  degree = int(rng.choice([0, 1, 1, 2, 2, 3, 4]))
  big = .027 if degree < 4 else .1
  side = int(rng.integers(4))
  small = big / 27
  a, b = _around(rng, x0, big, side)
  prog = progen.generate(rng, (a, b), x0, degree, n_ops=int(rng.integers(1, 7)))
  propagate = bool(rng.integers(2))
  what = f'{prog} at x0={x0}, degree {degree}, propagate={propagate}'
  ctx.describe(what)
  f = progen.to_jax(prog)
  w = []
  for h in (big, small):
    r = tuple(float(v) for v in _around(rng, x0, h, side))
    w.append((h, tb.coefficients(ctx.sut(lambda: ab.taylor_bounds(
        f, degree, propagate_trust_regions=propagate)(x0, r)))))
  w1, w2 = [float(_width(c, degree)) for _, c in w]
  if not np.isfinite(w1 + w2):
    ctx.count('shrink_no_information')
    return
  mag = float(progen.magnitude(prog, np.float64(x0)))
  noise = 1e-13 * (1 + mag) ** 2 / small ** degree
  ctx.count('shrinking')
  if w2 * 27 > 4 * w1 + 27 * noise:
    ctx.violation(f'the final interval has width {w1} for a region of width '
                  f'{big}, and {w2} for one of width {small}: {what}',
                  side=side, coefs=w)
    return
  # It shrinks to the Taylor coefficient.
  try:
    t = progen.evaluate(prog, series.var(x0, degree + 1),
                        progen.SeriesLib(degree + 1))[degree]
  except (ZeroDivisionError, ValueError, OverflowError, TypeError):
    return
  if len(w[1][1]) <= degree:
    lo = hi = 0.
  else:
    lo, hi = [float(v) for v in w[1][1][degree]]
  out = max(lo - float(t), float(t) - hi)
  if out > noise + 1e-9 * abs(float(t)):
    ctx.violation(f'the final interval [{lo}, {hi}] for a region of width '
                  f'{small} does not contain {float(t)}: {what}')
    return
  ctx.distinct('shrink', prog.key(), degree, propagate, x0, side)


def case_shrink_array(ctx):
  from checks import p02
  rng = ctx.rng
  shape, dims = p02.FAMILIES[ctx.index % len(p02.FAMILIES)]
  degree = int(rng.choice([0, 1, 1, 2, 2, 3]))
  x0, _, _ = p02.region(rng, shape)
  side = int(rng.integers(4))
  big, small = .027, .001
  a, b = _around(rng, x0, big, side)
  prog = arrprog.Generator(rng, a, b, dims=dims, conv=not shape,
                           max_degree=degree, limit=9).build(
                               int(rng.integers(2, 6)))
  propagate = bool(rng.integers(2))
  what = f'{prog} at x0={x0.tolist()}, degree {degree}, propagate={propagate}'
  ctx.describe(what)
  w = []
  for h in (big, small):
    bound, _ = p02.run(ctx, prog, x0, *_around(rng, x0, h, side), degree,
                       propagate, 0)
    w.append(tb.coefficients(bound))
  w1, w2 = [_width(c, degree) for c in w]
  if w1.shape != w2.shape:
    ctx.violation(f'final intervals of shapes {w1.shape} and {w2.shape}: {what}')
    return
  if not np.all(np.isfinite(w1 + w2)):
    ctx.count('shrink_no_information')
    return
  m = prog.evaluate(x0)[1]
  noise = 1e-13 * (1 + m) ** 2 / small ** degree
  ctx.count('array_shrinking')
  if np.any(w2 * 27 > 4 * w1 + 27 * noise):
    ctx.violation(f'the final interval has width {w1.tolist()} for a region of '
                  f'width {big}, and {w2.tolist()} for one of width {small}: '
                  f'{what}', side=side, coefs=w)
    return
  ctx.distinct('shrink', prog.key(), degree, propagate, x0.tobytes(), side)


def case_empty(ctx):
  """A region of zero width gives the Taylor polynomial."""
  import autobound.jax as ab
  rng = ctx.rng
  x0 = progen.random_region(rng)[0]
  degree = int(rng.choice([0, 1, 2, 2, 3, 4, 5]))
  prog = progen.generate(rng, (x0, x0), x0, degree, smooth=False,
                         n_ops=int(rng.integers(1, 7)))
  if 'abs' in prog.ops() and degree > 0:
    degree = 0  # abs has no derivative where its argument is zero
  jit_mode = int(rng.choice([0, 0, 1, 3]))
  propagate = bool(rng.integers(2))
  what = f'{prog} on the point x0={x0}, degree {degree}, propagate={propagate}'
  ctx.describe(what)
  coefs = tb.coefficients(ctx.sut(lambda: ab.taylor_bounds(
      progen.to_jax(prog, jit_mode), degree, propagate_trust_regions=propagate)(
          x0, (x0, x0))))
  try:
    t = progen.evaluate(prog, series.var(x0, degree + 1),
                        progen.SeriesLib(degree + 1))
  except (ZeroDivisionError, ValueError, OverflowError, TypeError):
    return
  ctx.count('empty')
  mag = 1 + float(progen.magnitude(prog, np.float64(x0)))
  sizes = [np.zeros(degree + 1)]
  for op, args, param in prog.nodes:
    # The series of intermediate values, and of their reciprocals.
    k = len(sizes)
    sub = progen.Prog(prog.nodes[:k], prog.style[:k])
    try:
      v = progen.evaluate(sub, series.var(x0, degree + 1),
                          progen.SeriesLib(degree + 1))
      sizes.append(np.abs(np.array([float(c) for c in v])))
      sizes[-1] = np.maximum(sizes[-1], np.abs(np.array(
          [float(c) for c in series.div(series.const(1, degree + 1), v)])))
    except (ZeroDivisionError, ValueError, OverflowError, TypeError):
      sizes.append(np.zeros(degree + 1))
  sizes = np.maximum.accumulate(np.max(sizes, 0))
  c32 = None
  for i in range(len(coefs)):
    lo, hi = [float(v) for v in coefs[i]]
    # The roundoff of a coefficient, from the sizes of the terms it is made of.
    want = float(t[i])
    gap = max(abs(lo - want), abs(hi - want))
    if not gap <= 1e-10 * max(abs(want), mag) + 1e-13 * sizes[i] * mag:
      if c32 is None:
        c32 = (tb.float32_coefs(prog, jit_mode, degree, propagate, x0,
                                (x0, x0)),)
      if c32[0] is not None and len(c32[0]) == len(coefs):
        d = max(abs(float(u) - v) for u, v in zip(c32[0][i], (lo, hi)))
        if gap <= 1e3 * 2. ** -29 * d or not math.isfinite(d):
          ctx.count('suspects_within_roundoff')
          continue
      ctx.violation(f'coefficient {i} is [{lo!r}, {hi!r}] instead of {want!r}: '
                    f'{what}', coefs=coefs)
      return
  ctx.distinct('empty', prog.key(), degree, propagate, x0)


def case_attained(ctx):
  """One elementwise function with monotone derivative: sharp at the ends."""
  import autobound.jax as ab
  rng = ctx.rng
  ops = ['exp', 'log', 'sqrt', 'rsqrt', 'sigmoid', 'softplus', 'swish', 'abs',
         'pow', 'ipow_negative']
  op = ops[ctx.index % len(ops)]
  degree = int(rng.integers(0, progen.MAX_DEGREE.get(op, 6) + 1))
  x0, a, b = progen.random_region(rng)
  if op in ('log', 'sqrt', 'rsqrt', 'pow', 'ipow_negative') and a < .02:
    s = .02 - a
    x0, a, b = x0 + s, a + s, b + s
    x0 = min(max(x0, a), b)
  if op in ('sigmoid', 'softplus', 'swish') and rng.uniform() < .7:
    # Long regions are rarely monotone.
    c = float(rng.uniform(.05, .5))
    a, b = x0 - (x0 - a) * c, x0 + (b - x0) * c
    a, b = min(a, x0), max(b, x0)
  param, name, p = None, op, None
  if op == 'pow':
    param = p = float(rng.choice([-2.5, -1.5, .3, .5, 1.5, 2.5, 3.3]))
  elif op == 'ipow_negative':
    op, name, param = 'ipow', 'pow', int(rng.integers(-4, 0))
    p = param
  elif op in ('sqrt', 'rsqrt'):
    name, p = 'pow', {'sqrt': .5, 'rsqrt': -.5}[op]
  if not truth.monotone(name, degree, a, b, p):
    ctx.count('not_monotone')
    return
  prog = progen.Prog([('x', (), None), (op, (0,), param)],
                     [0, int(rng.integers(1000))])
  propagate = bool(rng.integers(2))
  what = (f'{prog} at x0={x0} on {(a, b)}, degree {degree}, '
          f'propagate={propagate}')
  ctx.describe(what)
  coefs = tb.coefficients(ctx.sut(lambda: ab.taylor_bounds(
      progen.to_jax(prog, int(rng.integers(2))), degree,
      propagate_trust_regions=propagate)(x0, (a, b))))
  for x in (a, b):
    t = progen.mp_value(prog, x)
    lo, hi = tb.scalar_bounds(coefs, np.float64(x - x0))
    s = max(float(abs(t)), float(tb.abs_terms(coefs, x - x0)))
    ctx.count('attained')
    # The displacement x - x0 is itself rounded: relative to |x|.
    slack = 1e-11 * s + 1e-13 * float(abs(truth.deriv(name, 1, x, p))) * (
        abs(x) + abs(x0))
    if min(abs(float(lo - t)), abs(float(hi - t))) > slack:
      ctx.violation(f'neither of the bounds [{lo!r}, {hi!r}] at the end point '
                    f'{x!r} of the region is attained: the value is '
                    f'{float(t)!r}: {what}', coefs=coefs)
      return
  ctx.distinct('attained', op, param, degree, x0, a, b, propagate)


KINDS = {
    'exact_scalar': (case_exact_scalar, 250, 6000),
    'exact_array': (case_exact_array, 80, 4000),
    'shrink': (case_shrink, 200, 6000),
    'shrink_array': (case_shrink_array, 32, 2000),
    'empty': (case_empty, 120, 5000),
    'attained': (case_attained, 300, 12000),
}
