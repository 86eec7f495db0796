"""P01: bounds of scalar functions hold over the whole trust region."""
import numpy as np
from lib import progen
from lib import tb
from lib.runner import SutError

PROPERTY = 'P01'
TECHNIQUE = ('runtime monitoring: bracket oracle (mpmath adjudicated) over '
             'random programs and regions')
RULE = ('A case is a random program of one scalar variable (arithmetic, '
        'powers, and elementwise functions in several spellings, optionally '
        'inside jax.jit or jax.grad), a reference point, a trust region and a '
        'degree; it is non-trivial if bounds were returned with finite values '
        'and compared with the true value at 20 or more points, and distinct '
        'by program, degree, propagation mode and region.')
REQUIRE = {'points': 5000, 'propagating_runs': 100, 'jit_runs': 50,
           'grad_points': 100, 'apart': 100}


def setup():
  tb.setup_jax()


def _degree(rng):
  return int(rng.choice([0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 4, 4, 4,
                         5, 5, 6, 7]))


def _run(ctx, prog, degree, propagate, jit_mode, x0, region):
  import autobound.jax as ab
  f = progen.to_jax(prog, jit_mode)
  b = ctx.sut(lambda: ab.taylor_bounds(
      f, degree, propagate_trust_regions=propagate)(x0, region))
  return b


def _judge(ctx, prog, b, degree, propagate, jit_mode, x0, region, n=24):
  coefs = tb.coefficients(b)
  xs = progen.sample_points(ctx.rng, x0, *region, n=n)
  tb.check_scalar_soundness(
      ctx, prog, coefs, x0, region, xs,
      lambda: tb.float32_coefs(prog, jit_mode, degree, propagate, x0, region))
  tb.check_description(ctx, b, x0, region, prog)
  # The library's own evaluation agrees with the coefficients.
  for x in (xs[0], xs[-1], xs[len(xs) // 3]):
    lo, hi = tb.scalar_bounds(coefs, x - x0)
    lib_lo, lib_hi = float(b.lower(x)), float(b.upper(x))
    s = 1e-10 * float(tb.abs_terms(coefs, x - x0))
    ctx.count('library_evaluations')
    if np.isfinite(lo + hi + s) and not (
        abs(lib_lo - lo) <= s and abs(lib_hi - hi) <= s):
      ctx.violation(f'lower/upper({x!r}) are {lib_lo}, {lib_hi}, but the '
                    f'coefficients give {lo}, {hi}', program=prog,
                    x0=x0, region=region, coefs=coefs)
  ctx.count('bounds')
  if all(np.isfinite(c).all() for pair in coefs for c in pair):
    ctx.count('finite_bounds')
    ctx.distinct(prog.key(), degree, propagate, jit_mode, region)
  for op in set(prog.ops()):
    ctx.count('op.' + op)
  ctx.count(f'degree.{degree}')
  ctx.describe(f'{prog} at x0={x0} on {region}, degree {degree}, '
               f'propagate={propagate}, jit={jit_mode}')


def case_program(ctx):
  """Random programs, all degrees, both propagation modes."""
  rng = ctx.rng
  x0, a, b = progen.random_region(rng)
  degree = _degree(rng)
  guard = rng.uniform() < .85
  prog = progen.generate(rng, (a, b), x0, degree, guard=guard, smooth=False)
  jit_mode = int(rng.choice([0, 0, 1, 2, 3]))
  propagate = bool(rng.integers(2))
  ctx.describe(f'{prog} at x0={x0} on {(a, b)}, degree {degree}, '
               f'propagate={propagate}, jit={jit_mode}')
  ctx.count('propagating_runs', propagate)
  ctx.count('jit_runs', jit_mode > 0)
  if guard:
    r = _run(ctx, prog, degree, propagate, jit_mode, x0, (a, b))
  else:
    # The function may be undefined everywhere, e.g. 1/0: this can be rejected.
    try:
      r = _run(ctx, prog, degree, propagate, jit_mode, x0, (a, b))
    except SutError:
      with np.errstate(all='ignore'):
        if np.isfinite(progen.evaluate(prog, np.float64(x0), progen.NpLib)):
          raise
      ctx.count('rejected_undefined')
      return
  _judge(ctx, prog, r, degree, propagate, jit_mode, x0, (a, b))


def case_apart(ctx):
  """Regions beside the reference point."""
  rng = ctx.rng
  x0, a, b = progen.random_region(rng, str(rng.choice(
      ['plain', 'wide', 'sym0', 'pos', 'left', 'right', 'asym'])))
  degree = _degree(rng)
  if ctx.index % 2:
    prog = progen.generate(rng, (a, b), x0, degree, smooth=False)
  else:
    op = ('sigmoid', 'softplus', 'swish', 'abs', 'exp', 'ipow')[
        ctx.index // 2 % 6]
    degree = min(degree, progen.MAX_DEGREE.get(op, 8))
    prog = progen.Prog([('x', (), None), (
        op, (0,), int(rng.integers(2, 6)) if op == 'ipow' else None)], [0, 0])
  # A part of one side.
  end = a if x0 - a > b - x0 else b
  u, v = np.sort(rng.uniform(.02, 1, 2) if rng.uniform() < .8 else [.3, .3])
  if rng.uniform() < .3:
    v = 1.
  lo, hi = sorted([float(x0 + u * (end - x0)), float(x0 + v * (end - x0))])
  jit_mode, propagate = int(rng.choice([0, 0, 1, 3])), bool(rng.integers(2))
  ctx.describe(f'{prog} at x0={x0} on {(lo, hi)}, degree {degree}, '
               f'propagate={propagate}, jit={jit_mode}')
  r = _run(ctx, prog, degree, propagate, jit_mode, x0, (lo, hi))
  ctx.count('apart')
  _judge(ctx, prog, r, degree, propagate, jit_mode, x0, (lo, hi))


def case_single(ctx):
  """One elementwise function, all degrees: dense points, hostile regions."""
  rng = ctx.rng
  ops = ['exp', 'log', 'sqrt', 'rsqrt', 'cbrt', 'sigmoid', 'softplus', 'swish',
         'abs', 'ipow', 'pow', 'ipow', 'pow']
  op = ops[ctx.index % len(ops)]
  top = progen.MAX_DEGREE.get(op, 8)
  degree = int(rng.integers(0, top + 1))
  x0, a, b = progen.random_region(rng)
  param = None
  if op == 'ipow':
    param = int(rng.integers(-4, 8))
  elif op == 'pow':
    param = progen.real_exponent(rng, (
        -2.5, -1.5, -.5, .3, .5, 1.5, 2.5, 3.3, 4.7, 1 / 3, 2 / 3))
  if op in ('log', 'sqrt', 'rsqrt', 'pow', 'cbrt') and rng.uniform() < .9:
    lo = float(rng.choice([1e-6, 1e-2, .1, .5]))
    if a < lo:
      x0, a, b = x0 - a + lo, lo, b - a + lo
      x0 = min(max(x0, a), b)
  nodes = [('x', (), None)]
  if rng.uniform() < .4:
    nodes += [('c', (), float(rng.choice([-1., 1., 2., .5]))),
              ('mul', (0, 1), None)]
  nodes.append((op, (len(nodes) - 1,), param))
  prog = progen.Prog(nodes, [int(rng.integers(1000)) for _ in nodes])
  jit_mode = int(rng.integers(0, 4))
  propagate = bool(rng.integers(2))
  ctx.describe(f'{prog} at x0={x0} on {(a, b)}, degree {degree}, '
               f'propagate={propagate}')
  ctx.count('propagating_runs', propagate)
  ctx.count('jit_runs', jit_mode > 0)
  r = _run(ctx, prog, degree, propagate, jit_mode, x0, (a, b))
  _judge(ctx, prog, r, degree, propagate, jit_mode, x0, (a, b), n=60)


def case_grad(ctx):
  """Bounds on jax.grad of a program."""
  import jax
  import autobound.jax as ab
  from lib import series, mpm
  rng = ctx.rng
  x0, a, b = progen.random_region(rng)
  degree = int(rng.integers(0, 4))
  ops = ('neg', 'exp', 'log', 'sqrt', 'rsqrt', 'ipow', 'sigmoid', 'add',
         'sub', 'mul', 'div')
  prog = progen.generate(rng, (a, b), x0, 0, ops=ops,
                         n_ops=int(rng.integers(1, 5)))
  jit_mode = int(rng.choice([0, 0, 1, 3]))
  f = progen.to_jax(prog, jit_mode)
  g = jax.grad(f)
  propagate = bool(rng.integers(2))
  ctx.describe(f'grad of {prog} at x0={x0} on {(a, b)}, degree {degree}')
  try:
    bound = ab.taylor_bounds(g, degree, propagate_trust_regions=propagate)(
        x0, (a, b))
  except NotImplementedError:
    ctx.count('grad_rejected')  # P14 judges rejection
    return
  except Exception as e:  # pylint: disable=broad-except
    # e.g. x**0 is differentiated to operations with integer arguments
    ctx.count('grad_rejected_otherwise')
    return
  coefs = tb.coefficients(bound)
  xs = progen.sample_points(rng, x0, a, b, n=12)
  xs = xs[rng.permutation(len(xs))[:12]]
  c32 = None
  for x in xs:
    try:
      t = progen.evaluate(prog, series.var(mpm.mpf(float(x)), 2),
                          progen.SeriesLib(2))[1]
    except (ZeroDivisionError, ValueError, OverflowError):
      continue
    gap, l, u = tb.mp_gap(coefs, mpm.mpf(float(x)) - mpm.mpf(x0), t)
    s = max(1., float(tb.abs_terms(coefs, x - x0)), float(abs(t)))
    ctx.count('grad_points')
    if gap > 1e-9 * s:
      if c32 is None:
        with jax.enable_x64(False):
          c32 = tb.coefficients(ab.taylor_bounds(
              jax.grad(progen.to_jax(prog, jit_mode)), degree,
              propagate_trust_regions=propagate)(
                  np.float32(x0), (np.float32(a), np.float32(b))))
      if gap > 1e-9 * s + tb.noise(coefs, c32, x - x0):
        ctx.violation(f'bounds on the gradient fail at x={x!r}: true value '
                      f'{float(t)!r}, bounds [{float(l)!r}, {float(u)!r}]',
                      program=prog, x0=x0, region=(a, b), coefs=coefs)
        return
  ctx.distinct('grad', prog.key(), degree, propagate)


KINDS = {
    'program': (case_program, 800, 20000),
    'single': (case_single, 260, 12000),
    'apart': (case_apart, 120, 5000),
    'grad': (case_grad, 60, 3000),
}
