"""P18: well-defined inputs give finite, ordered, non-NaN bounds."""
import math

import numpy as np
from lib import arrprog
from lib import mpm
from lib import progen
from lib import tb
from lib import truth
from lib.runner import SutError

PROPERTY = 'P18'
TECHNIQUE = ('runtime monitoring: NaN / infinity / order monitors on every '
             'coefficient and bound, over hostile magnitudes and widths; '
             'bracket oracle next to poles')
RULE = ('A case is one elementwise function at a hostile magnitude and width, '
        'a random program without reachable singularities, or a random program '
        'next to a pole, in double or single precision; non-trivial if '
        'coefficients were judged; distinct by function or program, degree, '
        'region and mode.')
REQUIRE = {'single_judged': 2000, 'program_coefficients': 200, 'points': 1000,
           'array_coefficients': 40, 'single_precision': 100,
           'evaluations': 400}

TOP = {'exp': 7, 'log': 7, 'sigmoid': 4, 'softplus': 5, 'swish': 4, 'abs': 1,
       'pow': 7}


def setup():
  tb.setup_jax()


def _judge(ctx, coefs, what, finite=True):
  """No NaN, no infinity, lower <= upper."""
  for i, (lo, hi) in enumerate(coefs):
    lo, hi = np.asarray(lo, float), np.asarray(hi, float)
    if finite and not np.all(np.isfinite(lo) & np.isfinite(hi)):
      ctx.violation(f'coefficient {i} is [{lo.tolist()}, {hi.tolist()}]: {what}')
      return False
    with np.errstate(all='ignore'):
      bad = lo > hi + 1e-5 * (np.abs(lo) + np.abs(hi)) + 1e-300
    if np.any(bad):
      ctx.violation(f'coefficient {i} has lower end {lo.tolist()} above '
                    f'{hi.tolist()}: {what}')
      return False
  return True


def _hostile(rng, name, p):
  """(x0, a, b) of any magnitude and width."""
  positive = name == 'log' or (name == 'pow' and p != int(p)) or (
      name == 'pow' and p < 0 and rng.uniform() < .5)
  r = rng.uniform()
  if r < .4:
    x0 = 10. ** rng.uniform(-300, 300)
  elif r < .7:
    x0 = 10. ** rng.uniform(-6, 6)
  elif r < .8:
    x0 = float(rng.integers(0, 4))
  else:
    x0 = float(rng.choice([30., 37., 88., 103., 110., 300., 700., 708., 745.,
                           746., 800., 1e4, 5e-324, 1e-310, 1e-16, 1e308]))
  if not positive and rng.uniform() < .5:
    x0 = -x0
  s = rng.uniform()
  if s < .15:
    a, b = x0, x0
  elif s < .3:
    k = int(rng.integers(1, 4))
    a = b = x0
    for _ in range(k):
      a, b = np.nextafter(a, -np.inf), np.nextafter(b, np.inf)
  elif s < .5:
    w = abs(x0) * 10. ** rng.uniform(-16, 0, 2)
    a, b = x0 - w[0], x0 + w[1]
  elif s < .7:
    w = 10. ** rng.uniform(-6, 3, 2)
    a, b = x0 - w[0], x0 + w[1]
  elif s < .85:
    w = 10. ** rng.uniform(-300, 300)
    a, b = x0 - w, x0 + w
  else:
    a, b = x0 - rng.uniform(0, 2), x0 + rng.uniform(0, 2)
  if rng.uniform() < .15:
    a = x0
  elif rng.uniform() < .15:
    b = x0
  if positive and a <= 0:
    a = x0 * float(rng.choice([.5, 1e-3, 1.]))
  if positive and not a > 0:
    a = x0 = 1.
    b = max(b, x0)
  return float(x0), float(a), float(b)


def _tame(name, p, degree, x0, a, b, big):
  """Whether everything the definition mentions is representable."""
  if not all(map(math.isfinite, (x0, a, b))):
    return False
  mpf = mpm.mpf
  # A width that underflows or overflows when it is raised to the degree makes
  # the coefficient itself meaningless.
  h = max(abs(a - x0), abs(b - x0))
  if max(mpf(h), 1) ** max(degree, 1) > big:
    return False
  if name == 'pow' and (p < 0 or p != int(p)) and a <= 0 <= b:
    return False
  # Nor can the remainder be divided by a power that underflows.
  for w in (a - x0, b - x0):
    if w != 0 and abs(mpf(w)) ** max(degree, 1) * big < 1:
      return False
  if any(0 < abs(x) < 1 / big for x in (x0, a, b)):
    return False
  pts = [x0, a, b] + ([0.] if a < 0 < b else [])
  for i in range(degree + 1):
    for x in pts:
      d = abs(truth.deriv(name, i, x, p))
      if d > big or d * max(mpf(h), 1) ** i > big:
        return False
  if name == 'pow':
    for x in pts:
      # Powers that the formulas go through.
      if x != 0 and (abs(mpf(x)) ** mpf(p) > big or abs(mpf(x)) ** (
          mpf(p) - degree) > big):
        return False
  if name == 'log':
    for x in pts:
      if mpf(x) ** -degree > big:
        return False
  return True


def case_single(ctx):
  """One elementwise function, hostile magnitudes and widths, both back ends."""
  import functools
  import jax
  import jax.numpy as jnp
  from autobound import primitive_enclosures as pe
  rng = ctx.rng
  names = ['exp', 'log', 'sigmoid', 'softplus', 'swish', 'abs', 'pow', 'pow']
  name = names[ctx.index % len(names)]
  degree = int(rng.integers(0, TOP[name] + 1))
  p = None
  single = (ctx.index // 8) % 4 == 3
  big = 1e30 if single else 1e280
  if name == 'pow':
    p = [int(rng.integers(-4, 9)), float(rng.choice(
        [-.5, .5, 1 / 3, 1.5, 2.5, -1.5, 4.5])), float(np.round(
            rng.normal() * 3, 2))][int(rng.integers(3))]
  fn = (functools.partial(pe.pow_enclosure, p) if p is not None else
        getattr(pe, name + '_enclosure'))
  regions = []
  for _ in range(60):
    r = _hostile(rng, name, p)
    if single:
      r = tuple(float(np.float32(v)) for v in r)
      if any(0 < abs(v) < 1e-30 for v in r):
        continue
    if _tame(name, p, degree, *r, big):
      regions.append(r)
    if len(regions) == 16:
      break
  if not regions:
    return
  x0, a, b = np.array(regions).T
  ctx.describe(f'{name}{"" if p is None else p} degree {degree} on '
               f'{regions[:3]}')
  runs = []
  with np.errstate(all='ignore'):
    if single:
      with jax.enable_x64(False):
        f4 = lambda v: jnp.asarray(v, jnp.float32)
        runs.append(('float32', ctx.sut(fn, f4(x0), (f4(a), f4(b)), degree,
                                        jnp)))
        runs[-1] = (runs[-1][0], [tb.as_pair(c) for c in runs[-1][1]])
        ctx.count('single_precision', len(regions))
    else:
      runs.append(('numpy', [tb.as_pair(c) for c in ctx.sut(
          fn, x0, (a, b), degree, np)]))
      if ctx.index % 2:
        runs.append(('jax', [tb.as_pair(c) for c in ctx.sut(
            fn, jnp.asarray(x0), (jnp.asarray(a), jnp.asarray(b)), degree,
            jnp)]))
  for backend, coefs in runs:
    for j, r in enumerate(regions):
      cj = [tuple(np.broadcast_to(e, x0.shape)[j] for e in c) for c in coefs]
      ctx.count('single_judged')
      if not _judge(ctx, cj, f'{name}{"" if p is None else f" {p}"} of degree '
                    f'{degree} at x0={r[0]!r} on [{r[1]!r}, {r[2]!r}], '
                    f'{backend}'):
        return
      ctx.distinct(name, p, degree, r, backend)


SAFE = ('neg', 'exp', 'ipow', 'sigmoid', 'softplus', 'swish', 'abs', 'add',
        'sub', 'mul')


def _evaluations(ctx, bound, x0, a, b, f_shape, what):
  """The library's own lower and upper bounds, and its final interval."""
  for x in (a, x0, b):
    lo = np.asarray(ctx.sut(bound.lower, x), float)
    hi = np.asarray(ctx.sut(bound.upper, x), float)
    ctx.count('evaluations')
    if not (np.all(np.isfinite(lo)) and np.all(np.isfinite(hi))):
      ctx.violation(f'bounds at {x} are {lo.tolist()}, {hi.tolist()}: {what}')
      return False
    scale = np.abs(lo) + np.abs(hi)
    _, _, mag = tb.array_bounds(tb.coefficients(bound), np.asarray(x) - x0)
    if np.any(lo > hi + 1e-5 * (scale + mag)):
      ctx.violation(f'the lower bound {lo.tolist()} is above the upper bound '
                    f'{hi.tolist()} at {x}: {what}')
      return False
  fi = ctx.sut(bound.final_interval)
  if not (isinstance(fi, tuple) and len(fi) == 2):
    ctx.violation(f'final_interval is {fi}: {what}')
    return False
  return True


def case_program(ctx):
  """Programs that cannot reach a singularity."""
  import autobound.jax as ab
  import jax
  rng = ctx.rng
  kind = int(rng.integers(4))
  degree = int(rng.choice([0, 1, 1, 2, 2, 3, 4]))
  if kind < 2:
    # No operation with a singularity.
    x0, a, b = progen.random_region(rng)
    x0, a, b = x0 / 2, x0 / 2 - min(x0 - a, 1.), x0 / 2 + min(b - x0, 1.)
    ops = SAFE
  else:
    # A small region, far from singularities.
    x0, a, b = progen.random_region(rng)
    h = 10. ** rng.uniform(-12, -4)
    a, b = x0 - h * (a < x0), x0 + h * (b > x0)
    ops = None
  def reachable(prog):
    # ipow with negative exponents, and degrees not offered
    return any(o == 'ipow' and p < 0 for o, _, p in prog.nodes)
  for _ in range(30):
    prog = progen.generate(rng, (a, b), x0, degree, ops=ops, smooth=False,
                           limit=50., margin=.1, n_ops=int(rng.integers(1, 7)))
    if ops is None or not reachable(prog):
      break
  else:
    return
  if ops is not None:
    # Constants are combined before x is: only exp can overflow, and with the
    # interval values limited to 50, enclosures of degree 4 stay below.
    pass
  jit_mode = int(rng.choice([0, 0, 1, 3]))
  propagate = bool(rng.integers(2))
  single = rng.uniform() < .25
  what = (f'{prog} at x0={x0!r} on {(a, b)}, degree {degree}, propagate='
          f'{propagate}{", float32" if single else ""}')
  ctx.describe(what)
  f = progen.to_jax(prog, jit_mode)
  run = lambda z, r: ctx.sut(lambda: ab.taylor_bounds(
      f, degree, propagate_trust_regions=propagate)(z, r))
  if single:
    f4 = np.float32
    with jax.enable_x64(False):
      z, u, v = f4(x0), f4(a), f4(b)
      u, v = min(u, z), max(v, z)
      bound = run(z, (u, v))
      coefs = tb.coefficients(bound)
      ok = _judge(ctx, coefs, what) and _evaluations(
          ctx, bound, z, u, v, (), what)
    ctx.count('single_precision')
  else:
    bound = run(x0, (a, b))
    coefs = tb.coefficients(bound)
    ok = _judge(ctx, coefs, what) and _evaluations(
        ctx, bound, x0, a, b, (), what)
  ctx.count('program_coefficients', len(coefs))
  if ok:
    ctx.distinct(prog.key(), degree, propagate, x0, a, b, single)


def case_array(ctx):
  from checks import p02
  rng = ctx.rng
  shape, dims = p02.FAMILIES[ctx.index % len(p02.FAMILIES)]
  degree = int(rng.choice([0, 1, 1, 2, 2, 3]))
  x0, a, b = p02.region(rng, shape)
  small = rng.uniform() < .5
  if small:
    h = 10. ** rng.uniform(-12, -4)
    a, b = x0 - h * (x0 - a), x0 + h * (b - x0)
  else:
    a, b = x0 - .3 * (x0 - a), x0 + .3 * (b - x0)
  g = arrprog.Generator(
      rng, a, b, dims=dims, conv=not shape, max_degree=degree, limit=9,
      magnitude=20., elementwise=arrprog.UNARY if small else
      ('neg', 'exp', 'sigmoid', 'softplus', 'swish'))
  prog = g.build(int(rng.integers(2, 6)))
  dep = [False] * len(prog.nodes)
  for i, (op, args, _) in enumerate(prog.nodes):
    dep[i] = op == 'x' or any(dep[j] for j in args)
    if not small and op == 'div' and dep[args[1]]:
      return
  propagate = bool(rng.integers(2))
  what = (f'{prog} at x0={x0.tolist()} on {a.tolist()}..{b.tolist()}, degree '
          f'{degree}, propagate={propagate}')
  ctx.describe(what)
  bound, _ = p02.run(ctx, prog, x0, a, b, degree, propagate, 0)
  coefs = tb.coefficients(bound)
  ctx.count('array_coefficients', len(coefs))
  if _judge(ctx, coefs, what) and _evaluations(
      ctx, bound, x0, a, b, prog.evaluate(x0)[0].shape, what):
    ctx.distinct(prog.key(), degree, propagate, x0.tobytes())


def case_pole(ctx):
  """Poles on or next to the region: infinite or NaN rather than wrong."""
  import autobound.jax as ab
  rng = ctx.rng
  degree = int(rng.choice([0, 1, 2, 2, 3, 4]))
  pole = float(np.round(rng.normal(), 1))
  sign = float(rng.choice([-1., 1.]))
  # sign * (x - pole) on a region with the pole inside, at an end, or next to it
  x0 = pole + sign * float(rng.uniform(.1, 2))
  near = float(rng.choice([0., 1e-6, 1e-3, -1e-9, -.3, .05]))
  far = float(rng.uniform(0, 2))
  ends = sorted([pole + sign * near, x0 + sign * far])
  a, b = min(ends[0], x0), max(ends[1], x0)
  nodes = [('x', (), None), ('c', (), pole), ('sub', (0, 1), None)]
  if sign < 0:
    nodes[2] = ('sub', (1, 0), None)
  op, param = [('log', None), ('sqrt', None), ('rsqrt', None), ('div', None),
               ('ipow', int(rng.integers(-4, 0))), ('pow', float(rng.choice(
                   [-1.5, .5, 1.5, 2.5, -.3])))][int(rng.integers(6))]
  if op == 'div':
    nodes += [('c', (), float(rng.choice([1., -2.]))), ('div', (3, 2), None)]
  else:
    nodes.append((op, (2,), param))
  tail = int(rng.integers(5))
  k = len(nodes) - 1
  if tail == 1:
    nodes += [('mul', (k, 0), None)]
  elif tail == 2:
    nodes += [('neg', (k,), None), ('add', (k + 1, 0), None)]
  elif tail == 3:
    nodes += [('ipow', (k,), 2)]
  elif tail == 4 and degree <= 4:
    nodes += [('sigmoid', (k,), None)]
  prog = progen.Prog(nodes, [int(rng.integers(1000)) for _ in nodes])
  propagate = bool(rng.integers(2))
  ctx.describe(f'{prog} at x0={x0} on {(a, b)}, degree {degree}, propagate='
               f'{propagate}')
  bound = ctx.sut(lambda: ab.taylor_bounds(
      progen.to_jax(prog), degree, propagate_trust_regions=propagate)(
          x0, (a, b)))
  coefs = tb.coefficients(bound)
  _judge(ctx, coefs, str(prog), finite=False)
  ctx.count('pole_informative', bool(np.isfinite(coefs[-1][0] + coefs[-1][1])))
  # The rounding of x - pole is magnified next to the pole.
  points = np.asarray(progen.sample_points(rng, x0, a, b))
  points = points[(points == pole) | (np.abs(points - pole) > 1e-7)]
  tb.check_scalar_soundness(
      ctx, prog, coefs, x0, (a, b), points,
      lambda: tb.float32_coefs(prog, 0, degree, propagate, x0, (a, b)))
  ctx.distinct('pole', prog.key(), degree, propagate, a, b)


KINDS = {
    'single': (case_single, 320, 12000),
    'program': (case_program, 200, 9000),
    'array': (case_array, 64, 3000),
    'pole': (case_pole, 80, 5000),
}
