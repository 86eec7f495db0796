"""P14: unsupported programs and arguments are rejected, never bounded wrongly."""
import math

import numpy as np
from lib import mpm
from lib import progen
from lib import tb
from lib import truth

PROPERTY = 'P14'
TECHNIQUE = ('runtime monitoring: raise-or-hold oracle (bounds that are returned '
             'are compared with JAX evaluation of the program) with injection of '
             'about 150 other operations, unsupported degrees and malformed '
             'arguments')
RULE = ('A case inserts one of about 150 JAX operations at a random place of a '
        'random program, on a dependent value (raise or hold) or on constants '
        '(must not raise), or asks for a random degree, or calls an entry point '
        'with a malformed argument (must raise); non-trivial if an exception '
        'was seen or bounds were compared; distinct by operation, program and '
        'degree.')
REQUIRE = {'rejected': 60, 'constant_programs': 60, 'held': 8,
           'malformed_rejected': 100, 'degree_rejected': 10, 'degree_held': 15,
           'constant_points': 400, 'integer_points': 700}
ASSUMPTIONS = ['Programs are evaluated by JAX itself.']

_T = {}
# Operations that only round their argument are the identity in exact arithmetic,
# and conversions between number types are supported: these are compared at the
# precision of the narrower type.
ROUNDING = {'to_float16': 4e-2}


def setup():
  from lib import otherops
  tb.setup_jax()
  _T.update(otherops.table())


def _region(rng, shape):
  x0 = np.round(rng.normal(size=shape), 2)
  ha, hb = rng.uniform(.05, 1., size=(2,) + shape)
  return x0, x0 - ha, x0 + hb


def _holds(ctx, f, bound, x0, a, b, what, counter, tol=1e-7):
  """Compares bounds with f at points of the region."""
  import jax
  coefs = tb.coefficients(bound)
  if any(np.iscomplexobj(e) for c in coefs for e in c):
    ctx.violation(f'accepted with complex coefficients {coefs}: {what}')
    return False
  pts = tb.sample_vector_points(ctx.rng, x0, a, b, 7)
  g = jax.jit(f)
  for x in pts:
    v = np.asarray(g(np.asarray(x, float)), float)
    lo, hi, mag = tb.array_bounds(coefs, np.asarray(x) - x0)
    try:
      np.broadcast_shapes(lo.shape, v.shape)
    except ValueError:
      ctx.violation(f'accepted with shape {lo.shape} instead of {v.shape}: '
                    f'{what}')
      return False
    ctx.count(counter)
    with np.errstate(all='ignore'):
      s = 1. + np.abs(v) + np.where(np.isfinite(mag), mag, 0.)
      bad = (np.maximum(lo - v, v - hi) > tol * s) & np.isfinite(v)
    if np.any(bad):
      ctx.violation(f'accepted, but the bounds [{lo.tolist()}, {hi.tolist()}] '
                    f'do not contain the value {v.tolist()} at '
                    f'x={np.asarray(x).tolist()}: {what}', x0=x0.tolist(),
                    region=(a.tolist(), b.tolist()), coefs=coefs)
      return False
  return True


def _pre(rng, shape, degree, a, b):
  """A supported function of x whose value has the wanted rank, moderate."""
  import jax.numpy as jnp
  r = int(rng.integers(4))
  k = float(np.round(rng.uniform(.5, 2.), 2)) * (1 if rng.uniform() < .7 else -1)
  c = float(np.round(rng.normal(), 2))
  if r == 0:
    return lambda x: x, 'x'
  if r == 1:
    return lambda x: k * x + c, f'{k}*x+{c}'
  if r == 2:
    return lambda x: x * x - c * x, f'x*x-{c}*x'
  return lambda x: jnp.exp(-x * .5) + k * x, f'exp(-.5 x)+{k}*x'


def _post(rng):
  import jax
  import jax.numpy as jnp
  return [
      (lambda v: v, 'v'), (lambda v: v * v, 'v*v'), (lambda v: 1. - v, '1-v'),
      (lambda v: jax.nn.sigmoid(v), 'sigmoid(v)'), (jnp.sum, 'sum(v)'),
      (lambda v: jnp.exp(.1 * v), 'exp(.1 v)'), (lambda v: v ** 3 + v, 'v**3+v'),
      (lambda v: jnp.reshape(v, (-1,)), 'reshape(v)'),
  ][int(rng.integers(8))]


def case_dependent(ctx):
  """An operation outside of the supported set, on a dependent value."""
  import autobound.jax as ab
  import jax
  import jax.numpy as jnp
  rng = ctx.rng
  names = sorted(_T)
  name = names[ctx.index % len(names)]
  fn, rank = _T[name]
  degree = int(rng.integers(0, 4))
  form = int(rng.integers(3 if not rank else 2))
  shape = (int(rng.integers(1, 4)),) if form != 2 else ()
  x0, a, b = _region(rng, shape)
  if form == 1:
    # A scalar, and an array made from it.
    x0, a, b = _region(rng, ())
    c = np.round(rng.normal(size=(int(rng.integers(1, 4)),)), 2)
    to_array = lambda v: v * c
  else:
    c = None
    to_array = lambda v: v
  (pre, sp), (post, so) = _pre(rng, shape, degree, a, b), _post(rng)
  wrap = int(rng.integers(4))
  g = fn
  if wrap == 1:
    g = jax.jit(fn)
  elif wrap == 2:
    inner = jax.jit(fn)
    g = jax.jit(lambda v: inner(v) + 0.)
  twice = rng.uniform() < .2
  def f(x):
    v = to_array(pre(x))
    y = post(g(v))
    if twice:
      y = y + post(g(v)) * .5
    return y
  propagate = bool(rng.integers(2))
  what = (f'{so} of v={name}({sp}{"" if c is None else f" * {c.tolist()}"}), '
          f'x0={x0.tolist()}, region {a.tolist()}..{b.tolist()}, degree '
          f'{degree}, propagate={propagate}, jit={wrap}')
  ctx.describe(what)
  try:
    bound = ab.taylor_bounds(f, degree, propagate_trust_regions=propagate)(
        x0, (a, b))
  except Exception as e:  # pylint: disable=broad-except
    ctx.count('rejected')
    ctx.count('rejected.' + type(e).__name__)
    ctx.distinct('rejected', name, sp, so, wrap, degree, propagate)
    return
  ctx.count('held')
  ctx.count('accepted.' + name)
  tol = ROUNDING.get(name, 1e-7)
  if _holds(ctx, f, bound, x0, a, b, what, 'dependent_points', tol):
    ctx.distinct('held', name, sp, so, wrap, degree, propagate)


def case_constant(ctx):
  """Operations on constants only must not be rejected."""
  import autobound.jax as ab
  import jax
  import jax.numpy as jnp
  rng = ctx.rng
  names = sorted(_T)
  name = names[ctx.index % len(names)]
  name2 = str(rng.choice(names))
  chain = rng.uniform() < .4
  degree = int(rng.integers(0, 4))
  vector = bool(rng.integers(2))
  x0, a, b = _region(rng, (2,) if vector else ())
  n = int(rng.integers(1, 4))
  c = np.round(rng.normal(size=(n,)), 2)
  wrap = int(rng.integers(5))

  def const(x):
    v = jnp.asarray(c)
    if wrap == 3:
      # A constant that is computed from the shape of x only.
      v = v * jnp.ones_like(x).sum()
    v = _T[name][0](v)
    if chain:
      v = _T[name2][0](jnp.atleast_1d(v))
    return v

  pre, sp = _pre(rng, (), degree, a, b)
  how = int(rng.integers(4))
  def body(x, v):
    y = pre(x)
    if how == 0:
      return y * jnp.sum(v)
    if how == 1:
      return jnp.sum(y) + v
    if how == 2:
      return jnp.sum(y) * v - v
    return y + jnp.mean(v) * y * y

  def f(x):
    if wrap == 1:
      return body(x, jax.jit(const)(x))
    if wrap == 2:
      return jax.jit(lambda z: body(z, const(z)))(x)
    if wrap == 4:
      return body(x, jax.jit(lambda: const(x))())
    return body(x, const(x))

  try:
    v = np.asarray(jax.jit(const)(jnp.asarray(x0)))
  except Exception:  # pylint: disable=broad-except
    ctx.count('constant_not_computable')  # e.g. linear algebra of rank 3
    return
  if not (np.all(np.isfinite(v)) and np.max(np.abs(v), initial=0.) < 1e6):
    return
  propagate = bool(rng.integers(2))
  what = (f'{name}{" then " + name2 if chain else ""} of the constant '
          f'{c.tolist()} combined ({how}) with {sp}, x0={x0.tolist()}, region '
          f'{a.tolist()}..{b.tolist()}, degree {degree}, propagate={propagate}, '
          f'wrap={wrap}')
  ctx.describe(what)
  bound = ctx.sut(lambda: ab.taylor_bounds(
      f, degree, propagate_trust_regions=propagate)(x0, (a, b)))
  ctx.count('constant_programs')
  if _holds(ctx, f, bound, x0, a, b, what, 'constant_points'):
    ctx.distinct('constant', name, chain and name2, sp, how, wrap, degree)


def case_degree(ctx):
  """Any degree: raise or hold."""
  import autobound.jax as ab
  rng = ctx.rng
  degree = int(rng.choice([0, 1, 2, 2, 3, 4, 5, 5, 6, 6, 7]))
  x0, a, b = progen.random_region(rng)
  op = ('abs', 'sigmoid', 'softplus', 'swish', 'exp', 'log')[ctx.index % 6]
  prog = progen.generate(rng, (a, b), x0, 0, smooth=False,
                         n_ops=int(rng.integers(1, 4 if degree < 5 else 2)))
  nodes, style = list(prog.nodes), list(prog.style)
  if op == 'log':
    # Keep it positive.
    nodes += [('sigmoid', (len(nodes) - 1,), None)]
    style += [1]
  nodes.append((op, (len(nodes) - 1,), None))
  style.append(int(rng.integers(1000)))
  prog = progen.Prog(nodes, style)
  jit_mode = int(rng.choice([0, 1, 3]))
  propagate = bool(rng.integers(2))
  what = f'{prog} at x0={x0} on {(a, b)}, degree {degree}'
  ctx.describe(what)
  supported = degree <= prog.max_degree()
  try:
    bound = ab.taylor_bounds(progen.to_jax(prog, jit_mode), degree,
                             propagate_trust_regions=propagate)(x0, (a, b))
  except Exception as e:  # pylint: disable=broad-except
    if supported:
      ctx.violation(f'rejected with {type(e).__name__}: {what}')
    ctx.count('degree_rejected')
    ctx.distinct('degree', prog.key(), degree)
    return
  ctx.count('degree_held')
  ctx.count('degree_beyond_table', not supported)
  tb.check_scalar_soundness(
      ctx, prog, tb.coefficients(bound), x0, (a, b),
      progen.sample_points(rng, x0, a, b), lambda: tb.float32_coefs(
          prog, jit_mode, degree, propagate, x0, (a, b)))
  ctx.distinct('degree', prog.key(), degree)


def case_integers(ctx):
  """Reference points and regions given as integers: raise or hold."""
  import autobound.jax as ab
  import jax
  import jax.numpy as jnp
  rng = ctx.rng
  kinds = ('uint8', 'int8', 'uint16', 'int16', 'uint32', 'int32', 'uint64',
           'int64', 'python')
  dtype = kinds[ctx.index % len(kinds)]
  shape = () if dtype == 'python' or rng.uniform() < .5 else (
      int(rng.integers(1, 4)),)
  lo = 1 if dtype[0] == 'u' or rng.uniform() < .5 else -4
  a = rng.integers(lo, lo + 4, size=shape)
  b = a + rng.integers(0, 5, size=shape)
  x0 = np.where(rng.uniform(size=shape) < .5, a, rng.integers(a, b + 1))
  form = int(rng.integers(3))
  as_type = (lambda v: int(v)) if dtype == 'python' else (
      lambda v: jnp.asarray(v, dtype) if form else np.asarray(v, dtype))
  region = tuple(as_type(v) for v in (a, b))
  if rng.uniform() < .3:
    region = (a.astype(float), b.astype(float))
  k = int(rng.integers(2, 7))
  fs = {
      'x*x': lambda x: x * x, f'{k}-x': lambda x: k - x, '-x': lambda x: -x,
      f'x/{k}': lambda x: x / k, f'{k}/x': lambda x: k / x,
      'exp(x/4)': lambda x: jnp.exp(x / 4), 'log': jnp.log, 'sqrt': jnp.sqrt,
      'sigmoid': jax.nn.sigmoid, 'softplus': jax.nn.softplus,
      'swish(2-x)': lambda x: jax.nn.swish(2 - x),
      f'abs(x-{k})': lambda x: jnp.abs(x - k),
      f'x**3-{k}*x*x': lambda x: x ** 3 - k * x * x,
      f'{k * 20}*x': lambda x: k * 20 * x, 'x**-2.': lambda x: x ** -2.,
      'x*x/2-sum(x)': lambda x: x * x / 2 - jnp.sum(x), 'x': lambda x: x,
      'log(x*x*x*x)': lambda x: jnp.log(x * x * x * x),
  }
  names = list(fs)
  name = names[int(rng.integers(len(names)))]
  f = fs[name]
  degree = int(rng.integers(0, 4))
  what = (f'{name} at the {dtype} x0={x0.tolist()} over '
          f'{a.tolist()}..{b.tolist()} ({region[0]!r}), degree {degree}')
  ctx.describe(what)
  try:
    bound = ab.taylor_bounds(f, degree)(as_type(x0), region)
  except Exception:  # pylint: disable=broad-except
    ctx.count('integers_rejected')
    return
  if _holds(ctx, f, bound, x0.astype(float), a.astype(float), b.astype(float),
            what, 'integer_points', 1e-4):
    for x in (a, b):
      # The bounds themselves, evaluated at an integer.
      got = bound(as_type(x))
      got = [np.asarray(e, float) for e in (
          got if isinstance(got, tuple) else (got, got))]
      ref = tb.array_bounds(tb.coefficients(bound), np.asarray(x - x0, float))
      with np.errstate(all='ignore'):
        s = 1. + np.abs(ref[2])
        bad = np.maximum(got[0] - ref[0], ref[1] - got[1]) > 1e-4 * s
      if np.any(bad):
        ctx.violation(f'evaluated at {x.tolist()}, the bounds are {got} instead '
                      f'of {ref[:2]}: {what}')
        return
    ctx.distinct('integers', name, dtype, degree, form, x0.tolist())


def _rejects(ctx, what, fn, *args, **kw):
  try:
    r = fn(*args, **kw)
  except Exception:  # pylint: disable=broad-except
    ctx.count('malformed_rejected')
    return
  ctx.violation(f'{what} did not raise but returned {str(r)[:300]}')


def case_malformed(ctx):
  """Malformed arguments must raise."""
  import autobound.jax as ab
  import jax
  import jax.numpy as jnp
  from autobound import elementwise_functions as ef
  from autobound import enclosure_arithmetic as ea
  from autobound import graph_editor as ge
  from autobound import interval_arithmetic as ia
  from autobound import polynomials as po
  from autobound import primitive_enclosures as pe
  from autobound.jax import jaxpr_editor as je
  rng = ctx.rng
  xp = [np, jnp][ctx.index % 2]
  n, m = int(rng.integers(2, 4)), int(rng.integers(4, 7))
  r = lambda *s: np.round(rng.normal(size=s), 2)
  iv = lambda *s: (lambda v: (v - 1., v + 1.))(r(*s))
  d = int(rng.integers(1, 5))
  f = [jnp.exp, lambda x: x * x, lambda x: jnp.sum(x) + x][int(rng.integers(3))]

  # taylor_bounds
  _rejects(ctx, f'taylor_bounds of degree {-d}', ab.taylor_bounds, f, -d)
  x0 = r(n)
  _rejects(ctx, 'a trust region with ends of different shapes',
           ab.taylor_bounds(f, d), x0, (x0 - 1, r(m) + 5))
  _rejects(ctx, 'a trust region of a different length',
           ab.taylor_bounds(f, d), x0, (r(m) - 9, r(m) + 9))
  _rejects(ctx, 'a reference point of rank 2', ab.taylor_bounds(f, d), r(n, n),
           iv(n, n))
  _rejects(ctx, 'a non-integral degree',
           lambda: ab.taylor_bounds(f, d + .5)(x0, (x0 - 1, x0 + 1)))
  if n > 1:
    _rejects(ctx, 'a function with two values',
             lambda: ab.taylor_bounds(lambda x: (x, x * x), d)(
                 x0, (x0 - 1, x0 + 1)))
  # Enclosure arithmetic.
  _rejects(ctx, 'an arithmetic with a malformed region',
           ea.TaylorEnclosureArithmetic, d, (r(n), r(m)), xp)
  _rejects(ctx, 'an arithmetic of non-integral degree',
           ea.TaylorEnclosureArithmetic, d + .5, iv(n), xp)
  arith = ea.TaylorEnclosureArithmetic(d, iv(n), xp)
  good = (r(2), r(2, n))
  for pos in (1, 2):
    bad = list((r(2), r(2, n), r(2, n, n))[:pos] + (r(2, *([m] * pos)),))
    if rng.uniform() < .5:
      bad[-1] = (bad[-1], bad[-1] + 1.)
    bad = tuple(bad)
    for name in ('multiply', 'power', 'divide'):
      if name == 'power':
        _rejects(ctx, f'power of coefficients of the wrong shape', arith.power,
                 bad, int(rng.integers(1, 4)))
      else:
        args = (bad, good) if rng.uniform() < .5 or name == 'divide' else (
            good, bad)
        _rejects(ctx, f'{name} of coefficients of the wrong shape',
                 getattr(arith, name), *args)
  _rejects(ctx, 'composition with nothing', arith.compose_enclosures, (), good)
  # Intervals and polynomials.
  s = ia.IntervalArithmetic(xp)
  _rejects(ctx, 'a negative power of an interval', s.power, iv(n), -d)
  _rejects(ctx, 'a negative outer power', s.outer_power,
           iv(n) if rng.integers(2) else r(n), -d)
  _rejects(ctx, 'a negative outer power', s.outer_power,
           iv() if rng.integers(2) else xp.asarray(r()), -d)
  _rejects(ctx, 'an outer product with too many batch dimensions',
           s.outer_product, iv(n), r(n, 2), 2)
  _rejects(ctx, 'an outer product with too many batch dimensions',
           s.outer_product, iv(n, 2), r(n), 2)
  _rejects(ctx, 'a negative power of a polynomial', po.integer_power,
           (1., 2.), -d, lambda u, v: u + v, 0, 1,
           lambda p, q, i, j: p * q, lambda p, i, j: p ** j,
           lambda k, c: k * c)
  # Elementwise enclosures.
  _rejects(ctx, 'too few Taylor coefficients', pe.bounded_derivative_enclosure,
           d + 1, [xp.asarray(1.)] * d, (xp.asarray(0.), xp.asarray(1.)))
  _rejects(ctx, 'too many Taylor coefficients', pe.bounded_derivative_enclosure,
           d, [xp.asarray(1.)] * (d + 1), (xp.asarray(0.), xp.asarray(1.)))
  _rejects(ctx, 'too few Taylor coefficients', pe.taylor_remainder_ratio,
           xp.asarray(0.), d, xp.exp, [xp.asarray(1.)] * d, xp.asarray(1.), xp)
  _rejects(ctx, 'a sharp enclosure of negative degree',
           pe.sharp_enclosure_monotonic_derivative, xp.asarray(0.), -d, iv(),
           xp.exp, [], True, xp)
  for name, top in (('abs', 1), ('sigmoid', 4), ('softplus', 5), ('swish', 4)):
    k = top + d
    try:
      c = getattr(pe, name + '_enclosure')(
          xp.asarray(.3), (xp.asarray(-1.2), xp.asarray(2.5)), k, xp)
    except Exception:  # pylint: disable=broad-except
      ctx.count('malformed_rejected')
    else:
      for x in (-1.2, -.5, 0., 1., 2.5):
        lo, hi = tb.scalar_bounds([tb.as_pair(v) for v in c], x - .3)
        t = float(truth.deriv(name, 0, x))
        if not lo - 1e-9 <= t <= hi + 1e-9:
          ctx.violation(f'{name}_enclosure of degree {k} returned {c}, which '
                        f'does not contain the value {t} at {x}')
          return
  for fid, top in ((ef.ABS, 1), (ef.SIGMOID, 4), (ef.SOFTPLUS, 5),
                   (ef.SWISH, 4)):
    k = top + d
    x = float(np.round(rng.normal() * 2, 2)) or .5
    fid_k = fid.derivative_id(k)
    try:
      v = float(ef.get_function(fid_k, xp)(xp.asarray(x)))
    except Exception:  # pylint: disable=broad-except
      ctx.count('malformed_rejected')
    else:
      t = float(truth.deriv(fid.name, k, x))
      if not abs(v - t) <= 1e-9 * (1 + abs(t)):
        ctx.violation(f'derivative {k} of {fid.name} at {x} is given as {v}, '
                      f'it is {t}')
        return
  _rejects(ctx, 'an unknown function', ef.get_function, ef.FunctionId('verif'),
           xp)
  _rejects(ctx, 'an unknown function', ef.get_function_data,
           ef.FunctionId('verif'))
  # Editors.
  op = ge.Operation('o', ['a'], ['b'])
  graph = ge.ComputationGraph(['a'], ['b'], [op])
  _rejects(ctx, 'an empty pattern', ge.replace, [], [op], graph,
           lambda u, v: True)
  j1 = jax.make_jaxpr(jnp.exp)(0.).jaxpr
  j2 = jax.make_jaxpr(lambda x, y: x + y)(0., 1.).jaxpr
  j3 = jax.make_jaxpr(lambda x: (x + 1, x))(0.).jaxpr
  _rejects(ctx, 'replacement with another number of inputs', je.replace, j1, j2,
           j1)
  _rejects(ctx, 'replacement with another number of outputs', je.replace, j1,
           j3, j1)
  c = jnp.asarray(r(m))
  j4 = jax.make_jaxpr(lambda x: x + c)(0.).jaxpr
  if j4.constvars:
    ctx.count('captured_constants')
    _rejects(ctx, 'a pattern with constants', je.replace, j4, j1, j1)
    _rejects(ctx, 'a replacement with constants', je.replace, j1, j4, j1)
  ctx.describe(f'malformed arguments, degree {d}, sizes {n} and {m}, '
               f'{xp.__name__}')
  ctx.distinct('malformed', d, n, m, xp.__name__, ctx.index)


KINDS = {
    'dependent': (case_dependent, 480, 9000),
    'constant': (case_constant, 160, 6000),
    'degree': (case_degree, 100, 5000),
    'integers': (case_integers, 180, 4000),
    'malformed': (case_malformed, 16, 300),
}
