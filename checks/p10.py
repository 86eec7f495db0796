"""P10: the numpy and JAX back ends give the same answers."""
import math

import numpy as np
from lib import tb

PROPERTY = 'P10'
TECHNIQUE = ('runtime monitoring: differential - the same call is run under '
             'numpy and JAX, in double and single precision, and structure, '
             'shape, type, precision and values are compared')
RULE = ('A case is one building-block call (interval operation, enclosure '
        'operation chain, evaluation, elementwise enclosure or function table '
        'query) on random operands of all accepted kinds, run as numpy float64, '
        'JAX float64 on numpy and on JAX arrays, numpy float32, JAX float32 with '
        'and without 64-bit mode; non-trivial if at least three runs were '
        'compared; distinct by call and operands.')
ASSUMPTIONS = ['numpy and XLA elementary functions are accurate to a few ulp']
REQUIRE = {'runs': 4000, 'values': 20000, 'dtype_checks': 4000,
           'kind.interval': 400, 'kind.enclosure': 300, 'kind.function': 300,
           'kind.table': 150}


def setup():
  tb.setup_jax()


def _jnp():
  import jax.numpy as jnp
  return jnp


def _conv(x, kind):
  """Operands (nested tuples of numpy arrays and numbers) for one run."""
  if isinstance(x, tuple):
    return tuple(_conv(v, kind) for v in x)
  if isinstance(x, np.ndarray):
    if kind in ('np64', 'jax64np'):
      return x.copy()
    if kind == 'np32':
      return x.astype(np.float32) if x.dtype == np.float64 else x.copy()
    if kind == 'jax64':
      return _jnp().asarray(x)
    if kind == 'jax32np':
      return x.astype(np.float32) if x.dtype == np.float64 else x.copy()
    return _jnp().asarray(x.astype(np.float32) if x.dtype == np.float64 else x)
  return x


def _arrays(x):
  """Operands with numpy scalars (say, 0-d arrays plus 1.) as arrays again."""
  if isinstance(x, (tuple, list)):
    return type(x)(_arrays(v) for v in x)
  return np.asarray(x) if isinstance(x, np.generic) else x


def _leaves(x):
  if isinstance(x, (tuple, list)):
    return [v for y in x for v in _leaves(y)]
  return [x]


def _structure(x):
  if isinstance(x, (tuple, list)):
    return tuple(_structure(v) for v in x)
  return np.shape(x)


def _has_float_array(x):
  return any(isinstance(v, np.ndarray) and v.dtype == np.float64
             for v in _leaves(x))


def _same(a, b):
  return all(np.array_equal(v, w, equal_nan=True) and type(v) is type(w)
             for v, w in zip(_leaves(a), _leaves(b)))


def compare(ctx, kind, what, fn, operands, scale, singles=True, noise=None):
  """Runs fn(np_like, *operands) under every back end.

  scale: magnitude of the computation, per element or overall.  noise: like the
  result, extra allowance in units of the relative roundoff (or None).
  """
  import jax
  jnp = _jnp()
  ctx.describe(what)
  ctx.count('kind.' + kind)
  operands = _arrays(operands)
  before = _conv(operands, 'np64')
  with np.errstate(all='ignore'):
    want = ctx.sut(fn, np, *operands)
  if not _same(before, operands):
    ctx.violation(f'operands were modified under numpy: {what}')
    return False
  for v in _leaves(want):
    if isinstance(v, jax.Array):
      ctx.violation(f'a JAX array is returned under numpy: {what}')
      return False
  shape = _structure(want)
  wl = [np.asarray(v) for v in _leaves(want)]
  nl = [np.asarray(v) for v in _leaves(noise)] if noise is not None else None
  if nl is not None and len(nl) != len(wl):
    nl = None
  runs = ['jax64np', 'jax64']
  if singles:
    runs += ['np32', 'jax32', 'jax32off', 'jax32np']
  runs = [runs[i] for i in ctx.rng.permutation(len(runs))[:3]]
  floats = _has_float_array(operands)
  for run in runs:
    np_like = np if run == 'np32' else jnp
    with jax.enable_x64(run != 'jax32off'):
      ops = _conv(operands, run)
      with np.errstate(all='ignore'):
        got = ctx.sut(fn, np_like, *ops)
    ctx.count('runs')
    if _structure(got) != shape:
      ctx.violation(f'{run}: structure {_structure(got)}, numpy gives {shape}: '
                    f'{what}', numpy=want, got=got)
      return False
    single = '32' in run
    eps = 2.**-24 if single else 2.**-53
    for i, (v, w) in enumerate(zip(_leaves(got), wl)):
      dtype = np.asarray(v).dtype
      weak = getattr(v, 'weak_type', False)
      v = np.asarray(v)
      # Precision.
      if floats and not weak and np.issubdtype(dtype, np.floating):
        ctx.count('dtype_checks')
        if not single and dtype != np.float64:
          ctx.violation(f'{run}: float64 operands give {dtype}: {what}', got=got)
          return False
        if run.startswith('jax32') and dtype != np.float32:
          ctx.violation(f'{run}: float32 operands give {dtype}: {what}', got=got)
          return False
      if dtype.kind != w.dtype.kind and {dtype.kind, w.dtype.kind} != {'i', 'f'}:
        ctx.violation(f'{run}: type {dtype}, numpy gives {w.dtype}: {what}')
        return False
      if dtype == bool:
        bad = v != w
      else:
        v, w = v.astype(float), w.astype(float)
        tol = 64 * eps * np.maximum(scale, np.where(np.isfinite(w), abs(w), 0))
        if nl is not None:
          tol = tol + eps * nl[i]
        tol = np.where(np.isfinite(tol), tol, np.inf)
        with np.errstate(invalid='ignore'):
          bad = ~((v == w) | (np.abs(v - w) <= tol) |
                  (np.isnan(v) & np.isnan(w)))
        if single:  # overflow
          bad &= ~(np.abs(w) > 1e30)
      ctx.count('values', v.size)
      if np.any(bad):
        j = np.argwhere(bad)[0]
        ctx.violation(f'{run}: value {v[tuple(j)]!r}, numpy gives '
                      f'{w[tuple(j)]!r} (leaf {i}, index {j.tolist()}): {what}',
                      numpy=want, got=got)
        return False
  ctx.distinct(what)
  return True


# --- interval operations -------------------------------------------------------


def _vals(rng, shape):
  k = int(rng.integers(4))
  if k == 0:
    return np.asarray(rng.integers(-3, 4, shape), float)
  if k == 1:
    return np.asarray(rng.integers(-16, 17, shape) / 8.)
  if k == 2:
    return np.asarray(rng.integers(0, 5, shape) / 2.)
  return np.asarray(-rng.integers(0, 5, shape) / 2.)


def _num(rng, v):
  """An array, or a number if v is a scalar."""
  if v.shape == () and rng.uniform() < .5:
    if v == int(v) and rng.uniform() < .5:
      return int(v)
    return float(v)
  if rng.uniform() < .1 and np.all(v == np.round(v)):
    return v.astype(int)
  return v


def _operand(rng, shape, p=.6):
  if rng.uniform() < p:
    a, b = _vals(rng, shape), _vals(rng, shape)
    if rng.uniform() < .15:
      b = a
    return (_num(rng, np.asarray(np.minimum(a, b))),
            _num(rng, np.asarray(np.maximum(a, b))))
  return _num(rng, _vals(rng, shape))


def _mag(x):
  return max([float(np.max(np.abs(v), initial=0.)) for v in _leaves(x)])


def _broadcastable(rng):
  n = int(rng.integers(0, 4))
  full = ((), (3,), (3, 2), (2, 1, 3))[n]
  def sub():
    s = full[int(rng.integers(0, n + 1)) if rng.uniform() < .4 else 0:]
    return tuple(1 if rng.uniform() < .2 else d for d in s)
  return sub(), sub()


def case_interval(ctx):
  from autobound import interval_arithmetic
  rng = ctx.rng
  IA = interval_arithmetic.IntervalArithmetic
  op = str(rng.choice(['add', 'subtract', 'multiply', 'negative', 'power',
                       'outer_product', 'outer_power', 'tensordot', 'matmul',
                       'einsum', 'misc']))
  if op in ('add', 'subtract', 'multiply'):
    sa, sb = _broadcastable(rng)
    args = (_operand(rng, sa), _operand(rng, sb))
    fn = lambda npl, a, b: getattr(IA(npl), op)(a, b)
    what = op
  elif op == 'negative':
    args = (_operand(rng, _broadcastable(rng)[0]),)
    fn = lambda npl, a: IA(npl).negative(a)
    what = op
  elif op == 'power':
    n = int(rng.integers(0, 7))
    args = (_operand(rng, _broadcastable(rng)[0]),)
    n2 = float(n) if rng.uniform() < .2 else n
    fn = lambda npl, a: IA(npl).power(a, n2)
    what = f'power {n2!r}'
  elif op == 'outer_power':
    n = int(rng.integers(0, 4))
    s = tuple(int(d) for d in rng.integers(1, 4, int(rng.integers(0, 3))))
    bd = int(rng.integers(0, len(s) + 1)) if rng.uniform() < .4 else 0
    args = (_operand(rng, s),)
    fn = lambda npl, a: IA(npl).outer_power(a, n, bd)
    what = f'outer_power {n}, {bd} batch dims'
  elif op == 'outer_product':
    bd = int(rng.integers(0, 3))
    b = tuple(int(d) for d in rng.integers(1, 4, bd))
    sa, sb = [b + tuple(int(d) for d in rng.integers(1, 4, int(
        rng.integers(0, 3)))) for _ in range(2)]
    args = (_operand(rng, sa), _operand(rng, sb))
    fn = lambda npl, a, b: IA(npl).outer_product(a, b, bd)
    what = f'outer_product, {bd} batch dims'
  elif op == 'tensordot':
    k = int(rng.integers(0, 3))
    c = tuple(int(d) for d in rng.integers(1, 4, k))
    sa = tuple(int(d) for d in rng.integers(1, 4, int(rng.integers(0, 2)))) + c
    sb = c + tuple(int(d) for d in rng.integers(1, 4, int(rng.integers(0, 2))))
    args = (_operand(rng, sa), _operand(rng, sb))
    fn = lambda npl, a, b: IA(npl).tensordot(a, b, k)
    what = f'tensordot {k}'
  elif op in ('matmul', 'einsum'):
    n, m, p = [int(d) for d in rng.integers(1, 4, 3)]
    args = (_operand(rng, (n, m)), _operand(rng, (m, p)))
    if op == 'matmul':
      fn = lambda npl, a, b: IA(npl).arbitrary_bilinear(a, b, npl.matmul)
    else:
      fn = lambda npl, a, b: IA(npl).arbitrary_bilinear(
          a, b, lambda x, y: npl.einsum('ij,jk->ik', x, y))
    what = op
  else:
    args = (_operand(rng, _broadcastable(rng)[0]),)
    fn = lambda npl, a: (
        IA(npl).as_interval_or_ndarray(a), int(IA(npl).ndim(a)),
        tuple(int(d) for d in IA(npl).shape(a)),
        IA(npl).as_interval(a if isinstance(a, tuple) else (a, a)))
    what = 'as_interval, shape, ndim'
  m = max(1., max(_mag(a) for a in args))
  compare(ctx, 'interval', f'{what} of {args!r}', fn, args, 30 * m ** 6)


# --- enclosures ----------------------------------------------------------------


def _coef(rng, shape, p):
  return _operand(rng, shape, p)


def _enclosure(rng, vshape, xshape, n):
  return tuple(_coef(rng, vshape + xshape * i, .7 if i == n - 1 else .25)
               for i in range(n))


def _region(rng, xshape):
  a = np.asarray(-(rng.integers(0, 9, xshape) / 4.))
  b = np.asarray(rng.integers(0, 9, xshape) / 4.)
  if xshape == () and rng.uniform() < .5:
    return float(a), float(b)
  return a, b


def _size(e, h):
  """A majorant of the values of an enclosure over |x - x0| <= h."""
  return sum(_mag(c) * np.size(_leaves(c)[0]) * max(h, 1.) ** i
             for i, c in enumerate(e)) + 1.


def case_enclosure(ctx):
  from autobound import enclosure_arithmetic as ea
  from autobound import polynomials
  rng = ctx.rng
  xshape = [(), (), (2,)][int(rng.integers(3))]
  vshape = ((), (2,), (1, 2))[int(rng.integers(3))]
  degree = int(rng.integers(0, 4))
  region = _region(rng, xshape)
  h = max(1., _mag(region)) * max(1, len(xshape) * 3)
  cap = 4 if not xshape else 3
  a = _enclosure(rng, vshape, xshape, int(rng.integers(1, cap + 1)))
  b = _enclosure(rng, vshape if rng.uniform() < .7 else (), xshape,
                 int(rng.integers(1, cap + 1)))
  A = lambda npl, r: ea.TaylorEnclosureArithmetic(degree, r, npl)
  op = str(rng.choice(['add', 'subtract', 'multiply', 'power', 'negative',
                       'chain', 'lower', 'evaluate', 'bilinear', 'map',
                       'expand', 'elementwise evaluate']))
  ma, mb = _size(a, h), _size(b, h)
  args = (a, b, region)
  if op in ('add', 'subtract', 'multiply'):
    fn = lambda npl, a, b, r: getattr(A(npl, r), op)(a, b)
    scale = ma * mb
  elif op == 'power':
    n = int(rng.integers(0, 5 if not xshape else 4))
    op += f' {n}'
    fn = lambda npl, a, b, r: A(npl, r).power(a, n)
    scale = ma ** n
  elif op == 'negative':
    fn = lambda npl, a, b, r: A(npl, r).negative(a)
    scale = ma
  elif op == 'chain':
    def fn(npl, a, b, r):
      s = A(npl, r)
      return s.subtract(s.multiply(s.add(a, b), b), s.power(a, 2))
    scale = (ma + mb) ** 2 * 2
  elif op == 'lower':
    d = int(rng.integers(0, 3))
    fn = lambda npl, a, b, r: ea.enclose_enclosure(a, r, d, npl)
    scale = ma
  elif op == 'evaluate':
    at = region if rng.uniform() < .5 else region[0]
    args = (a, b, at)
    fn = lambda npl, a, b, r: polynomials.eval_taylor_enclosure(a, r, npl)
    scale = ma
  elif op == 'elementwise evaluate':
    a = tuple(_coef(rng, (2,), .5) for _ in range(int(rng.integers(1, 5))))
    at = _operand(rng, (2,) if rng.uniform() < .6 else (), .5)
    args = (a, b, at)
    fn = lambda npl, a, b, r: polynomials.eval_elementwise_taylor_enclosure(
        a, r, npl)
    scale = _size(a, 4.)
  elif op == 'bilinear':
    n, m, k = ((1, 2, 1), (2, 1, 2))[int(rng.integers(2))]
    a = _enclosure(rng, (n, m), xshape, int(rng.integers(1, cap)))
    b = _enclosure(rng, (m, k), xshape, int(rng.integers(1, cap)))
    args = (a, b, region)
    def fn(npl, a, b, r):
      def bil(u, v, p, q):
        u, v = npl.asarray(u), npl.asarray(v)
        x = [chr(ord('p') + i) for i in range(p)]
        y = [chr(ord('A') + i) for i in range(q)]
        return npl.einsum(f"ij{''.join(x)},jk{''.join(y)}->ik{''.join(x + y)}",
                          u, v)
      return A(npl, r).arbitrary_bilinear(a, b, bil)
    scale = _size(a, h) * _size(b, h) * 4
  elif op == 'map':
    fn = lambda npl, a, b, r: ea.map_over_enclosure(
        ea.as_taylor_enclosure(a, npl), lambda c: c * 2)
    scale = ma * 2
  else:
    v = _vals(rng, (2, 3))
    n, ax = int(rng.integers(0, 3)), [None, 0, 1, 2][int(rng.integers(4))]
    args = (v,)
    fn = lambda npl, v: ea.expand_multiple_dims(npl.asarray(v), n, ax)
    scale = 4.
  compare(ctx, 'enclosure', f'{op}, degree {degree}, of {args!r}', fn, args,
          4 * scale)


# --- elementwise enclosures ----------------------------------------------------

_TOP = {'abs': 1, 'exp': 6, 'log': 6, 'sigmoid': 4, 'softplus': 5, 'swish': 4,
        'pow': 6}


def _np_fun(name, p):
  from lib.progen import NpLib
  return {'abs': np.abs, 'exp': np.exp, 'log': np.log, 'sigmoid': NpLib.sigmoid,
          'softplus': NpLib.softplus, 'swish': NpLib.swish,
          'pow': lambda v: np.power(v, p)}[name]


def case_function(ctx):
  from autobound import enclosure_arithmetic as ea
  from autobound import primitive_enclosures as pe
  rng = ctx.rng
  name = list(_TOP)[ctx.index % len(_TOP)]
  degree = int(rng.integers(0, _TOP[name] + 1))
  shape = [(), (3,)][int(rng.integers(2))]
  p = float(rng.choice([2., 3., -1., -2., .5, 1.5, -.5, 1 / 3, 0., 1., 5.]))
  x0 = rng.integers(-24, 25, shape) / 8.
  if name == 'log' or (name == 'pow' and (p != int(p) or p < 0)):
    x0 = rng.integers(4, 33, shape) / 8.
    wa = np.minimum(rng.integers(0, 9, shape) / 8., x0 - .25)
  else:
    wa = rng.integers(0, 17, shape) / 8.
  wb = rng.integers(0, 17, shape) / 8.
  x0 = np.asarray(x0)
  a, b = np.asarray(x0 - wa), np.asarray(x0 + wb)
  if p == int(p) and rng.uniform() < .7:
    p = int(p)
  enc = {'abs': pe.abs_enclosure, 'exp': pe.exp_enclosure,
         'log': pe.log_enclosure, 'sigmoid': pe.sigmoid_enclosure,
         'softplus': pe.softplus_enclosure, 'swish': pe.swish_enclosure,
         'pow': lambda *r: pe.pow_enclosure(p, *r)}[name]
  label = f'pow {p}' if name == 'pow' else name
  # (An integer x0 would be raised to negative powers as an integer.)
  f = _np_fun(name, p)
  # Roundoff in the remainder ratio at the ends.
  with np.errstate(all='ignore'):
    m = np.abs(f(x0)) + np.maximum(np.abs(f(a)), np.abs(f(b))) + 1.
    per_degree = 40. * (math.factorial(degree) if name in ('log', 'pow') else 2)
    c = m * per_degree
    if name == 'log' or (name == 'pow' and p < degree and p != int(p) or p < 0):
      c = c * np.maximum(1., 1 / np.maximum(a, .1)) ** (degree + 2.5)
    def nz(e):
      e = np.abs(e)
      return np.where(e == 0, 0., c * (1 + e) ** degree /
                      np.where(e == 0, 1., e) ** degree)
    nse = 100 * (nz(a - x0) + nz(b - x0) + c)
    if name in ('softplus',) and degree == 2:
      e = np.clip(-x0, a, b) - x0
      nse = nse + 100 * nz(e)
  use = int(rng.integers(3))
  if use == 0 or degree == 0:
    fn = lambda npl, x0, a, b: enc(x0, (a, b), degree, npl)
    noise = tuple([nse] * degree) + ((nse, nse),)
    compare(ctx, 'function', f'{label} enclosure, degree {degree}, at '
            f'{x0.tolist()} on {a.tolist()}..{b.tolist()}', fn, (x0, a, b), c,
            noise=noise)
    return
  # As an operation on enclosures.
  slope = np.asarray(rng.integers(-2, 3, shape) / 2.)
  r = (-.25, .5) if use == 1 else (np.asarray(-.5), np.asarray(.125))
  lo = x0 + np.minimum(slope * r[0], slope * r[1])
  hi = x0 + np.maximum(slope * r[0], slope * r[1])
  if name == 'log' or (name == 'pow' and (p != int(p) or p < 0)):
    if np.any(lo <= .1):
      x0 = x0 + 1.
      lo, hi = lo + 1., hi + 1.
  given = bool(rng.integers(2))
  def fn(npl, x0, s, lo, hi, r):
    A = ea.TaylorEnclosureArithmetic(degree, r, npl)
    return A.get_elementwise_fun(enc)((x0, s), (lo, hi) if given else None)
  # The ratio is multiplied by slope**degree.
  with np.errstate(all='ignore'):
    big = np.max(np.maximum(np.abs(f(lo)), np.abs(f(hi))) + 1.) * 2. ** 12 * (
        math.factorial(degree) if name in ('log', 'pow') else 1)
    if name == 'log' or (name == 'pow'):
      big = big * np.max(np.maximum(1., 1 / np.maximum(np.abs(lo), .25))) ** (
          degree + 2.5)
    w = np.where(slope == 0, 1., np.minimum(hi - x0, x0 - lo))
    w = np.max(np.abs(slope) ** degree / w ** degree)
    big = big * max(1., float(w))
  compare(ctx, 'function', f'{label} of the enclosure ({x0.tolist()}, '
          f'{slope.tolist()}) over {r!r}, degree {degree}, '
          f'given={given}', fn, (x0, slope, np.asarray(lo), np.asarray(hi), r),
          100 * big)


def case_table(ctx):
  from autobound import elementwise_functions as ef
  rng = ctx.rng
  name = ['abs', 'exp', 'log', 'sigmoid', 'softplus', 'swish'][ctx.index % 6]
  k = int(rng.integers(0, {'abs': 2, 'exp': 4, 'log': 4, 'sigmoid': 5,
                           'softplus': 6, 'swish': 5}[name]))
  base = {'abs': ef.ABS, 'exp': ef.EXP, 'log': ef.LOG, 'sigmoid': ef.SIGMOID,
          'softplus': ef.SOFTPLUS, 'swish': ef.SWISH}[name]
  fid = base.derivative_id(k)
  shape = [(), (2, 2)][int(rng.integers(2))]
  if name == 'log':
    a = rng.integers(2, 40, shape) / 8.
  else:
    a = rng.integers(-60, 60, shape) / 8. * rng.choice([1., 1., 4.])
  a = np.asarray(a, float)
  b = np.asarray(a + rng.integers(0, 64, shape) / 8.)
  scale = 60. * max(1., np.max(np.abs(b)), np.max(np.abs(a)))
  if name == 'exp':
    scale = 8 * max(1., np.max(np.exp(b))) * max(1., np.max(np.abs(b)))
  if name == 'log':
    scale *= 1e4
  q = int(rng.integers(4))
  what = f'{name} derivative {k} on {a.tolist()}, {b.tolist()}'
  if q == 0:
    compare(ctx, 'table', f'get_function: {what}',
            lambda npl, a: ef.get_function(fid, npl)(a), (a,), scale)
  elif q == 1:
    if name == 'abs' and k == 2:
      return
    compare(ctx, 'table', f'get_range: {what}',
            lambda npl, a, b: ef.get_range(fid, (a, b), npl), (a, b), scale)
  elif q == 2:
    as_num = shape == () and rng.uniform() < .5
    args = (float(a), float(b)) if as_num else (a, b)
    compare(ctx, 'table', f'monotone_over: {what}, {as_num}',
            lambda npl, a, b: ef.get_function_data(fid).monotone_over(
                (a, b), npl), args, scale)
  else:
    top = {'abs': 1, 'exp': 5, 'log': 5, 'sigmoid': 4, 'softplus': 5,
           'swish': 4}[name]
    d = int(rng.integers(0, top + 1))
    compare(ctx, 'table', f'Taylor coefficients to {d}: {what}',
            lambda npl, a: tuple(ef.get_taylor_polynomial_coefficients(
                base, d, a, npl)), (a,), scale)


KINDS = {'interval': (case_interval, 700, 30000),
         'enclosure': (case_enclosure, 440, 20000),
         'function': (case_function, 350, 20000),
         'table': (case_table, 300, 10000)}
