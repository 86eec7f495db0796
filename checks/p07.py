"""P07: enclosure arithmetic maps enclosures to an enclosure of the result."""
import numpy as np
from lib import tb

PROPERTY = 'P07'
TECHNIQUE = ('runtime monitoring: enclosures returned by the real arithmetic are '
             'evaluated by an independent monitor at hostile points, and must '
             'contain the operation applied to sampled members of the operands')
RULE = ('A case is one operation on one or two random enclosures (scalar, vector '
        'or matrix x; 1 to 6 coefficients, each an array or interval; value '
        'rank 0 to 2; maximum degree 0 to 4; one-sided, zero-width and off-centre '
        'regions), judged at corners, faces and inner points, for members at '
        'the corners of the operand values; non-trivial if a member was judged '
        'at a point other than x0; distinct by operation and operands.')
ASSUMPTIONS = ['longdouble elementwise functions of numpy are accurate to 1e-16']
REQUIRE = {'members': 60000, 'truncated_results': 500, 'vector_x': 500}

LD = np.longdouble


def setup():
  tb.setup_jax()


def _vals(rng, shape):
  k = int(rng.integers(4))
  if k == 0:
    v = rng.integers(-2, 3, shape) * 1.
  elif k == 1:
    v = rng.integers(-16, 17, shape) / 8.
  elif k == 2:
    v = rng.normal(size=shape)
  else:
    v = rng.integers(0, 4, shape) / 2.
  return np.asarray(v)


def _coef(rng, shape, p_interval):
  if rng.uniform() < p_interval:
    a, b = _vals(rng, shape), _vals(rng, shape)
    if rng.uniform() < .2:
      b = np.where(rng.uniform(size=shape) < .5, a, b)
    return np.minimum(a, b), np.maximum(a, b)
  v = _vals(rng, shape)
  if shape == () and rng.uniform() < .4:
    return int(v) if v == int(v) else float(v)
  return v


def _enclosure(rng, vshape, xshape, n, p0=.3):
  """n coefficients; later ones are more often intervals."""
  out = []
  for i in range(n):
    p = p0 if i == 0 else (.7 if i == n - 1 else .35)
    out.append(_coef(rng, vshape + xshape * i, p))
  return tuple(out)


def _region(rng, xshape, off_centre=False):
  """An interval that contains x - x0."""
  a = -_pos(rng, xshape)
  b = _pos(rng, xshape)
  r = rng.uniform()
  if r < .1:
    a = np.zeros(xshape)
  elif r < .2:
    b = np.zeros(xshape)
  elif r < .3:
    a = np.where(rng.uniform(size=xshape) < .5, 0., a)
  elif r < .35:
    a = b = np.zeros(xshape)
  elif r < .45:
    a = -b
  if off_centre and rng.uniform() < .2:
    s = float(rng.choice([-1, 1]))
    a, b = a + 2 * s, b + 2 * s
  if xshape == () and rng.uniform() < .5:
    return float(a), float(b)
  return np.asarray(a), np.asarray(b)


def _pos(rng, shape):
  return (rng.integers(1, 9, shape) / 4. if rng.uniform() < .5
          else rng.uniform(.01, 2, shape))


def _pair(c):
  return (np.asarray(c[0], float), np.asarray(c[1], float)) if isinstance(
      c, tuple) else (np.asarray(c, float),) * 2


def _eval(enc, h):
  """(lower, upper, magnitude) of an enclosure at h."""
  return tb.array_bounds([_pair(c) for c in enc], h)


def _points(rng, region, n=6):
  a, b = [np.asarray(v, float) for v in region]
  centre = np.clip(np.zeros_like(a), a, b)
  return tb.sample_vector_points(rng, centre, a, b, n)


def _members(rng, lo, hi, n):
  shape = lo.shape
  out = [lo, hi]
  for _ in range(n):
    t = rng.choice([0., 1., rng.uniform()], shape)
    out.append(lo + (hi - lo) * t)
  return out


def _well_formed(ctx, enc, xshape, max_degree, what):
  if not isinstance(enc, tuple) or not enc:
    ctx.violation(f'not an enclosure: {enc!r}: {what}')
    return False
  if len(enc) > max_degree + 1:
    ctx.violation(f'degree {len(enc) - 1} exceeds the maximum degree '
                  f'{max_degree}: {what}')
    return False
  for i, c in enumerate(enc):
    ends = c if isinstance(c, tuple) else (c,)
    if len(ends) not in (1, 2):
      ctx.violation(f'coefficient {i} is {c!r}: {what}')
      return False
    for e in ends:
      s = np.shape(e)
      if i and s[len(s) - i * len(xshape):] != xshape * i:
        ctx.violation(f'coefficient {i} has shape {s}, but x has shape {xshape}'
                      f': {what}')
        return False
    if len(ends) == 2 and np.any(np.asarray(ends[0]) > np.asarray(
        ends[1]) + 1e-9 * (1 + np.abs(np.asarray(ends[0])))):
      ctx.violation(f'coefficient {i} is a reversed interval {c!r}: {what}')
      return False
  return True


def _judge(ctx, got, f, args, region, vshape, what, points=None, clip=None,
           tol=1e-11, extra=0.):
  """got must contain f of all members of args at all points of the region."""
  rng = ctx.rng
  pts = _points(rng, region) if points is None else points
  for h in pts:
    vals = []
    with np.errstate(all='ignore'):
      mags = []
      empty = False
      for k, a in enumerate(args):
        lo, hi, m = _eval(a, h)
        mags.append(m)
        if clip is not None:
          lo, hi = np.maximum(lo, clip[0]), np.minimum(hi, clip[1])
          empty = empty or bool(np.any(lo > hi))
        vals.append(_members(rng, lo, hi, 3))
      if empty:
        ctx.count('points_without_members')
        continue
      lo, hi, mag = _eval(got, h)
      pairs = list(zip(*[[vs[int(rng.integers(len(vs)))] for _ in range(6)]
                         for vs in vals]))
      for u in pairs:
        want = np.asarray(f(*[np.asarray(v, LD) for v in u]))
        try:
          ok_shape = np.broadcast_shapes(lo.shape, want.shape) == want.shape
        except ValueError:
          ok_shape = False
        if not ok_shape:
          ctx.violation(f'the result has shape {lo.shape}, its values have '
                        f'shape {want.shape}: {what}')
          return False
        scale = np.where(np.isfinite(mag), mag, 0.) + np.abs(want) + extra
        bad = (lo - want > tol * scale + 1e-300) | (
            want - hi > tol * scale + 1e-300)
        ctx.count('members')
        if np.any(np.isnan(lo + hi)):
          ctx.count('members_without_information')
        if np.any(bad):
          # Roundoff in the members themselves may be magnified.
          allowed = tol * scale + 1e-300
          for k in range(len(u)):
            for d in (-1e-13, 1e-13):
              v = [np.asarray(w, LD) for w in u]
              v[k] = v[k] + d * mags[k]
              allowed = allowed + np.abs(np.asarray(f(*v)) - want)
          bad = (lo - want > allowed) | (want - hi > allowed)
          ctx.count('suspects')
        if np.any(bad):
          ctx.violation(
              f'at x-x0={np.asarray(h).tolist()} the result is '
              f'[{np.asarray(lo).tolist()}, {np.asarray(hi).tolist()}], which '
              f'lacks {np.asarray(want, float).tolist()}, the value for members '
              f'{[np.asarray(v, float).tolist() for v in u]}: {what}', got=got)
          return False
        if np.any(np.asarray(h)):
          ctx.distinct(what)
  return True


def _arith(ctx, degree, region):
  from autobound import enclosure_arithmetic as ea
  return ctx.sut(ea.TaylorEnclosureArithmetic, degree, region, np)


def _xshape(rng):
  return [(), (), (1,), (2,), (3,), (2, 2)][int(rng.integers(6))]


def _vshapes(rng):
  return [((), ()), ((2,), (2,)), ((2,), ()), ((3, 1), (1, 2)), ((2, 2), (2,)),
          ((), (2,))][int(rng.integers(6))]


def _sizes(rng, xshape):
  big = int(np.prod(xshape)) if xshape else 1
  top = 6 if big <= 2 else 4 if big == 3 else 3
  return int(rng.integers(1, top + 1)), int(rng.integers(1, top + 1))


def case_sum(ctx):
  """add, subtract, negative, and truncation."""
  rng = ctx.rng
  from autobound import enclosure_arithmetic as ea
  xshape = _xshape(rng)
  region = _region(rng, xshape, True)
  deg = int(rng.integers(0, 5))
  arith = _arith(ctx, deg, region)
  va, vb = _vshapes(rng)
  na, nb = _sizes(rng, xshape)
  a, b = _enclosure(rng, va, xshape, na), _enclosure(rng, vb, xshape, nb)
  if va == vb and rng.uniform() < .15:
    b = a  # the same object, but its members remain independent
    ctx.count('same_object')
  if xshape:
    ctx.count('vector_x')
  for op, f, args in (('add', np.add, (a, b)),
                      ('subtract', np.subtract, (a, b)),
                      ('negative', np.negative, (a,))):
    what = f'{op} of {args!r}, maximum degree {deg}, region {region!r}'
    ctx.describe(what)
    got = ctx.sut(getattr(arith, op), *args)
    if max(map(len, args)) > deg + 1:
      ctx.count('truncated_results')
    if not (_well_formed(ctx, got, xshape, deg, what) and _judge(
        ctx, got, f, args, region, None, what)):
      return
  what = f'enclose_enclosure({a!r}, {region!r}, {deg})'
  got = ctx.sut(ea.enclose_enclosure, a, region, deg, np)
  if not (_well_formed(ctx, got, xshape, deg, what) and _judge(
      ctx, got, lambda v: v, (a,), region, va, what)):
    return
  # Both ends of the original must lie inside.
  for h in _points(rng, region):
    l0, h0, m0 = _eval(a, h)
    l1, h1, m1 = _eval(got, h)
    s = 1e-12 * (m0 + m1)
    if np.any(l1 > l0 + s) or np.any(h1 < h0 - s):
      ctx.violation(f'the enclosure of lower degree is [{l1}, {h1}] at {h}, and '
                    f'the original [{l0}, {h0}]: {what}')
      return


def case_product(ctx):
  rng = ctx.rng
  xshape = _xshape(rng)
  region = _region(rng, xshape, True)
  deg = int(rng.integers(0, 5))
  if len(xshape) == 2:
    deg = min(deg, 2)
  arith = _arith(ctx, deg, region)
  va, vb = _vshapes(rng)
  na, nb = _sizes(rng, xshape)
  if xshape and int(np.prod(xshape)) > 2:
    na, nb = min(na, 3), min(nb, 2)
  if xshape:
    ctx.count('vector_x')
  a, b = _enclosure(rng, va, xshape, na), _enclosure(rng, vb, xshape, nb)
  if va == vb and rng.uniform() < .15:
    b = a  # the same object, but its members remain independent
    ctx.count('same_object')
  what = f'product of {a!r} and {b!r}, maximum degree {deg}, region {region!r}'
  ctx.describe(what)
  got = ctx.sut(arith.multiply, a, b)
  if na + nb - 2 > deg:
    ctx.count('truncated_results')
  _ = _well_formed(ctx, got, xshape, deg, what) and _judge(
      ctx, got, np.multiply, (a, b), region, None, what)


def case_bilinear(ctx):
  rng = ctx.rng
  xshape = _xshape(rng)
  region = _region(rng, xshape, True)
  deg = int(rng.integers(0, 5))
  if len(xshape) == 2:
    deg = min(deg, 2)
  arith = _arith(ctx, deg, region)
  k = int(rng.integers(5))
  d = [int(v) for v in rng.integers(1, 4, 3)]
  name, f, va, vb = [
      ('matmul', np.matmul, (d[0], d[1]), (d[1], d[2])),
      ('dot', np.dot, (d[0],), (d[0],)),
      ('product', np.multiply, (d[0],), (d[0],)),
      ('convolve', lambda u, v: np.convolve(u, v, 'valid'),
       (d[0] + d[1],), (d[1],)),
      ('outer', lambda u, v: np.tensordot(u, v, 0), (d[0],), (d[1],)),
  ][k]

  def pairwise(u, v, p, q):
    u, v = np.asarray(u), np.asarray(v)
    i, j = u.shape[u.ndim - p:], v.shape[v.ndim - q:]
    out = None
    for x in np.ndindex(*i):
      for y in np.ndindex(*j):
        r = np.asarray(f(u[(...,) + x], v[(...,) + y]))
        if out is None:
          out = np.zeros(r.shape + i + j)
        out[(Ellipsis,) + x + y] = r
    return out
  na, nb = _sizes(rng, xshape)
  if xshape and int(np.prod(xshape)) > 2:
    na, nb = min(na, 3), min(nb, 2)
  if xshape:
    ctx.count('vector_x')
  a, b = _enclosure(rng, va, xshape, na), _enclosure(rng, vb, xshape, nb)
  if va == vb and rng.uniform() < .15:
    b = a  # the same object, but its members remain independent
    ctx.count('same_object')
  what = (f'{name} of {a!r} and {b!r}, maximum degree {deg}, region '
          f'{region!r}')
  ctx.describe(what)
  got = ctx.sut(arith.arbitrary_bilinear, a, b, pairwise)
  if na + nb - 2 > deg:
    ctx.count('truncated_results')
  _ = _well_formed(ctx, got, xshape, deg, what) and _judge(
      ctx, got, lambda u, v: np.asarray(f(u, v)), (a, b), region, None, what)


def _reach(enc, region):
  """How far the values of enc are from enc[0] at most."""
  m = np.maximum(np.abs(np.asarray(region[0])), np.abs(np.asarray(region[1])))
  r = 0.
  for i, c in enumerate(enc[1:], 1):
    lo, hi = _pair(c)
    r = max(r, 0.) + float(np.max(_eval_abs(np.maximum(
        np.abs(lo), np.abs(hi)), m, i), initial=0))
  return r


def _eval_abs(c, m, i):
  p = tb.outer_power(m, i)
  v = c * p
  return v.sum(tuple(range(-p.ndim, 0))) if p.ndim else v


def case_power(ctx):
  rng = ctx.rng
  xshape = _xshape(rng)
  region = _region(rng, xshape)
  deg = int(rng.integers(0, 5))
  if len(xshape) == 2:
    deg = min(deg, 2)
  arith = _arith(ctx, deg, region)
  vs = _vshapes(rng)[0]
  n, _ = _sizes(rng, xshape)
  kind = str(rng.choice(['natural', 'natural', 'natural', 'negative',
                         'fraction', 'divide', 'divide', 'singular',
                         'singular']))
  if kind == 'natural':
    p = int(rng.integers(0, 6))
    if xshape:
      if int(np.prod(xshape)) > 2:
        n = min(n, 2)
      p = min(p, 3)
      n = min(n, 4)
    a = _enclosure(rng, vs, xshape, n)
    p = float(p) if rng.uniform() < .3 else p
    what = f'{a!r} ** {p!r}, maximum degree {deg}, region {region!r}'
    ctx.describe(what)
    got = ctx.sut(arith.power, a, p)
    if (n - 1) * p > deg:
      ctx.count('truncated_results')
    f = lambda v: v ** int(p)
    args = (a,)
  elif kind == 'singular':
    # The divisor may vanish: whatever is said must hold where it does not.
    if rng.uniform() < .4:
      deg = 0
      arith = _arith(ctx, deg, region)
    n = 1 if not deg and rng.uniform() < .7 else min(n, 3)
    b = _enclosure(rng, vs, xshape, n, 0. if deg or n > 1 else .9)
    if not isinstance(b[0], tuple):
      b = (np.asarray(b[0], float),) + b[1:]
    if rng.uniform() < .6:
      va = vs if rng.uniform() < .6 else ()
      a = _enclosure(rng, va, xshape, int(rng.integers(1, 4)))
      what = f'{a!r} / {b!r}, maximum degree {deg}, region {region!r}'
      g, args = np.divide, (a, b)
    else:
      p = int(rng.integers(-4, 0))
      what = f'{b!r} ** {p!r}, maximum degree {deg}, region {region!r}'
      g, args = (lambda v: v ** LD(p)), (b,)
    ctx.describe(what)
    with np.errstate(all='ignore'):
      got = (ctx.sut(arith.divide, a, b) if g is np.divide else
             ctx.sut(arith.power, b, p))

    def f(*u):
      # Nothing is said of the values where the divisor vanishes.
      with np.errstate(all='ignore'):
        return np.where(np.abs(u[-1]) > 1e-9, g(*u), np.nan)
  else:
    # Keep away from zero.
    if xshape:
      n = min(n, 3)
    a = _enclosure(rng, vs, xshape, n, 0. if deg or n > 1 else .5)
    if isinstance(a[0], tuple):
      a0 = tuple(np.abs(v) + 1 for v in a[0])
      a0 = (np.minimum(*a0), np.maximum(*a0))
    else:
      r = _reach(a, region)
      a0 = np.abs(np.asarray(a[0], float)) * .5 + r + float(
          rng.choice([.05, .5, 2.]))
      if kind == 'negative' and rng.uniform() < .5:
        a0 = -a0
    a = (a0,) + a[1:]
    if kind == 'divide':
      vb = _vshapes(rng)
      b = a
      va = vs if rng.uniform() < .6 else ()
      a = _enclosure(rng, va, xshape, int(rng.integers(1, 4)))
      if rng.uniform() < .15:
        a = b
      what = f'{a!r} / {b!r}, maximum degree {deg}, region {region!r}'
      ctx.describe(what)
      got = ctx.sut(arith.divide, a, b)
      f, args = np.divide, (a, b)
    else:
      p = (int(rng.integers(-4, 0)) if kind == 'negative' else
           float(rng.choice([.5, 1.5, -.5, 2.5, 1 / 3, -2.3])))
      what = f'{a!r} ** {p!r}, maximum degree {deg}, region {region!r}'
      ctx.describe(what)
      got = ctx.sut(arith.power, a, p)
      f, args = (lambda v: v ** LD(p)), (a,)
  if xshape:
    ctx.count('vector_x')
  ctx.count('power.' + kind)
  _ = _well_formed(ctx, got, xshape, deg, what) and _judge(
      ctx, got, f, args, region, None, what, tol=1e-9)


def _sigmoid(v):
  e = np.exp(-np.abs(v))
  return np.where(v >= 0, 1 / (1 + e), e / (1 + e))


_FUNCTIONS = {
    'abs': (np.abs, 1), 'exp': (np.exp, 4), 'log': (np.log, 4),
    'sigmoid': (_sigmoid, 4),
    'softplus': (lambda v: np.maximum(v, 0) + np.log1p(np.exp(-np.abs(v))), 4),
    'swish': (lambda v: v * _sigmoid(v), 4),
}


def case_function(ctx):
  rng = ctx.rng
  from autobound import primitive_enclosures as pe
  name = list(_FUNCTIONS)[ctx.index % 6]
  f, top = _FUNCTIONS[name]
  xshape = _xshape(rng)
  region = _region(rng, xshape)
  deg = int(rng.integers(0, top + 1))
  if len(xshape) == 2:
    deg = min(deg, 2)
  elif xshape:
    deg = min(deg, 3)
  arith = _arith(ctx, deg, region)
  vs = _vshapes(rng)[0]
  n, _ = _sizes(rng, xshape)
  if xshape:
    n = min(n, 3)
  a = _enclosure(rng, vs, xshape, n, 0. if deg or n > 1 else .5)
  if name == 'log':
    if isinstance(a[0], tuple):
      a0 = tuple(np.abs(v) + 1 for v in a[0])
      a = ((np.minimum(*a0), np.maximum(*a0)),)
    else:
      r = _reach(a, region)
      a = (np.abs(np.asarray(a[0], float)) + r + .2,) + a[1:]
  fun = ctx.sut(arith.get_elementwise_fun, getattr(pe, name + '_enclosure'))
  a = tuple(c if isinstance(c, tuple) else np.asarray(c) for c in a)
  clip = None
  if rng.uniform() < .5 and not isinstance(a[0], tuple):
    # Something is known about the range of the argument.
    a0 = np.asarray(a[0], float)
    r = _reach(a, region) + .1
    clip = (a0 - r * rng.uniform(0, .8), a0 + r * rng.uniform(0, .8))
    if name == 'log':
      clip = (np.maximum(clip[0], a0 * .05), clip[1])
  what = (f'{name} of {a!r}, maximum degree {deg}, region {region!r}, known '
          f'range {clip!r}')
  ctx.describe(what)
  got = ctx.sut(fun, a) if clip is None else ctx.sut(fun, a, clip)
  if xshape:
    ctx.count('vector_x')
  ctx.count('function.' + name)
  _ = _well_formed(ctx, got, xshape, deg, what) and _judge(
      ctx, got, f, (a,), region, vs, what, clip=clip, tol=1e-9)


def case_compose(ctx):
  """compose_enclosures: any outer enclosure, at any member of the inner one."""
  rng = ctx.rng
  xshape = _xshape(rng)
  region = _region(rng, xshape)
  deg = int(rng.integers(0, 4))
  if len(xshape) == 2:
    deg = min(deg, 2)
  arith = _arith(ctx, deg, region)
  vs = _vshapes(rng)[0]
  n = int(rng.integers(1, 4))
  m = int(rng.integers(1, deg + 2))  # of degree at most the maximum
  inner = _enclosure(rng, vs, xshape, n, 0.)
  inner = tuple(c if isinstance(c, tuple) else np.asarray(c) for c in inner)
  # Coefficients of the outer one have the shape of the inner values.
  outer = tuple(_pair_or_array(_coef(rng, vs, .5)) for _ in range(m))
  what = (f'composition of {outer!r} and {inner!r}, maximum degree {deg}, '
          f'region {region!r}')
  ctx.describe(what)
  got = ctx.sut(arith.compose_enclosures, outer, inner)
  if xshape:
    ctx.count('vector_x')
  if not _well_formed(ctx, got, xshape, deg, what):
    return
  a0 = inner[0]
  def f(v):
    """A member of the outer enclosure at displacement v - a0."""
    out = np.zeros(np.shape(v), LD)
    for i, c in enumerate(outer):
      lo, hi = _pair(c)
      t = ctx.rng.choice([0., 1., .5], np.shape(lo))
      out = out + (lo + (hi - lo) * t) * (v - a0) ** i
    return out
  # Members are displaced by v - a0, which cancels.
  size = sum(np.maximum(*map(np.abs, _pair(c))) for c in outer[1:])
  _judge(ctx, got, f, (inner,), region, vs, what,
         extra=1e-3 * size * (1 + np.abs(a0)) ** 2)


def _pair_or_array(c):
  return _pair(c) if isinstance(c, tuple) else np.asarray(c, float)


def case_helpers(ctx):
  rng = ctx.rng
  from autobound import enclosure_arithmetic as ea
  shape = tuple(int(d) for d in rng.integers(1, 4, int(rng.integers(0, 4))))
  v = rng.normal(size=shape)
  n = int(rng.integers(0, 3))
  axis = int(rng.integers(0, len(shape) + 1)) if rng.uniform() < .6 else None
  got = np.asarray(ctx.sut(ea.expand_multiple_dims, v, n, axis))
  k = len(shape) if axis is None else axis
  want = shape[:k] + (1,) * n + shape[k:]
  if got.shape != want or not np.array_equal(got.reshape(shape), v):
    ctx.violation(f'expand_multiple_dims of shape {shape}, {n}, {axis} has shape '
                  f'{got.shape}')
    return
  enc = tuple(_coef(rng, shape, .5) for _ in range(int(rng.integers(1, 4))))
  got = ctx.sut(ea.map_over_enclosure, enc, lambda c: np.asarray(c) * 2 + 1)
  ok = isinstance(got, tuple) and len(got) == len(enc)
  for g, c in zip(got, enc):
    if isinstance(c, tuple):
      ok = ok and isinstance(g, tuple) and len(g) == 2 and all(
          np.array_equal(x, np.asarray(y) * 2 + 1) for x, y in zip(g, c))
    else:
      ok = ok and np.array_equal(g, np.asarray(c) * 2 + 1)
  if not ok:
    ctx.violation(f'map_over_enclosure({enc!r}) is {got!r}')
  ctx.distinct('helpers', shape, n, axis)


KINDS = {'sum': (case_sum, 900, 40000),
         'product': (case_product, 900, 40000),
         'bilinear': (case_bilinear, 700, 30000),
         'power': (case_power, 900, 40000),
         'function': (case_function, 900, 40000),
         'compose': (case_compose, 500, 20000),
         'helpers': (case_helpers, 100, 2000)}
