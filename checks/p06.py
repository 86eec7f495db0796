"""P06: interval operations contain every pointwise result, and are tight."""
import itertools

import numpy as np
from lib.runner import SutError

PROPERTY = 'P06'
TECHNIQUE = ('runtime monitoring: results of the real interval operations are '
             'checked against exact extrema, obtained from all corners (and '
             'zero) of the operands, and against sampled members')
RULE = ('A case is one operation on operands of random kinds (number, array, '
        'interval; dyadic values, so that float64 is exact), shapes and signs, '
        'with degenerate and zero-touching intervals; non-trivial if an '
        'operand is an interval; distinct by operation, shapes and operands.')
ASSUMPTIONS = ['numpy arithmetic on dyadic numbers of few bits is exact']
REQUIRE = {'elements': 100000, 'intervals': 9000, 'members': 100000}


def setup():
  from lib import tb
  tb.setup_jax()


def _values(rng, shape):
  k = int(rng.integers(5))
  if k == 0:
    return np.asarray(rng.integers(-3, 4, shape), float)
  if k == 1:
    return np.asarray(rng.integers(-64, 65, shape) / 16.)
  if k == 2:
    return np.asarray(rng.integers(0, 5, shape) / 4.)
  if k == 3:
    return np.asarray(-rng.integers(0, 5, shape) / 2.)
  return np.asarray(rng.integers(-4, 5, shape) * 2. ** rng.integers(-6, 6, shape))


def _interval(rng, shape):
  a, b = _values(rng, shape), _values(rng, shape)
  r = rng.uniform()
  if r < .15:
    b = a
  elif r < .3:
    b = np.where(rng.uniform(size=shape) < .5, a, b)
  elif r < .4:
    a = np.zeros(shape)
  lo, hi = np.minimum(a, b), np.maximum(a, b)
  if rng.uniform() < .1:
    lo = -hi if np.all(hi >= 0) else lo
  return np.asarray(lo), np.asarray(hi)


def _operand(rng, shape, p_interval=.65):
  if rng.uniform() < p_interval:
    lo, hi = _interval(rng, shape)
    if shape == () and rng.uniform() < .4:
      return float(lo), float(hi)
    return lo, hi
  v = _values(rng, shape)
  if shape == () and rng.uniform() < .5:
    return float(v) if rng.uniform() < .6 or v != int(v) else int(v)
  if rng.uniform() < .1 and np.all(v == np.round(v)):
    return v.astype(int)
  return v


def _ends(x):
  return x if isinstance(x, tuple) else (x, x)


def _member(rng, x):
  if not isinstance(x, tuple):
    return np.asarray(x)
  lo, hi = np.asarray(x[0], float), np.asarray(x[1], float)
  t = rng.choice([0., 1., .5, .25], lo.shape)
  return lo + (hi - lo) * t


def _shapes(rng):
  """Two shapes that broadcast together."""
  n = int(rng.integers(0, 4))
  full = tuple(int(d) for d in rng.integers(1, 4, n))
  def sub(s):
    s = list(s[int(rng.integers(0, len(s) + 1)) if rng.uniform() < .4 else 0:])
    return tuple(1 if rng.uniform() < .2 else d for d in s)
  return sub(full), sub(full)


def _maybe_alias(ctx, a, b):
  """Sometimes the very same object twice: its values remain independent."""
  r = ctx.rng.uniform()
  if r < .12:
    ctx.count('same_object')
    return a, ' (the same object)'
  if r < .2 and isinstance(a, tuple):
    ctx.count('same_object')
    return (a[0], a[1]), ' (the same ends)'
  return b, ''


def _judge(ctx, got, want_shape, lo, hi, members, what, tight=True, tol=0.,
           mask=None):
  """got must be [lo, hi] (where mask) and contain all members."""
  is_interval = isinstance(got, tuple)
  if is_interval and len(got) != 2:
    ctx.violation(f'not an interval: {got!r}: {what}')
    return False
  gl, gh = [np.asarray(v) for v in _ends(got)]
  for g in (gl, gh):
    if g.shape != want_shape:
      ctx.violation(f'shape {g.shape} instead of {want_shape}: {what}')
      return False
  ctx.count('elements', gl.size)
  ctx.count('intervals' if is_interval else 'arrays')
  for m in members:
    ctx.count('members', m.size)
    s = tol * np.maximum(np.abs(m), 1) if tol else 0.
    if not np.all((gl <= m + s) & (m <= gh + s)):
      ctx.violation(f'result [{gl.tolist()}, {gh.tolist()}] does not contain '
                    f'{m.tolist()}: {what}')
      return False
  if lo is not None:
    s = tol * np.maximum(np.maximum(np.abs(lo), np.abs(hi)), 1) if tol else 0.
    if not np.all((gl <= lo + s) & (gh >= hi - s)):
      ctx.violation(f'result [{gl.tolist()}, {gh.tolist()}] misses parts of '
                    f'[{lo.tolist()}, {hi.tolist()}]: {what}')
      return False
    if tight:
      with np.errstate(invalid='ignore'):
        ok = ((gl == lo) | (np.abs(gl - lo) <= s)) & (
            (gh == hi) | (np.abs(gh - hi) <= s))
      if mask is not None:
        ok = ok | ~mask
      ctx.count('tight_elements', gl.size)
      if not np.all(ok):
        ctx.violation(f'result [{gl.tolist()}, {gh.tolist()}] is wider than '
                      f'[{lo.tolist()}, {hi.tolist()}]: {what}')
        return False
  return True


def _arith():
  from autobound import interval_arithmetic
  return interval_arithmetic.IntervalArithmetic(np)


def case_elementwise(ctx):
  rng = ctx.rng
  arith = _arith()
  ops = {'add': np.add, 'subtract': np.subtract, 'multiply': np.multiply}
  for op, f in ops.items():
    sa, sb = _shapes(rng)
    a, b = _operand(rng, sa), _operand(rng, sb)
    b, alias = _maybe_alias(ctx, a, b)
    what = f'{op}({a!r}, {b!r})' + alias
    ctx.describe(what)
    corners = [np.asarray(f(x, y)) for x in _ends(a) for y in _ends(b)]
    lo, hi = np.minimum.reduce(corners), np.maximum.reduce(corners)
    got = ctx.sut(getattr(arith, op), a, b)
    if isinstance(got, tuple) and not isinstance(a, tuple) and (
        not isinstance(b, tuple)):
      ctx.violation(f'an interval for two arrays: {what}')
      return
    members = [np.asarray(f(_member(rng, a), _member(rng, b)))
               for _ in range(3)]
    if not _judge(ctx, got, lo.shape, lo, hi, members, what):
      return
    if isinstance(a, tuple) or isinstance(b, tuple):
      ctx.distinct(op, what)
  a = _operand(rng, sa)
  corners = [np.asarray(np.negative(x)) for x in _ends(a)]
  got = ctx.sut(arith.negative, a)
  if not _judge(ctx, got, corners[0].shape, np.minimum.reduce(corners),
                np.maximum.reduce(corners), [-_member(rng, a)],
                f'negative({a!r})'):
    return
  # Infinite ends of sums and differences.
  a = _interval(rng, sa)
  a = (a[0], np.full(sa, np.inf)) if rng.uniform() < .5 else (
      np.full(sa, -np.inf), a[1])
  b = _interval(rng, sb)
  for op, f in (('add', np.add), ('subtract', np.subtract)):
    corners = [np.asarray(f(x, y)) for x in a for y in b]
    got = ctx.sut(getattr(arith, op), a, b)
    if not _judge(ctx, got, corners[0].shape, np.minimum.reduce(corners),
                  np.maximum.reduce(corners), [], f'{op}({a!r}, {b!r})'):
      return
  # Shapes.
  if tuple(ctx.sut(arith.shape, b)) != np.shape(b[0]) or (
      ctx.sut(arith.ndim, b) != np.ndim(b[0])):
    ctx.violation(f'shape or ndim of {b!r}')


def _power_range(lo, hi, p):
  with np.errstate(all='ignore'):
    u, v = lo ** p, hi ** p
  a, b = np.minimum(u, v), np.maximum(u, v)
  if p > 0:
    inside = (lo < 0) & (hi > 0)
    a, b = np.where(inside, np.minimum(a, 0), a), np.where(
        inside, np.maximum(b, 0), b)
  return a, b


def case_power(ctx):
  rng = ctx.rng
  arith = _arith()
  for _ in range(3):
    sa, _ = _shapes(rng)
    a = _operand(rng, sa, .8)
    lo, hi = [np.asarray(v, float) for v in _ends(a)]
    r = rng.uniform()
    if r < .6:
      p = int(rng.integers(0, 8))
    elif r < .7:
      p = float(rng.integers(0, 6))
    elif r < .9:
      p = float(rng.choice([.5, 1.5, 2.5, 1 / 3, 3.7]))
      lo, hi = np.abs(lo), np.abs(lo) + (hi - lo)
      a = (lo, hi) if isinstance(a, tuple) else lo
    else:
      p = -int(rng.integers(1, 4))
      lo, hi = np.abs(lo) + .25, np.abs(lo) + .25 + (hi - lo)
      a = (lo, hi) if isinstance(a, tuple) else lo
    what = f'power({a!r}, {p})'
    ctx.describe(what)
    want = _power_range(lo, hi, p)
    if p < 0 and isinstance(a, tuple):
      # Either refused, or right.
      try:
        got = arith.power(a, p)
      except Exception:  # pylint: disable=broad-except
        ctx.count('refused')
        continue
    else:
      got = ctx.sut(arith.power, a, p)
    members = [np.asarray(_member(rng, a), float) ** p for _ in range(3)]
    exact = p == int(p) and p >= 0
    if not _judge(ctx, got, lo.shape, want[0], want[1], members, what,
                  tol=0. if exact else 1e-14):
      return
    if isinstance(a, tuple):
      ctx.distinct(what)


def _outer(a, b, batch):
  """Outer product, one element at a time."""
  a, b = np.asarray(a, float), np.asarray(b, float)
  i, j, k = a.shape[:batch], a.shape[batch:], b.shape[batch:]
  out = np.empty(i + j + k)
  for x in np.ndindex(*i):
    for y in np.ndindex(*j):
      for z in np.ndindex(*k):
        out[x + y + z] = a[x + y] * b[x + z]
  return out


def case_outer(ctx):
  rng = ctx.rng
  arith = _arith()
  batch = int(rng.choice([0, 0, 1, 2, 3]))
  lead = tuple(int(d) for d in rng.integers(1, 4, batch))
  sa = lead + tuple(int(d) for d in rng.integers(1, 4, rng.integers(0, 3)))
  sb = lead + tuple(int(d) for d in rng.integers(1, 4, rng.integers(0, 3)))
  a, b = _operand(rng, sa), _operand(rng, sb)
  b, alias = _maybe_alias(ctx, a, b)
  what = f'outer_product({a!r}, {b!r}, {batch})' + alias
  ctx.describe(what)
  corners = [_outer(x, y, batch) for x in _ends(a) for y in _ends(b)]
  got = ctx.sut(arith.outer_product, a, b, batch)
  members = [_outer(_member(rng, a), _member(rng, b), batch) for _ in range(2)]
  if not _judge(ctx, got, corners[0].shape, np.minimum.reduce(corners),
                np.maximum.reduce(corners), members, what):
    return
  ctx.distinct(what)
  # Outer powers.
  n = int(rng.integers(0, 4)) if np.prod(sa) < 9 else 2
  sa = sa[:2]
  batch = min(batch, len(sa))
  a = _operand(rng, sa, .8)
  what = f'outer_power({a!r}, {n}, {batch})'
  if rng.uniform() < .5:
    got = ctx.sut(arith.outer_power, a, n, batch)
  else:
    batch = 0
    what = f'outer_power({a!r}, {n})'
    got = ctx.sut(arith.outer_power, a, n)

  def power(v):
    if n == 0:
      return np.ones(())
    out = np.asarray(v, float)
    for _ in range(n - 1):
      out = _outer(out, v, batch)
    return out
  members = [power(_member(rng, a)) for _ in range(4)]
  if isinstance(a, tuple):
    members += [power(a[0]), power(a[1])]
  # Exact range of every element: the product of powers of distinct entries.
  shape = members[0].shape
  lo, hi = np.empty(shape), np.empty(shape)
  mask = np.zeros(shape, bool)
  al, ah = [np.asarray(v, float) for v in _ends(a)]
  rest = len(sa) - batch
  for idx in np.ndindex(*shape):
    if n == 0:
      lo[idx] = hi[idx] = 1.
      mask[idx] = True
      continue
    lead_idx = idx[:batch]
    entries = [lead_idx + idx[batch + k * rest:batch + (k + 1) * rest]
               for k in range(n)]
    l = h = 1.
    for e in set(entries):
      u, v = _power_range(al[e], ah[e], entries.count(e))
      c = [l * u, l * v, h * u, h * v]
      l, h = min(c), max(c)
    lo[idx], hi[idx] = l, h
    mask[idx] = len(set(entries)) == len(entries) or n == 1 or (
        n == 2 and len(sa) == 1 and batch == 0) or len(sa) == 0
  if not isinstance(a, tuple):
    mask[...] = True
  _judge(ctx, got, shape, lo, hi, members, what, mask=mask)
  if isinstance(a, tuple):
    ctx.distinct(what)


def _bilinear_ops(rng):
  """(name, function of two arrays, shape of a, shape of b)."""
  k = int(rng.integers(6))
  d = [int(x) for x in rng.integers(1, 4, 6)]
  if k == 0:
    return 'matmul', np.matmul, (d[0], d[1]), (d[1], d[2])
  if k == 1:
    return 'inner', np.dot, (d[0],), (d[0],)
  if k == 2:
    w = np.asarray(rng.integers(0, 3, (d[0], d[1], d[2])), float)
    return f'weights {w.tolist()}', lambda a, b: np.einsum(
        'kij,i,j->k', w, a, b), (d[1],), (d[2],)
  if k == 3:
    return 'batched', lambda a, b: np.einsum('bij,bjk->bik', a, b), (
        d[0], d[1], d[2]), (d[0], d[2], d[3])
  if k == 4:
    m = d[0] + d[1]
    return 'convolve', lambda a, b: np.convolve(a, b, 'valid'), (m,), (d[1],)
  return 'trace', lambda a, b: np.asarray(np.sum(a * b)), (d[0], d[1]), (
      d[0], d[1])


def _bilinear_extremes(f, a, b):
  """Exact range, when at most one operand is an interval."""
  if not isinstance(a, tuple) and not isinstance(b, tuple):
    v = np.asarray(f(a, b))
    return v, v
  if isinstance(a, tuple):
    g, (l, h) = (lambda x: f(x, b)), a
  else:
    g, (l, h) = (lambda x: f(a, x)), b
  lo = hi = np.asarray(g(np.zeros_like(l)))
  for idx in np.ndindex(*np.shape(l)):
    e = np.zeros_like(l)
    e[idx] = 1.
    c = np.asarray(g(e))
    u, v = c * l[idx], c * h[idx]
    lo, hi = lo + np.minimum(u, v), hi + np.maximum(u, v)
  return lo, hi


def _constant_sign(x):
  return not isinstance(x, tuple) or bool(
      np.all((x[0] >= 0) | (x[1] <= 0)))


def _signed_extremes(f, a, b):
  """Exact range of a sum of products when both operands keep their signs."""
  (al, ah), (bl, bh) = _ends(a), _ends(b)
  lo = hi = 0.
  for i in np.ndindex(*np.shape(al)):
    for j in np.ndindex(*np.shape(bl)):
      e, g = np.zeros_like(al), np.zeros_like(bl)
      e[i] = 1.
      g[j] = 1.
      c = np.asarray(f(e, g))
      p = [al[i] * bl[j], al[i] * bh[j], ah[i] * bl[j], ah[i] * bh[j]]
      lo, hi = lo + c * min(p), hi + c * max(p)
  return np.asarray(lo), np.asarray(hi)


def _climb(rng, f, a, b):
  """Values of f at corners that nearly minimise or maximise an element."""
  def basis(x):
    out = []
    for idx in np.ndindex(*np.shape(x[0])):
      e = np.zeros_like(x[0])
      e[idx] = 1.
      out.append(e)
    return out
  ea, eb = basis(a), basis(b)
  c = np.asarray([[np.asarray(f(x, y)).reshape(-1) for y in eb] for x in ea])
  ra, rb = [v.reshape(-1) for v in a], [v.reshape(-1) for v in b]
  out = []
  for _ in range(8):
    w = c[:, :, int(rng.integers(c.shape[2]))] * rng.choice([-1., 1.])
    y = np.where(rng.uniform(size=rb[0].shape) < .5, *rb)
    for _ in range(6):
      x = np.where(w @ y > 0, ra[1], ra[0])
      y = np.where(x @ w > 0, rb[1], rb[0])
    out.append(np.asarray(f(x.reshape(a[0].shape), y.reshape(b[0].shape))))
  return out


def case_bilinear(ctx):
  rng = ctx.rng
  arith = _arith()
  if rng.uniform() < .3:
    na, nb, n = [int(v) for v in rng.integers(0, 3, 3)]
    da, db, dn = [tuple(int(d) for d in rng.integers(1, 4, m))
                  for m in (na, nb, n)]
    sa, sb = da + dn, dn + db
    if rng.uniform() < .6:
      axes = n
    else:
      pa, pb = list(range(len(sa))), list(range(len(sb)))
      rng.shuffle(pa)
      rng.shuffle(pb)
      axes = ([pa.index(na + k) for k in range(n)],
              [pb.index(k) for k in range(n)])
      sa, sb = tuple(sa[p] for p in pa), tuple(sb[p] for p in pb)
    name = f'tensordot {axes}'
    f = lambda u, v: np.tensordot(u, v, axes)
    call = lambda a, b: arith.tensordot(a, b, axes)
  else:
    name, f, sa, sb = _bilinear_ops(rng)
    call = lambda a, b: arith.arbitrary_bilinear(a, b, f)
  def operand(shape):
    if rng.uniform() < .65:
      lo, hi = _interval(rng, shape)
      r = rng.uniform()
      if r < .25:
        lo, hi = np.abs(lo), np.abs(lo) + (hi - lo)
      elif r < .5:
        s = rng.choice([-1., 1.], shape)
        u, v = np.abs(lo), np.abs(lo) + (hi - lo)
        lo, hi = np.where(s > 0, u, -v), np.where(s > 0, v, -u)
      return np.asarray(lo), np.asarray(hi)
    return _values(rng, shape)
  a, b = operand(sa), operand(sb)
  alias = ''
  if np.shape(_ends(a)[0]) == np.shape(_ends(b)[0]):
    b, alias = _maybe_alias(ctx, a, b)
  what = f'{name}({a!r}, {b!r})' + alias
  ctx.describe(what)
  got = ctx.sut(call, a, b)
  members = [np.asarray(f(_member(rng, a), _member(rng, b))) for _ in range(8)]
  members += [np.asarray(f(x, y)) for x, y in itertools.product(
      _ends(a), _ends(b))]
  both = isinstance(a, tuple) and isinstance(b, tuple)
  # Terms that share an entry are dependent: no exactness then.
  tight = not name.startswith('weights')
  if not both:
    lo, hi = _bilinear_extremes(f, a, b)
    ctx.count('one_interval')
  elif _constant_sign(a) and _constant_sign(b):
    lo, hi = _signed_extremes(f, a, b)
    ctx.count('constant_sign')
  else:
    ctx.count('mixed_sign')
    lo = hi = None
    # Extremes are attained at corners: climb to some of them.
    members += _climb(rng, f, a, b)
  shape = members[0].shape
  if lo is not None:
    lo, hi = np.broadcast_to(lo, shape), np.broadcast_to(hi, shape)
  if not _judge(ctx, got, shape, lo, hi, members, what, tight):
    return
  if isinstance(a, tuple) or isinstance(b, tuple):
    ctx.distinct(what)


def case_float(ctx):
  """General float64 operands of any magnitude: containment up to roundoff."""
  rng = ctx.rng
  arith = _arith()
  shape = tuple(int(d) for d in rng.integers(1, 4, int(rng.integers(0, 3))))
  def operand():
    v = [rng.normal(size=shape) * 10. ** rng.uniform(-30, 30) for _ in range(2)]
    if rng.uniform() < .3:
      return v[0]
    return np.minimum(*v), np.maximum(*v)
  for op, f in (('add', np.add), ('subtract', np.subtract),
                ('multiply', np.multiply)):
    a, b = operand(), operand()
    corners = [np.asarray(f(x, y)) for x in _ends(a) for y in _ends(b)]
    got = ctx.sut(getattr(arith, op), a, b)
    lo, hi = [np.asarray(v) for v in _ends(got)]
    u, v = np.minimum.reduce(corners), np.maximum.reduce(corners)
    s = 1e-14 * np.maximum(np.abs(u), np.abs(v))
    ctx.count('elements', lo.size)
    if lo.shape != u.shape or not np.all(
        (np.abs(lo - u) <= s) & (np.abs(hi - v) <= s)):
      ctx.violation(f'{op}({a!r}, {b!r}) is [{lo}, {hi}], not [{u}, {v}]')
      return
    ctx.distinct(op, repr(a), repr(b))


KINDS = {'elementwise': (case_elementwise, 4800, 240000),
         'power': (case_power, 3600, 180000),
         'outer': (case_outer, 4200, 150000),
         'bilinear': (case_bilinear, 4800, 180000),
         'float': (case_float, 900, 30000)}
