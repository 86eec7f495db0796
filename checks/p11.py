"""P11: bounds are the same when computed under jit, vmap or traced inputs."""
import numpy as np
from lib import arrprog
from lib import progen
from lib import tb

PROPERTY = 'P11'
TECHNIQUE = ('runtime monitoring: differential - bounds computed eagerly, under '
             'jit, vmap and jit of vmap, and bounds evaluated at traced and '
             'batched points, are compared')
RULE = ('A case is a random program (scalar, or arrays of a scalar or vector), a '
        'batch of reference points and regions of different kinds, a degree and '
        'mode; non-trivial if coefficients were compared for every batch '
        'element; distinct by program, degree and mode.')
REQUIRE = {'coefficients': 4000, 'jit_runs': 80, 'vmap_runs': 60, 'traced_constants': 20,
           'evaluations': 1000, 'vector_argument': 20}


def setup():
  tb.setup_jax()


def _flat(bound):
  """Coefficients as a flat tuple (what a transformed function can return)."""
  return tuple(c for pair in bound.coefficients
               for c in (pair if isinstance(pair, tuple) else (pair,)))


def _kinds(bound):
  return tuple(isinstance(c, tuple) for c in bound.coefficients)


def _pair_up(flat, kinds):
  out, i = [], 0
  for k in kinds:
    n = 2 if k else 1
    out.append((np.asarray(flat[i]), np.asarray(flat[i + n - 1])))
    i += n
  return out


def _compare(ctx, how, got, want, width, scale, noise, what, x_ndim):
  """got, want: coefficient pairs for one (x0, region).

  width: largest |x - x0| over the region, scale: magnitude of intermediate
  values (a float), noise: function returning float32 coefficients.
  """
  c32 = None
  for i, (g, w) in enumerate(zip(got, want)):
    for e in (0, 1):
      a, b = np.asarray(g[e], float), np.asarray(w[e], float)
      ctx.count('coefficients', a.size)
      if a.shape != b.shape:
        ctx.violation(f'{how}: coefficient {i} has shape {a.shape}, eagerly '
                      f'{b.shape}: {what}')
        return False
      with np.errstate(all='ignore'):
        d = np.where((a == b) | (np.isnan(a) & np.isnan(b)), 0., np.abs(a - b))
        d = np.where(np.isnan(d), np.inf, d)
        ok = d <= 1e-11 * np.maximum(1., np.abs(b))
        ok |= d * width ** i <= 1e-11 * max(scale, 1e-300)
      if np.all(ok):
        continue
      if c32 is None:
        c32 = (noise(),)
      allowed = 0.
      if c32[0] is not None and i < len(c32[0]):
        u = np.asarray(c32[0][i][e], float)
        if u.shape == a.shape:
          with np.errstate(all='ignore'):
            allowed = 1e3 * 2. ** -29 * np.abs(u - b)
            allowed = np.where(np.isfinite(allowed), allowed, np.inf)
      ok |= d <= allowed
      ctx.count('suspects_within_roundoff', np.all(ok))
      if not np.all(ok):
        j = tuple(np.argwhere(~ok)[0])
        ctx.violation(f'{how}: coefficient {i}, end {e}{list(j)} is {a[j]!r}, '
                      f'eagerly {b[j]!r}: {what}')
        return False
  return True


def _run(ctx, f, degree, propagate, x0s, los, his, scale, what, mode):
  import jax
  import jax.numpy as jnp
  import autobound.jax as ab
  x_ndim = x0s[0].ndim
  bf = ab.taylor_bounds(f, degree, propagate_trust_regions=propagate)
  eager, kinds = [], None
  for x0, a, b in zip(x0s, los, his):
    r = ctx.sut(bf, x0, (a, b))
    eager.append(tb.coefficients(r))
    if kinds is not None and _kinds(r) != kinds:
      # E.g. a Python branch on the values of the region.
      ctx.violation(f'the structure of the bounds depends on the region: {what}')
      return
    kinds = _kinds(r)

  def traced(x0, a, b):
    r = bf(x0, (a, b))
    if _kinds(r) != kinds:
      raise AssertionError(f'structure {_kinds(r)} instead of {kinds}')
    return _flat(r)

  def noise(k):
    def n():
      with jax.enable_x64(False):
        try:
          f4 = np.float32
          return tb.coefficients(ab.taylor_bounds(
              f, degree, propagate_trust_regions=propagate)(
                  f4(x0s[k]), (f4(los[k]), f4(his[k]))))
        except Exception:  # pylint: disable=broad-except
          return None
    return n

  batch = tuple(jnp.asarray(np.stack(v)) for v in (x0s, los, his))
  runs = []
  if mode in ('jit', 'both'):
    g = jax.jit(traced)
    ctx.count('jit_runs')
    outs = [ctx.sut(g, x0, a, b) for x0, a, b in zip(x0s, los, his)]
    runs.append(('jit', outs))
  if mode in ('vmap', 'jit of vmap', 'both'):
    g = jax.vmap(traced)
    if mode != 'vmap':
      g = jax.jit(g)
    ctx.count('vmap_runs')
    out = ctx.sut(g, *batch)
    runs.append((mode, [[np.asarray(c)[k] for c in out]
                        for k in range(len(x0s))]))
  for how, outs in runs:
    for k in range(len(x0s)):
      width = float(np.max(np.maximum(x0s[k] - los[k], his[k] - x0s[k])))
      if not _compare(ctx, how, _pair_up(outs[k], kinds), eager[k], width, scale,
                      noise(k), f'{what}, x0={x0s[k].tolist()}, region '
                      f'{los[k].tolist()}..{his[k].tolist()}', x_ndim):
        return
  # Evaluation at traced and batched points.
  k = int(ctx.rng.integers(len(x0s)))
  r = bf(x0s[k], (los[k], his[k]))
  pts = np.stack([los[k] + (his[k] - los[k]) * ctx.rng.uniform(
      size=x0s[k].shape) for _ in range(3)] + [x0s[k], los[k]])
  for name in ('lower', 'upper'):
    fun = getattr(r, name)
    want = [np.asarray(ctx.sut(fun, p)) for p in pts]
    how = ['jit', 'vmap', 'call'][int(ctx.rng.integers(3))]
    if how == 'jit':
      g = jax.jit(fun)
      got = [np.asarray(ctx.sut(g, p)) for p in pts]
    elif how == 'vmap':
      got = list(np.asarray(ctx.sut(jax.vmap(fun), jnp.asarray(pts))))
    else:
      def pick(p):
        out = r(p)
        return out[name == 'upper'] if isinstance(out, tuple) else out
      got = [np.asarray(ctx.sut(pick, p)) for p in pts]
    for p, a, b in zip(pts, got, want):
      ctx.count('evaluations')
      _, _, mag = tb.array_bounds(eager[k], p - x0s[k])
      with np.errstate(all='ignore'):
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (
            np.abs(a - b) <= 1e-12 * mag) | ~np.isfinite(mag)
      if a.shape != b.shape or not np.all(ok):
        ctx.violation(f'{name}({p.tolist()}) is {a.tolist()} under {how}, '
                      f'{b.tolist()} eagerly: {what}')
        return
  ctx.distinct(what, mode)
  ctx.count('vector_argument', x_ndim > 0)
  ctx.count(f'degree.{degree}')


_MODES = ('jit', 'vmap', 'jit of vmap', 'both')


def case_scalar(ctx):
  rng = ctx.rng
  x0, a, b = progen.random_region(rng)
  if b - a < 1e-6:
    a, b = a - .5, b + .5
  degree = int(rng.choice(
      [0, 0, 1, 1, 1, 2, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 5]))
  prog = progen.generate(rng, (a, b), x0, degree, smooth=False,
                         n_ops=int(rng.integers(1, 6)))
  f = progen.to_jax(prog, int(rng.choice([0, 0, 1, 2, 3])))
  propagate = bool(rng.integers(2))
  # A batch of regions inside [a, b].
  x0s, los, his = [], [], []
  for k in range(4):
    c = a + (b - a) * rng.uniform()
    if k == 0:
      c = x0
    lo, hi = c - (c - a) * rng.uniform(), c + (b - c) * rng.uniform()
    r = rng.uniform()
    if r < .15:
      lo = c
    elif r < .3:
      hi = c
    elif r < .4:
      lo = hi = c
    elif r < .6:
      lo, hi = a, b
    x0s.append(np.asarray(float(c)))
    los.append(np.asarray(float(lo)))
    his.append(np.asarray(float(hi)))
  xs = np.linspace(a, b, 9)
  with np.errstate(all='ignore'):
    scale = float(np.max(progen.magnitude(prog, xs)))
  mode = _MODES[ctx.index % 4]
  what = f'{prog} degree {degree}, propagate={propagate}'
  ctx.describe(f'{what}, {mode}, x0s={x0s}')
  _run(ctx, f, degree, propagate, x0s, los, his, scale, what, mode)


def case_closure(ctx):
  """The bounded function captures traced values (e.g. parameters of a model)."""
  import jax
  import jax.numpy as jnp
  import autobound.jax as ab
  rng = ctx.rng
  x0, a, b = progen.random_region(rng)
  degree = int(rng.choice([0, 1, 2, 2, 3]))
  for _ in range(20):
    prog = progen.generate(rng, (a, b), x0, degree, n_ops=int(rng.integers(3, 7)))
    live = prog.live()
    where = [i for i in live if prog.nodes[i][0] == 'c']
    if where:
      break
  else:
    return
  propagate = bool(rng.integers(2))
  jit_mode = int(rng.choice([0, 1, 2, 3]))
  values = [jnp.asarray(prog.nodes[i][2]) for i in where]
  what = f'{prog} degree {degree}, propagate={propagate}, constants traced'
  ctx.describe(f'{what}, x0={x0}, region={(a, b)}')

  def coefs(x0, a, b, cs):
    nodes = list(prog.nodes)
    for i, c in zip(where, cs):
      nodes[i] = ('c', (), c)
    f = progen.to_jax(progen.Prog(nodes, prog.style), jit_mode)
    r = ab.taylor_bounds(f, degree, propagate_trust_regions=propagate)(x0, (a, b))
    shape.append(_kinds(r))
    return _flat(r)
  shape = []
  want = ctx.sut(coefs, x0, a, b, values)
  which = int(rng.integers(3))
  if which == 0:
    got = ctx.sut(jax.jit(coefs), x0, a, b, values)
  elif which == 1:
    got = ctx.sut(jax.jit(lambda cs: coefs(x0, a, b, cs)), values)
  else:
    got = ctx.sut(jax.vmap(lambda cs: coefs(x0, a, b, cs)),
                  [jnp.stack([v, v * 1.01]) for v in values])
    got = [np.asarray(v)[0] for v in got]
  if shape[0] != shape[1]:
    ctx.violation(f'structure {shape[1]} instead of {shape[0]}: {what}')
    return
  with np.errstate(all='ignore'):
    scale = float(np.max(progen.magnitude(prog, np.linspace(a, b, 9))))
  ctx.count('traced_constants')
  if _compare(ctx, ('jit', 'jit of constants', 'vmap of constants')[which],
              _pair_up(got, shape[0]), _pair_up(want, shape[0]),
              max(x0 - a, b - x0), scale,
              lambda: tb.float32_coefs(prog, jit_mode, degree, propagate, x0,
                                       (a, b)),
              f'{what}, x0={x0}, region={(a, b)}', 0):
    ctx.distinct(what, which)


def case_single(ctx):
  """One elementwise function; all cases of the formula in one batch."""
  rng = ctx.rng
  ops = ['exp', 'log', 'sqrt', 'rsqrt', 'sigmoid', 'softplus', 'swish', 'abs',
         'ipow', 'pow', 'swish', 'softplus', 'sigmoid']
  op = ops[ctx.index % len(ops)]
  degree = int(rng.integers(0, progen.MAX_DEGREE.get(op, 5) + 1))
  param = None
  if op == 'ipow':
    param = int(rng.integers(-3, 6))
  elif op == 'pow':
    param = float(rng.choice([-1.5, -.5, .5, 1.5, 2.5, 1 / 3]))
  positive = op in ('log', 'sqrt', 'rsqrt', 'pow')
  prog = progen.Prog([('x', (), None), (op, (0,), param)],
                     [0, int(rng.integers(1000))])
  x0s, los, his = [], [], []
  for _ in range(8):
    c = rng.uniform(-5, 5)
    wa, wb = rng.uniform(0, 4, 2) * rng.choice([0, .1, 1, 1])
    if positive:
      c = rng.uniform(.5, 5)
      wa = min(wa, c - .3)
    x0s.append(np.asarray(c))
    los.append(np.asarray(c - wa))
    his.append(np.asarray(c + wb))
  propagate = bool(rng.integers(2))
  mode = ('jit', 'jit of vmap')[int(rng.integers(2))]
  with np.errstate(all='ignore'):
    scale = float(np.max(progen.magnitude(prog, np.stack(los + his + x0s))))
  if not np.isfinite(scale):
    scale = 1.
  what = f'{prog} degree {degree}, propagate={propagate}'
  ctx.describe(f'{what}, {mode}, x0s={x0s}')
  _run(ctx, progen.to_jax(prog, int(rng.integers(2))), degree, propagate, x0s,
       los, his, scale, what, mode)


def case_array(ctx):
  rng = ctx.rng
  shape, dims = (((), (1, 2)), ((2,), (1, 2)), ((2,), (2,)), ((), (2, 3)))[
      ctx.index % 4]
  from checks import p02
  degree = int(rng.choice([0, 1, 1, 2, 2, 3] if not shape else [0, 1, 1, 2, 2]))
  x0, a, b = p02.region(rng, shape)
  g = arrprog.Generator(rng, a, b, dims=dims, conv=not shape, max_degree=degree,
                        limit=8)
  prog = g.build(int(rng.integers(2, 5)))
  propagate = bool(rng.integers(2))
  x0s, los, his = [x0], [a], [b]
  for _ in range(2):
    c = a + (b - a) * rng.uniform(size=shape)
    lo = c - (c - a) * rng.uniform(size=shape)
    hi = c + (b - c) * rng.uniform(size=shape)
    x0s.append(np.asarray(c))
    los.append(np.asarray(lo))
    his.append(np.asarray(hi))
  scale = max(float(np.max(prog.evaluate(x)[1], initial=0.)) for x in (a, b, x0))
  mode = ('jit', 'jit of vmap')[int(rng.integers(2))]
  what = f'{prog} degree {degree}, propagate={propagate}'
  ctx.describe(f'{what}, {mode}')
  _run(ctx, prog.to_jax(int(rng.choice([0, 0, 1, 3]))), degree, propagate, x0s, los,
       his, scale, what, mode)


KINDS = {'scalar': (case_scalar, 120, 4000),
         'closure': (case_closure, 48, 2400),
         'single': (case_single, 78, 2600),
         'array': (case_array, 48, 2600)}
