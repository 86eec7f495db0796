"""P02: bounds of array-valued and vector-argument functions."""
import numpy as np
from lib import arrprog
from lib import tb

PROPERTY = 'P02'
TECHNIQUE = ('runtime monitoring: shape and bracket oracle (independent numpy '
             'evaluation) over random array programs')
RULE = ('A case is a random program on arrays (elementwise functions, '
        'broadcasts, reductions, reshapes, transposes, einsum/matmul with '
        'contracting and batch dimensions, convolution, pooling), with a '
        'scalar or vector argument, a region, a degree and a propagation mode; '
        'non-trivial if bounds were returned and every element was compared '
        'at 5 or more points; distinct by program, degree and mode.')
REQUIRE = {'elements': 5000, 'vector_argument': 60, 'op.einsum': 60,
           'op.conv': 15, 'op.pool': 15, 'op.sum': 20, 'apart': 15}


def setup():
  tb.setup_jax()


def region(rng, shape):
  x0 = np.round(rng.normal(size=shape), 2)
  if rng.uniform() < .2:
    x0 = np.where(rng.uniform(size=shape) < .5, 0., x0)
  ha, hb = rng.uniform(0, .8, size=(2,) + shape)
  r = rng.uniform()
  if r < .1:
    ha = ha * 0
  elif r < .2:
    hb = hb * 0
  elif r < .3:
    ha, hb = ha * 1e-3, hb * 1e-3
  elif r < .4:
    ha = np.where(rng.uniform(size=shape) < .5, 0., ha)
    hb = np.where(rng.uniform(size=shape) < .5, 0., hb)
  return x0, x0 - ha, x0 + hb


def run(ctx, prog, x0, a, b, degree, propagate, jit_mode):
  import autobound.jax as ab
  import jax
  bound = ctx.sut(lambda: ab.taylor_bounds(
      prog.to_jax(jit_mode), degree, propagate_trust_regions=propagate)(
          x0, (a, b)))
  def c32():
    with jax.enable_x64(False):
      try:
        f4 = np.float32
        return tb.coefficients(ab.taylor_bounds(
            prog.to_jax(jit_mode), degree, propagate_trust_regions=propagate)(
                f4(x0), (f4(a), f4(b))))
      except Exception:  # pylint: disable=broad-except
        return None
  return bound, c32


def judge(ctx, prog, bound, c32, x0, a, b, degree, propagate, n):
  coefs = tb.coefficients(bound)
  pts = tb.sample_vector_points(ctx.rng, x0, a, b, n)
  if not tb.check_array_soundness(ctx, prog, coefs, x0, (a.tolist(), b.tolist()),
                                  pts, c32):
    return
  tb.check_description(ctx, bound, x0, (a, b), prog)
  for i, (l, _) in enumerate(coefs):
    n_axes = i * x0.ndim
    if l.shape[l.ndim - n_axes:] != x0.shape * i:
      ctx.violation(f'coefficient {i} has shape {l.shape}', program=prog)
  # The library's own evaluation: shape and value.
  for x in (pts[0], pts[-1]):
    f, m = prog.evaluate(x)
    lo, hi, mag = tb.array_bounds(coefs, x - x0)
    for name, want in (('lower', lo), ('upper', hi)):
      got = np.asarray(ctx.sut(getattr(bound, name), x))
      ctx.count('library_evaluations')
      if got.shape != f.shape:
        ctx.violation(f'{name}({x.tolist()}) has shape {got.shape}, the value '
                      f'of the function {f.shape}', program=prog, x0=x0)
        return
      ok = np.isclose(got, want, rtol=0, atol=0) | (
          np.abs(got - want) <= 1e-10 * mag) | ~np.isfinite(want)
      if not np.all(ok):
        ctx.violation(f'{name}({x.tolist()}) is {got.tolist()}, the '
                      f'coefficients give {want.tolist()}', program=prog,
                      x0=x0, coefs=coefs)
        return
  ctx.distinct(prog.key(), degree, propagate)
  for op in set(prog.ops()):
    ctx.count('op.' + op)
  ctx.count('vector_argument', x0.ndim > 0)
  ctx.count(f'degree.{degree}')


FAMILIES = (((), (1, 2)), ((2,), (1, 2)), ((), (2, 3)), ((3,), (1, 3)),
            ((), (1, 3)), ((2,), (2,)), ((1,), (1, 2)), ((2,), (2, 3)))


def case_program(ctx):
  rng = ctx.rng
  shape, dims = FAMILIES[ctx.index % len(FAMILIES)]
  degree = int(rng.choice([0, 1, 1, 2, 2, 2, 3, 3] + ([4] if not shape else [])))
  x0, a, b = region(rng, shape)
  g = arrprog.Generator(rng, a, b, dims=dims, conv=not shape,
                        max_degree=degree, limit=12 if not shape else 9)
  prog = g.build(int(rng.integers(2, 7)))
  jit_mode = int(rng.choice([0, 0, 0, 1, 2, 3, 3]))
  propagate = bool(rng.integers(2))
  ctx.describe(f'{prog} at x0={x0.tolist()} on {a.tolist()}..{b.tolist()}, '
               f'degree {degree}, propagate={propagate}, jit={jit_mode}')
  if rng.uniform() < .15:
    # A part of the region beside the reference point, or some of its elements.
    end = np.where(x0 - a > b - x0, a, b)
    u, v = np.sort(rng.uniform(.02, 1, (2,) + shape), axis=0)
    p, q = x0 + u * (end - x0), x0 + v * (end - x0)
    a, b = np.minimum(p, q), np.maximum(p, q)
    ctx.count('apart')
  bound, c32 = run(ctx, prog, x0, a, b, degree, propagate, jit_mode)
  judge(ctx, prog, bound, c32, x0, a, b, degree, propagate, 12)


def case_chain(ctx):
  """One or two structural operations around an elementwise function.

  A vector or array that depends on x nonlinearly goes through one structural
  operation, so that every coefficient, interval or not, passes through it.
  """
  rng = ctx.rng
  shape, dims = FAMILIES[ctx.index % len(FAMILIES)]
  degree = int(rng.choice([1, 2, 2, 3]))
  x0, a, b = region(rng, shape)
  g = arrprog.Generator(rng, a, b, dims=dims, conv=not shape,
                        max_degree=degree, limit=18)
  # make something with two or three axes
  i = 0
  if not shape:
    c = g.const(tuple(int(rng.choice(dims)) for _ in range(
        int(rng.integers(1, 4)))))
    i = g.add('mul', (i, c)) if c is not None else i
  elif rng.uniform() < .6:
    c = g.const((int(rng.choice(dims)), 1) if rng.uniform() < .5 else
                (int(rng.choice(dims)), shape[0]))
    i = g.add('mul', (i, c)) if c is not None else i
  i = g.add(str(rng.choice([o for o in ('exp', 'sigmoid', 'softplus')
                            if o in g.elementwise])), (i if i else 0,))
  for _ in range(30):
    k = len(g.nodes)
    j = g.step()
    if j is not None and g.dep[j] and g.nodes[j][0] not in arrprog.UNARY:
      if rng.uniform() < .6:
        break
  if rng.uniform() < .5:
    last = max(j for j in range(len(g.nodes)) if g.dep[j])
    g.add('exp', (last,)) or g.add('neg', (last,))
  prog = g.build(0)
  propagate = bool(rng.integers(2))
  ctx.describe(f'{prog} at x0={x0.tolist()} on {a.tolist()}..{b.tolist()}, '
               f'degree {degree}, propagate={propagate}')
  bound, c32 = run(ctx, prog, x0, a, b, degree, propagate, 0)
  judge(ctx, prog, bound, c32, x0, a, b, degree, propagate, 12)


KINDS = {
    'program': (case_program, 200, 8000),
    'chain': (case_chain, 140, 6000),
}
