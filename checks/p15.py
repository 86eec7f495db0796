"""P15: applications built on the bounds keep their guarantees."""
import numpy as np
from lib import nets
from lib import progen
from lib import tb

PROPERTY = 'P15'
TECHNIQUE = ('runtime monitoring: monitors on the histories of optimisers, '
             'integrators and branch-and-bound searches that use the bounds, '
             'with losses, integrals and minima computed independently')
RULE = ('A case trains a random network (dense, convolutional, residual; five '
        'losses) for several majorise-minimise steps with one or several '
        'learning rates, or integrates bounds of a random program over cells, '
        'or minimises a function by branch and bound; non-trivial if steps, '
        'cells or prunings were judged; distinct by problem, degree and mode.')
REQUIRE = {'mm_steps': 50, 'mm_decreases': 20, 'mm_points': 400,
           'integrals': 30, 'cells': 100, 'informative_integrals': 25,
           'boxes': 200, 'pruned': 40, 'searches': 12}


def setup():
  tb.setup_jax()


def minimize_piecewise(lo_hi, a, b, which):
  """(argmin, min) over [a, b] of the lower (0) or upper (1) bound polynomial.

  a <= 0 <= b are displacements; exact up to the roots of its derivative.
  """
  cands = [0., a, b]
  n = len(lo_hi) - 1
  for side in (-1, 1):
    c = []
    for i, pair in enumerate(lo_hi):
      s = -1 if side < 0 and i % 2 else 1
      c.append(float(pair[which if s > 0 else 1 - which]))
    d = [i * c[i] for i in range(1, n + 1)]
    while d and d[-1] == 0:
      d.pop()
    if len(d) > 1 and np.all(np.isfinite(d)):
      for r in np.roots(d[::-1]):
        if abs(r.imag) < 1e-9 * (1 + abs(r)):
          cands.append(float(np.clip(r.real, a, b)))
  cands = np.array(cands + list(np.linspace(a, b, 9)))
  v = tb.scalar_bounds(lo_hi, cands)[which]
  if np.any(np.isnan(v)):
    v = np.where(np.isnan(v), np.inf if which else -np.inf, v)
  i = int(np.argmin(v))
  return float(cands[i]), float(v[i])


def case_train(ctx):
  """Majorise-minimise steps with one learning rate."""
  import autobound.jax as ab
  import jax
  rng = ctx.rng
  single = rng.uniform() < .25
  jit = rng.uniform() < .3
  problem = nets.random_problem(rng, 2 if single else 3)
  jlib = nets.JaxLib(ctx.index)
  degree = int(rng.choice([1, 2, 2, 2, 3, 4]))
  propagate = bool(rng.integers(2))
  params = problem.params
  max_eta = float(10. ** rng.uniform(-3, .5))
  what = f'{problem} degree {degree} propagate={propagate} jit={jit}'
  if single:
    what += ' float32'
  ctx.describe(what)
  ft = np.float32 if single else np.float64

  def bound(p, d, top):
    next_loss = lambda eta: problem(
        jlib, [w + eta * v for w, v in zip(p, d)])
    return ab.taylor_bounds(next_loss, degree,
                            propagate_trust_regions=propagate)(
                                ft(0.), (ft(0.), top))

  def coefficients(p, d, top):
    b = bound(p, d, top)
    return (b.coefficients, b.final_interval(), b.upper(.5 * top),
            b.lower(.5 * top))

  run = jax.jit(coefficients) if jit else coefficients
  loss0 = None
  with jax.enable_x64(not single):
    if single:
      problem.x, problem.y = problem.x.astype(ft), problem.y.astype(ft)
    for step in range(3):
      kind = ['gradient', 'gradient', 'momentum', 'sign', 'random', 'ascent',
              'one'][int(rng.integers(7))]
      d, grad = nets.direction(rng, problem, [p.astype(ft) for p in params],
                               jlib, kind)
      p32 = [p.astype(ft) for p in params]
      d32 = [v.astype(ft) for v in d]
      coefs, fi, up, lo_ = ctx.sut(run, p32, d32, ft(max_eta))
      coefs = [tb.as_pair(c) for c in coefs]
      top = float(ft(max_eta))
      truth = lambda eta: float(problem(
          nets.NpLib, [np.asarray(p, np.longdouble) + np.longdouble(eta) * v
                       for p, v in zip(p32, d32)], np.longdouble))
      old = truth(0.)
      eta, best = minimize_piecewise(coefs, 0., top, 1)
      terms = float(tb.abs_terms(coefs, top))
      if not np.isfinite(terms):
        # Overflow, for example of exp() over a huge step.
        ctx.count('mm_uninformative')
        max_eta *= .1
        continue
      scale = terms + abs(old)
      tol = (3e-4 if single else 1e-10) * scale
      ctx.count('mm_steps')
      # The value and the slope at x0.
      slope = sum(float(np.sum(np.asarray(g, float) * np.asarray(v, float)))
                  for g, v in zip(grad, d32))
      size = sum(float(np.sum(np.abs(np.asarray(g, float) * v)))
                 for g, v in zip(grad, d32))
      if abs(float(coefs[0][1]) - old) > (3e-5 if single else 1e-10) * (
          1 + abs(old)):
        ctx.violation(f'step {step}: the upper bound at x0 is '
                      f'{float(coefs[0][1])!r}, the loss is {old!r}: {what}')
        return
      if degree > 1 and len(coefs) > 1 and abs(
          float(coefs[1][1]) - slope) > (1e-2 if single else 1e-7) * (
              size + 1e-3 * (1 + abs(old))):
        ctx.violation(f'step {step}: the slope of the upper bound is '
                      f'{float(coefs[1][1])!r}, that of the loss {slope!r}: '
                      f'{what}')
        return
      # The bounds hold along the step.
      etas = np.concatenate([[0., eta, top, top / 2], rng.uniform(0, top, 3),
                             top * 10. ** rng.uniform(-4, 0, 2)])
      lo, hi = tb.scalar_bounds(coefs, etas)
      for e, l, u in zip(etas, lo, hi):
        f = truth(e)
        ctx.count('mm_points')
        if f > u + tol or f < l - tol:
          ctx.violation(f'step {step} ({kind}): the loss at learning rate {e} '
                        f'is {f!r}, outside of [{l!r}, {u!r}]: {what}',
                        coefs=coefs, max_eta=top)
          return
      mid = truth(top / 2)
      if mid > float(up) + tol or mid < float(lo_) - tol:
        ctx.violation(f'step {step}: upper() and lower() give {float(up)!r} and '
                      f'{float(lo_)!r} where the loss is {mid!r}: {what}')
        return
      new = truth(eta)
      if new > old + tol or best > float(coefs[0][1]) + tol:
        ctx.violation(f'step {step} ({kind}) with learning rate {eta} increases '
                      f'the loss from {old!r} to {new!r}, the upper bound is '
                      f'{best!r}: {what}', coefs=coefs, max_eta=top)
        return
      if new < old - tol:
        ctx.count('mm_decreases')
      params = [p + eta * v for p, v in zip(params, d)]
      max_eta = max_eta / 2 if eta < max_eta / 2 else max_eta * 2
      max_eta = min(max_eta, 20.)
  ctx.distinct(problem.key(), degree, propagate, single)


def case_combine(ctx):
  """One learning rate per parameter or per direction, chosen jointly."""
  import autobound.jax as ab
  rng = ctx.rng
  problem = nets.random_problem(rng, 2, conv=rng.uniform() < .2)
  jlib = nets.JaxLib(ctx.index)
  degree = int(rng.choice([1, 2, 2, 3]))
  propagate = bool(rng.integers(2))
  params = problem.params
  per_layer = rng.uniform() < .5
  if per_layer:
    d, _ = nets.direction(rng, problem, params, jlib,
                          ['gradient', 'momentum', 'random'][ctx.index % 3])
    n = len(params)
    dirs = [[v if i == j else np.zeros_like(v) for j, v in enumerate(d)]
            for i in range(n)]
  else:
    n = int(rng.integers(2, 4))
    dirs = [nets.direction(rng, problem, params, jlib, k)[0] for k in
            rng.choice(['gradient', 'sign', 'random', 'momentum'], n)]
  top = 10. ** rng.uniform(-2, 0, n)
  bottom = -top * rng.choice([0., 0., 1., .3], n)
  what = f'{problem} with {n} learning rates, degree {degree}'
  ctx.describe(what)
  stacked = [np.stack([dirs[k][j] for k in range(n)])
             for j in range(len(params))]
  form = int(rng.integers(3))
  if per_layer and form == 0:
    loss = lambda eta: problem(jlib, [w + eta[i] * v for i, (w, v) in
                                      enumerate(zip(params, d))])
  else:
    xp = jlib.xp
    loss = lambda eta: problem(jlib, [
        w + xp.tensordot(eta, s, 1) for w, s in zip(params, stacked)])
  bound = None
  try:
    bound = ab.taylor_bounds(loss, degree, propagate_trust_regions=propagate)(
        np.zeros(n), (bottom, top))
  except Exception:  # pylint: disable=broad-except
    # Indexing x, and convolutions that depend on a vector, are not supported.
    if form == 0 and per_layer or any(l[0] == 'conv' for l in problem.layers):
      ctx.count('not_supported')
      return
    raise
  coefs = tb.coefficients(bound)
  truth = lambda eta: float(problem(nets.NpLib, [
      w + np.tensordot(np.asarray(eta, np.longdouble), s, 1)
      for w, s in zip(params, stacked)], np.longdouble))
  old = truth(np.zeros(n))
  best, arg = np.inf, np.zeros(n)
  pts = tb.sample_vector_points(rng, np.zeros(n), bottom, top, 60)
  for x in [np.zeros(n)] + pts:
    lo, hi, mag = tb.array_bounds(coefs, x)
    if not np.isfinite(mag):
      ctx.count('mm_uninformative')
      return
    if hi < best:
      best, arg = float(hi), x
  _, _, mag = tb.array_bounds(coefs, np.maximum(top, -bottom))
  tol = 1e-10 * (float(mag) + abs(old))
  for x in [arg] + pts[:12]:
    f = truth(x)
    lo, hi = float(ctx.sut(bound.lower, x)), float(ctx.sut(bound.upper, x))
    ctx.count('mm_points')
    if not lo - tol <= f <= hi + tol:
      ctx.violation(f'the loss at {x.tolist()} is {f!r}, outside of [{lo!r}, '
                    f'{hi!r}]: {what}', coefs=coefs)
      return
  new = truth(arg)
  ctx.count('mm_steps')
  if new > old + tol:
    ctx.violation(f'the learning rates {arg.tolist()} increase the loss from '
                  f'{old!r} to {new!r}: {what}', coefs=coefs)
    return
  if new < old - tol:
    ctx.count('mm_decreases')
  ctx.distinct('combine', problem.key(), degree, n)


_NODES = {}


def _gauss(f, a, b, n):
  if n not in _NODES:
    _NODES[n] = np.polynomial.legendre.leggauss(n)
  t, w = _NODES[n]
  x = .5 * (a + b) + .5 * (b - a) * t
  return .5 * (b - a) * float(np.sum(w * f(x)))


def _antiderivative(c, x):
  return sum(ci * x ** (i + 1) / (i + 1) for i, ci in enumerate(c))


def integrate_bounds(coefs, l, r):
  """Integrals of the lower and upper bound from displacement l <= 0 to r."""
  out = []
  for which in (0, 1):
    right = [float(c[which]) for c in coefs]
    left = [float(c[1 - which if i % 2 else which])
            for i, c in enumerate(coefs)]
    out.append(_antiderivative(right, r) - _antiderivative(left, l))
  return out


def case_integral(ctx):
  """Integrals of the bounds over cells bracket the integral."""
  import autobound.jax as ab
  import jax
  rng = ctx.rng
  x0, a, b = progen.random_region(rng)
  if b - a < 1e-2:
    a, b = x0 - .5, x0 + 1.
  degree = int(rng.choice([0, 1, 2, 2, 3, 4, 4]))
  n = int(rng.choice([1, 2, 3, 5, 8]))
  prog = progen.generate(rng, (a, b), x0, degree, smooth=True)
  propagate = bool(rng.integers(2))
  mapped = rng.uniform() < .5
  off = float(rng.choice([.5, .5, 0., 1., .3]))
  what = f'{prog} over {(a, b)} in {n} cells, degree {degree}'
  ctx.describe(what)
  edges = np.linspace(a, b, n + 1)
  fn = ab.taylor_bounds(progen.to_jax(prog, 0), degree,
                        propagate_trust_regions=propagate)
  mids = np.clip(edges[:-1] + off * np.diff(edges), edges[:-1], edges[1:])
  if mapped:
    out = ctx.sut(jax.vmap(lambda m, u, v: fn(m, (u, v)).coefficients), mids,
                  edges[:-1], edges[1:])
    batch = [tb.as_pair(c) for c in out]
    cells = [[tuple(np.broadcast_to(e, (n,))[i] for e in c) for c in batch]
             for i in range(n)]
  else:
    cells = [tb.coefficients(ctx.sut(fn, m, (u, v)))
             for m, u, v in zip(mids, edges[:-1], edges[1:])]
  f = lambda x: np.broadcast_to(
      np.asarray(progen.evaluate(prog, x, progen.NpLib), float), x.shape)
  total_lo = total_hi = total = slack = 0.
  for coefs, m, u, v in zip(cells, mids, edges[:-1], edges[1:]):
    lo, hi = integrate_bounds(coefs, u - m, v - m)
    k = 8
    sub = np.linspace(u, v, k + 1)
    t1 = sum(_gauss(f, s, t, 30) for s, t in zip(sub[:-1], sub[1:]))
    t2 = sum(_gauss(f, s, t, 17) for s, t in zip(sub[:-1], sub[1:]))
    mag = float(np.max(progen.magnitude(prog, np.linspace(u, v, 9))))
    terms = float(tb.abs_terms(coefs, max(v - m, m - u)))
    if not np.isfinite(mag + terms):
      ctx.count('integrals_without_information')
      return
    tol = 10 * abs(t1 - t2) + 1e-10 * (mag + terms) * (v - u)
    ctx.count('cells')
    if t1 < lo - tol or t1 > hi + tol:
      ctx.violation(f'the integral over [{u}, {v}] is {t1!r}, outside of [{lo!r}'
                    f', {hi!r}]: {what}', coefs=coefs)
      return
    total_lo, total_hi, total = total_lo + lo, total_hi + hi, total + t1
    slack += tol
  ctx.count('integrals')
  if not total_lo - slack <= total <= total_hi + slack:
    ctx.violation(f'the integral is {total!r}, outside of [{total_lo!r}, '
                  f'{total_hi!r}]: {what}')
    return
  ctx.count('informative_integrals', total_hi - total_lo < 1e6)
  ctx.distinct('integral', prog.key(), degree, n, a, b)


def _vector_objectives():
  import jax
  import jax.numpy as jnp
  def both(g):
    return (lambda x: g(x, jnp, jax.nn.sigmoid, jax.nn.softplus),
            lambda x: g(x, np, nets._np_sig, nets._np_softplus))
  def sel(x, xp, i, n):
    return xp.dot(np.eye(n)[i], x)
  return {
      'rosenbrock': (2, both(lambda x, xp, s, p: (1 - sel(x, xp, 0, 2)) ** 2 + (
          100. * (sel(x, xp, 1, 2) - sel(x, xp, 0, 2) ** 2) ** 2))),
      'styblinski': (2, both(lambda x, xp, s, p: .5 * xp.sum(
          x ** 4 - 16 * x ** 2 + 5 * x))),
      'camel': (2, both(lambda x, xp, s, p: (
          lambda u, v: (4 - 2.1 * u ** 2 + u ** 4 / 3) * u ** 2 + u * v + (
              4 * v ** 2 - 4) * v ** 2)(sel(x, xp, 0, 2), sel(x, xp, 1, 2)))),
      'wells': (2, both(lambda x, xp, s, p: -xp.exp(-xp.sum(
          (x - np.array([1., .5])) ** 2)) - 1.2 * xp.exp(-3 * xp.sum(
              (x + np.array([.7, 1.1])) ** 2)))),
      'network': (2, both(lambda x, xp, s, p: xp.sum(
          s(np.array([[2., -3.], [-4., 1.], [1.5, 2.5]]) @ x
            + np.array([.5, -1., 0.])) * np.array([1., 2., -3.])))),
      'softplus': (3, both(lambda x, xp, s, p: xp.sum(
          p(np.array([[1., 2., -1.], [-3., .5, 1.], [.5, -1.5, 2.]]) @ x))
                           + .1 * xp.sum(x * x))),
      'logbarrier': (2, both(lambda x, xp, s, p: -xp.sum(xp.log(
          np.array([[1., 2.], [-1., .5], [.3, -1.]]) @ x + 8.))
                             + xp.sum(x ** 3) / 9)),
      'ratio': (2, both(lambda x, xp, s, p: xp.sum(x) / (
          1. + xp.sum(x ** 2)))),
      'quadratic': (3, both(lambda x, xp, s, p: xp.dot(x, np.array(
          [[2., -1., .5], [-1., .5, 0.], [.5, 0., 1.]]) @ x) + x[0] * 0.
                            if xp is np else xp.dot(x, np.array(
          [[2., -1., .5], [-1., .5, 0.], [.5, 0., 1.]]) @ x))),
      'matching': (2, both(lambda x, xp, s, p: xp.sum((xp.outer(x, x) - np.array(
          [[1., -.5], [-.5, .25]])) ** 2))),
  }


BATCH = 16


def _search(ctx, fn, f, x0_dim, a, b, degree, rounds, what, tol_scale):
  """Branch and bound; monitors every pruning against dense sampling."""
  import jax
  rng = ctx.rng
  scalar = x0_dim == 0
  boxes = [(np.asarray(a, float), np.asarray(b, float))]
  run = jax.jit(jax.vmap(lambda m, u, v: fn(m, (u, v)).coefficients))
  best, arg = np.inf, None
  if scalar:
    dense = np.concatenate([np.linspace(a, b, 1500), [a, b]])
    values = f(dense)
  else:
    dense = np.asarray(a) + (np.asarray(b) - a) * rng.uniform(
        size=(1500, x0_dim))
    # Look closer around the best ones.
    v = np.array([f(x) for x in dense])
    near = dense[np.argsort(v)[:20]]
    near = np.clip(np.concatenate([near + (np.asarray(b) - a) * 10. ** -k *
                                   rng.normal(size=near.shape)
                                   for k in (2, 3, 4)]), a, b)
    dense = np.concatenate([dense, near])
    values = np.concatenate([v, [f(x) for x in near]])
  if not np.all(np.isfinite(values)):
    return
  lowest_kept = None
  removed = []   # (u, v, lower bound)
  for _ in range(rounds):
    if not boxes:
      break
    boxes = boxes[:BATCH]
    dropped_for_size = []
    us = np.array([u for u, _ in boxes] + [boxes[0][0]] * (BATCH - len(boxes)))
    vs = np.array([v for _, v in boxes] + [boxes[0][1]] * (BATCH - len(boxes)))
    t = rng.choice([.5, .5, .5, 0., 1., .3])
    ms = np.clip(us + t * (vs - us), us, vs)
    out = [tb.as_pair(c) for c in ctx.sut(run, ms, us, vs)]
    kept = []
    for i, (u, v) in enumerate(boxes):
      coefs = [tuple(e[i] if e.ndim and e.shape[0] == BATCH else e for e in c)
               for c in out]
      m = ms[i]
      ctx.count('boxes')
      fm = float(f(m))
      if fm < best:
        best, arg = fm, m
      if scalar:
        _, low = minimize_piecewise(coefs, u - m, v - m, 0)
        slack = float(tb.abs_terms(coefs, max(v - m, m - u)))
        inside = (dense >= u) & (dense <= v)
      else:
        # Each term over the box, by intervals.
        low = slack = 0.
        lo_h, hi_h = u - m, v - m
        for k, (cl, ch) in enumerate(coefs):
          if k == 0:
            low += float(cl)
            slack += abs(float(cl))
            continue
          pl = ph = np.ones(())
          for _ in range(k):
            prods = [np.multiply.outer(p, h) for p in (pl, ph)
                     for h in (lo_h, hi_h)]
            pl, ph = np.min(prods, 0), np.max(prods, 0)
          prods = [c * p for c in (cl, ch) for p in (pl, ph)]
          low += float(np.sum(np.min(prods, 0)))
          slack += float(np.sum(np.max(np.abs(prods), 0)))
        inside = np.all((dense >= u) & (dense <= v), -1)
      if np.isnan(low):
        low = -np.inf
      if not np.isfinite(slack):
        slack = 0.
      tol = 1e-10 * (slack + tol_scale)
      # No point of the box lies below its lower bound.
      if np.any(inside):
        j = int(np.argmin(np.where(inside, values, np.inf)))
        if values[j] < low - tol:
          ctx.violation(
              f'the lower bound of {what} on [{u.tolist()}, {v.tolist()}] is '
              f'{low!r}, but the value at {np.asarray(dense[j]).tolist()} is '
              f'{values[j]!r}', coefs=coefs)
          return
      if low > best + tol:
        ctx.count('pruned')
        removed.append((u, v))
      else:
        kept.append((low, u, v))
    kept.sort(key=lambda k: k[0])
    boxes = []
    for low, u, v in kept:
      if len(boxes) + 2 > BATCH:
        dropped_for_size.append(low)
        continue
      if scalar:
        c = .5 * (u + v)
        boxes += [(u, np.asarray(c)), (np.asarray(c), v)]
      else:
        k = int(np.argmax(v - u))
        c = .5 * (u[k] + v[k])
        v2, u2 = v.copy(), u.copy()
        v2[k] = u2[k] = c
        boxes += [(u, v2), (u2, v)]
    if dropped_for_size:
      break
  # The best sampled point was not discarded by a bound.
  j = int(np.argmin(values))
  for u, v in removed:
    if np.all(dense[j] >= u) and np.all(dense[j] <= v) and (
        values[j] < best - 1e-9 * (tol_scale + abs(best))):
      ctx.violation(f'{what}: the box [{u.tolist()}, {v.tolist()}] was discarded '
                    f'although it contains the minimiser '
                    f'{np.asarray(dense[j]).tolist()}')
      return
  ctx.count('searches')
  ctx.count('searches_that_pruned', bool(removed))


def case_minimize(ctx):
  """Branch and bound on random programs of a scalar."""
  import autobound.jax as ab
  rng = ctx.rng
  x0, a, b = progen.random_region(rng)
  if b - a < .3:
    a, b = x0 - 1., x0 + 1.5
  degree = int(rng.choice([0, 1, 2, 2, 3, 4]))
  prog = progen.generate(rng, (a, b), x0, degree, n_ops=int(
      rng.integers(3, 9)), limit=1e3)
  propagate = bool(rng.integers(4))
  ctx.describe(f'{prog} on {(a, b)}, degree {degree}')
  f = lambda x: np.broadcast_to(np.asarray(
      progen.evaluate(prog, np.asarray(x, float), progen.NpLib), float),
                                np.shape(x))
  with np.errstate(all='ignore'):
    mag = progen.magnitude(prog, np.linspace(a, b, 33))
  mag = float(np.max(mag))
  if not np.isfinite(mag):
    return
  _search(ctx, ab.taylor_bounds(progen.to_jax(prog, 0), degree,
                                propagate_trust_regions=propagate), f, 0, a, b,
          degree, 8, str(prog), mag)
  ctx.distinct('minimize', prog.key(), degree, a, b)


def case_minimize_vector(ctx):
  """Branch and bound on classical functions of vectors."""
  import autobound.jax as ab
  rng = ctx.rng
  objectives = _vector_objectives()
  names = sorted(objectives)
  name = names[ctx.index % len(names)]
  n, (g, f) = objectives[name]
  degree = int(rng.choice([0, 1, 2, 2, 3]))
  propagate = bool(rng.integers(4))
  a = np.round(-rng.uniform(.3, 2.5, n), 2)
  b = np.round(rng.uniform(.3, 2.5, n), 2)
  ctx.describe(f'{name} on {a.tolist()}..{b.tolist()}, degree {degree}')
  _search(ctx, ab.taylor_bounds(g, degree, propagate_trust_regions=propagate),
          lambda x: float(f(np.asarray(x, float))), n, a, b, degree, 7,
          f'{name} (degree {degree})', 50.)
  ctx.distinct('vector', name, degree, a.tobytes(), b.tobytes())


KINDS = {
    'train': (case_train, 40, 2500),
    'combine': (case_combine, 16, 1200),
    'integral': (case_integral, 64, 6000),
    'minimize': (case_minimize, 24, 2000),
    'minimize_vector': (case_minimize_vector, 10, 800),
}
