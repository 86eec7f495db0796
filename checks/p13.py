"""P13: user-registered elementwise operations."""
import math

import numpy as np
from lib import arrprog
from lib import progen
from lib import tb
from lib import userops
from lib.runner import SutError

PROPERTY = 'P13'
TECHNIQUE = ('runtime monitoring: registered rules record the arguments they '
             'receive (checked against independent values), bracket oracle on '
             'the bounds, twin runs with built-in operations, and histories of '
             'registrations')
RULE = ('A case is a random scalar or array program that mixes registered and '
        'built-in operations, a stub rule with random coefficients applied to '
        'an affine map, a program whose built-in operations are exchanged for '
        'registered twins, or a history of registrations; non-trivial if the '
        'rule was called and its arguments or result judged; distinct by '
        'program, degree, region and mode.')
REQUIRE = {'rule_calls': 400, 'uses_matched': 200, 'points': 4000,
           'elements': 700, 'alias_coefficients': 40,
           'stub_coefficients': 250, 'history_steps': 100}

SMOOTH = ('sin', 'cos', 'tanh', 'ucube')
OPS = SMOOTH + ('uramp', 'uloose', 'uatan')
_STUB = {}


def setup():
  import jax.numpy as jnp
  from autobound.jax import jax_bound
  tb.setup_jax()
  userops.make()
  userops.make_aliases()
  for n in ('stub0', 'stub1'):
    p = userops.new_primitive('verif_' + n, lambda x: x * 1.)
    _STUB[n] = p


def _check_calls(ctx, calls, uses, degree, what):
  """calls: recorded; uses: [(op, value at x0, lo, hi, varies, scale)]."""
  import jax.numpy as jnp
  ctx.count('rule_calls', len(calls))
  seen = set()
  for name, x0, (lo, hi), deg, np_like in calls:
    if np_like is not jnp:
      ctx.violation(f'the rule of {name} received {np_like!r}: {what}')
      return False
    if deg not in (0, degree) and not 0 < deg < degree:
      ctx.violation(f'the rule of {name} received degree {deg}, {degree} was '
                    f'requested: {what}')
      return False
    found = False
    for k, (op, v, a, b, varies, scale) in enumerate(uses):
      if op != name:
        continue
      tol = 1e-7 * scale
      if deg > 0:
        if x0.shape != v.shape or not np.all(np.abs(x0 - v) <= tol):
          continue
      else:
        try:
          if np.broadcast_shapes(x0.shape, v.shape) != v.shape:
            continue
        except ValueError:
          continue
        # A point of the region it received (nan: nothing is known).
        if not np.all((x0 >= lo - tol) & (x0 <= hi + tol) | np.isnan(lo + hi)):
          continue
      try:
        ok = np.broadcast_shapes(lo.shape, hi.shape, v.shape) == v.shape
      except ValueError:
        ok = False
      if ok and np.all(np.isnan(lo) | (lo <= a + tol)) and (
          np.all(np.isnan(hi) | (hi >= b - tol))):
        found = True
        if deg == degree:
          seen.add(k)
    if not found:
      ctx.violation(
          f'the rule of {name} was called with x0={x0.tolist()}, region '
          f'{lo.tolist()}..{hi.tolist()}, degree {deg}, which fits no use of '
          f'it: {[(v.tolist(), a.tolist(), b.tolist()) for o, v, a, b, _, _ in uses if o == name]}: '
          f'{what}')
      return False
  for k, (op, v, a, b, varies, scale) in enumerate(uses):
    if varies and k not in seen:
      ctx.violation(f'no call of the rule of {op} at degree {degree} for its '
                    f'argument {v.tolist()} in {a.tolist()}..{b.tolist()}: '
                    f'{what}')
      return False
    ctx.count('uses_matched', varies)
  return True


def case_scalar(ctx):
  import autobound.jax as ab
  rng = ctx.rng
  x0, a, b = progen.random_region(rng)
  degree = int(rng.choice(
      [0, 0, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 4, 5]))
  k = int(rng.integers(1, len(OPS) + 1))
  extra = [str(o) for o in rng.choice(OPS, size=k, replace=False)]
  prog = progen.generate(rng, (a, b), x0, degree, smooth=False,
                         extra=extra * (2 + 6 // k), n_ops=int(rng.integers(1, 8)))
  if not any(prog.nodes[i][0] in progen.EXTRA for i in prog.live()):
    prog.nodes.append((extra[0], (len(prog.nodes) - 1,), None))
    prog.style.append(int(rng.integers(1000)))
  jit_mode = int(rng.choice([0, 0, 1, 2, 3]))
  propagate = bool(rng.integers(2))
  what = (f'{prog} at x0={x0} on {(a, b)}, degree {degree}, '
          f'propagate={propagate}, jit={jit_mode}')
  ctx.describe(what)
  f = progen.to_jax(prog, jit_mode)
  userops.CALLS.clear()
  bound = ctx.sut(lambda: ab.taylor_bounds(
      f, degree, propagate_trust_regions=propagate)(x0, (a, b)))
  calls = list(userops.CALLS)
  coefs = tb.coefficients(bound)
  xs = progen.sample_points(rng, x0, a, b)
  with np.errstate(all='ignore'):
    at0 = progen.node_values(prog, np.float64(x0))
    at = progen.node_values(prog, xs)
  uses = []
  for i in prog.live():
    op, args, _ = prog.nodes[i]
    if op in progen.EXTRA:
      v = np.asarray(at[args[0]], float)
      scale = 1 + max(float(np.max(np.abs(np.broadcast_to(at[j], xs.shape))))
                      for j in at if j <= args[0])
      uses.append((op, np.asarray(at0[args[0]], float), np.min(v), np.max(v),
                   bool(np.max(v) - np.min(v) > 1e-9 * scale), scale))
  if not _check_calls(ctx, calls, uses, degree, what):
    return
  tb.check_scalar_soundness(
      ctx, prog, coefs, x0, (a, b), xs, lambda: tb.float32_coefs(
          prog, jit_mode, degree, propagate, x0, (a, b)))
  if calls:
    ctx.distinct(prog.key(), degree, propagate, x0, a, b)


def case_array(ctx):
  import autobound.jax as ab
  import jax
  from checks import p02
  rng = ctx.rng
  shape, dims = p02.FAMILIES[ctx.index % len(p02.FAMILIES)]
  degree = int(rng.choice([0, 1, 1, 2, 2, 3]))
  x0, a, b = p02.region(rng, shape)
  own = [o for o in OPS]
  g = arrprog.Generator(rng, a, b, dims=dims, conv=False, max_degree=degree,
                        limit=9, elementwise=own * 2 + ['exp', 'neg', 'ipow'])
  prog = g.build(int(rng.integers(2, 6)))
  if not any(prog.nodes[i][0] in progen.EXTRA for i in prog.live()):
    prog.nodes.append((str(rng.choice(own)), (len(prog.nodes) - 1,), None))
    prog.style.append(int(rng.integers(1000)))
  jit_mode = int(rng.choice([0, 0, 1, 2, 3]))
  propagate = bool(rng.integers(2))
  what = (f'{prog} at x0={x0.tolist()} on {a.tolist()}..{b.tolist()}, degree '
          f'{degree}, propagate={propagate}, jit={jit_mode}')
  ctx.describe(what)
  userops.CALLS.clear()
  bound = ctx.sut(lambda: ab.taylor_bounds(
      prog.to_jax(jit_mode), degree, propagate_trust_regions=propagate)(
          x0, (a, b)))
  calls = list(userops.CALLS)
  coefs = tb.coefficients(bound)
  pts = tb.sample_vector_points(rng, x0, a, b, 9)
  envs = []
  for x in [x0] + pts:
    envs.append({})
    prog.evaluate(x, env=envs[-1])
  uses = []
  for i in prog.live():
    op, args, _ = prog.nodes[i]
    if op in progen.EXTRA:
      v = np.stack([e[args[0]] for e in envs])
      scale = 1 + max(float(np.max(np.abs(e[j]), initial=0.))
                      for e in envs for j in e if j <= args[0])
      lo, hi = v.min(0), v.max(0)
      uses.append((op, np.asarray(envs[0][args[0]], float), lo, hi,
                   bool(np.any(hi - lo > 1e-9 * scale)), scale))
  if not _check_calls(ctx, calls, uses, degree, what):
    return
  def c32():
    with jax.enable_x64(False):
      try:
        f4 = np.float32
        return tb.coefficients(ab.taylor_bounds(
            prog.to_jax(jit_mode), degree, propagate_trust_regions=propagate)(
                f4(x0), (f4(a), f4(b))))
      except Exception:  # pylint: disable=broad-except
        return None
  tb.check_array_soundness(ctx, prog, coefs, x0, (a.tolist(), b.tolist()), pts,
                           c32)
  if calls:
    ctx.distinct(prog.key(), degree, propagate, repr(x0))


def _same(ctx, got, want, what, counter):
  if len(got) != len(want):
    ctx.violation(f'{len(got)} coefficients instead of {len(want)}: {what}')
    return False
  for i, (u, v) in enumerate(zip(got, want)):
    for e in (0, 1):
      a, b = np.asarray(u[e], float), np.asarray(v[e], float)
      if a.shape != b.shape:
        ctx.violation(f'coefficient {i} has shape {a.shape} instead of '
                      f'{b.shape}: {what}')
        return False
      with np.errstate(all='ignore'):
        m = np.max(np.abs(b[np.isfinite(b)]), initial=0.)
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (
            np.abs(a - b) <= 1e-11 * max(m, 1e-300))
      if not np.all(ok):
        ctx.violation(f'coefficient {i}, end {e}: {a.tolist()} instead of '
                      f'{b.tolist()}: {what}')
        return False
    ctx.count(counter)
  return True


def case_alias(ctx):
  """Registered twins of built-in operations give the same bounds."""
  import autobound.jax as ab
  from checks import p02
  rng = ctx.rng
  degree = int(rng.choice([0, 1, 2, 2, 3, 4]))
  if ctx.index % 2:
    shape, dims = p02.FAMILIES[(ctx.index // 2) % len(p02.FAMILIES)]
    x0, a, b = p02.region(rng, shape)
    prog = arrprog.Generator(
        rng, a, b, dims=dims, conv=False, max_degree=degree, limit=9,
        elementwise=('exp', 'sigmoid', 'softplus', 'swish', 'log', 'sqrt',
                     'rsqrt')).build(int(rng.integers(2, 6)))
    twin = arrprog.ArrProg(list(prog.nodes), prog.style, prog.consts)
  else:
    x0, a, b = progen.random_region(rng)
    prog = progen.generate(rng, (a, b), x0, degree, smooth=False)
    twin = progen.Prog(list(prog.nodes), prog.style)
  n = 0
  for i, (op, args, param) in enumerate(twin.nodes):
    if op in userops.ALIASES and rng.uniform() < .8:
      twin.nodes[i] = ('u_' + op, args, param)
      n += i in prog.live()
  jit_mode = int(rng.choice([0, 0, 1, 3]))
  propagate = bool(rng.integers(2))
  make = (lambda p: p.to_jax(jit_mode)) if ctx.index % 2 else (
      lambda p: progen.to_jax(p, jit_mode))
  ctx.describe(f'{twin} at x0={x0} on {(a, b)}, degree {degree}')
  out = []
  for p in (prog, twin):
    out.append(ctx.sut(lambda p=p: tb.coefficients(ab.taylor_bounds(
        make(p), degree, propagate_trust_regions=propagate)(x0, (a, b)))))
  if n and _same(ctx, out[1], out[0], f'{twin} compared with {prog}, x0={x0}, '
                 f'region {(a, b)}, degree {degree}, propagate={propagate}',
                 'alias_coefficients'):
    ctx.distinct(prog.key(), degree, propagate, repr(x0))


def case_stub(ctx):
  """A rule with random coefficients, on an affine argument."""
  import autobound.jax as ab
  import jax.numpy as jnp
  from autobound.jax import jax_bound
  rng = ctx.rng
  degree = int(rng.integers(0, 6))
  n = int(rng.choice([0, 0, 1, 2, 3]))
  shape = (n,) if n else ()
  m = int(rng.integers(1, 4)) if n else 0
  if n:
    degree = min(degree, 3)
  out_shape = (m,) if n else ()
  a_mat = np.round(rng.normal(size=out_shape + shape), 2)
  if rng.uniform() < .3:
    a_mat = np.where(rng.uniform(size=a_mat.shape) < .4, 0., a_mat)
  off = np.round(rng.normal(size=out_shape), 2)
  length = int(rng.integers(1, degree + 2)) if rng.uniform() < .4 else degree + 1
  if length == 1 and degree > 0:
    length = 2

  def random_coefs(length):
    cs = [np.round(rng.normal(size=out_shape), 3) for _ in range(length)]
    if rng.uniform() < .8 or length == 1:
      w = np.abs(np.round(rng.normal(size=out_shape), 3))
      cs[-1] = (cs[-1] - w, cs[-1] + w * float(rng.integers(0, 2)))
    return cs

  cs = {'stub0': random_coefs(length), 'stub1': random_coefs(length)}
  calls = []
  def make_rule(name):
    def rule(x0, region, deg, np_like):
      calls.append((name, np.asarray(x0), tuple(np.asarray(v) for v in region),
                    deg, np_like))
      if deg == degree:
        return tuple(tuple(jnp.asarray(v) for v in c) if isinstance(c, tuple)
                     else jnp.asarray(c) for c in cs[name])
      return ((jnp.full(out_shape, -1e3), jnp.full(out_shape, 1e3)),)
    return rule
  for name in _STUB:
    jax_bound.register_elementwise_primitive(_STUB[name], make_rule(name))
  if n:
    affine = lambda x: jnp.dot(a_mat, x) + off
  else:
    affine = lambda x: a_mat * x + off
  form = int(rng.integers(3))
  if form == 0:
    f = lambda x: _STUB['stub0'].bind(affine(x))
    terms = [('stub0', 1.)]
  elif form == 1:
    f = lambda x: (_STUB['stub0'].bind(affine(x)) -
                   2. * _STUB['stub1'].bind(affine(x)))
    terms = [('stub0', 1.), ('stub1', -2.)]
  else:
    def f(x):
      y = affine(x)
      u = _STUB['stub1'].bind(y)
      return u + _STUB['stub0'].bind(y) + u
    terms = [('stub1', 1.), ('stub0', 1.), ('stub1', 1.)]
  x0 = np.round(rng.normal(size=shape), 2)
  ha, hb = rng.uniform(0, 2, size=(2,) + shape)
  propagate = bool(rng.integers(2))
  what = (f'stub rule {cs} of {a_mat.tolist()} x + {off.tolist()}, form {form}, '
          f'degree {degree}, propagate={propagate}, x0={x0.tolist()}')
  ctx.describe(what)
  bound = ctx.sut(lambda: ab.taylor_bounds(
      f, degree, propagate_trust_regions=propagate)(x0, (x0 - ha, x0 + hb)))
  got = tb.coefficients(bound)
  y0 = a_mat @ x0 + off if n else a_mat * x0 + off
  if n:
    r = np.abs(a_mat)
    lo = y0 - np.maximum(a_mat, 0) @ ha - np.maximum(-a_mat, 0) @ hb
    hi = y0 + np.maximum(a_mat, 0) @ hb + np.maximum(-a_mat, 0) @ ha
  else:
    e = [a_mat * (x0 - ha) + off, a_mat * (x0 + hb) + off]
    lo, hi = min(e), max(e)
  uses = [(name, np.asarray(y0), lo, hi, bool(np.any(hi - lo > 1e-6)), 10.)
          for name, _ in terms]
  uses = list({u[0]: u for u in uses}.values())
  if not _check_calls(ctx, calls, uses, degree, what):
    return
  for _, _, (l, h), deg, _ in calls:
    # An affine argument has an exactly known range.
    if not (np.allclose(l, lo, rtol=1e-9, atol=1e-9) and
            np.allclose(h, hi, rtol=1e-9, atol=1e-9)):
      ctx.violation(f'the rule received the region {l.tolist()}..{h.tolist()} '
                    f'for an affine argument with range {lo.tolist()}..'
                    f'{hi.tolist()}: {what}')
      return
  want = []
  # At degree 0, the argument is only known to lie in an interval, but the rule
  # is constant.
  for i in range(length):
    p = np.ones(out_shape)
    if n:
      p = np.stack([tb.outer_power(a_mat[j], i) for j in range(m)])
    else:
      p = np.asarray(a_mat ** i)
    lo_i = hi_i = np.zeros(p.shape)
    for name, w in terms:
      c = cs[name][i]
      u, v = c if isinstance(c, tuple) else (c, c)
      u, v = [np.reshape(np.asarray(t), out_shape + (1,) * (p.ndim - len(
          out_shape))) for t in (u, v)]
      q = w * p
      s, t = np.minimum(u * q, v * q), np.maximum(u * q, v * q)
      lo_i, hi_i = lo_i + s, hi_i + t
    want.append((lo_i, hi_i))
  if len(got) > len(want) and all(
      np.all(g[0] == 0) and np.all(g[1] == 0) for g in got[len(want):]):
    got = got[:len(want)]
  # Up to roundoff that cancels in sums.
  if len(got) != len(want):
    ctx.violation(f'{len(got)} coefficients instead of {len(want)}: {what}')
    return
  for i, (g, w) in enumerate(zip(got, want)):
    for e in (0, 1):
      if g[e].shape != w[e].shape or not np.allclose(
          g[e], w[e], rtol=1e-10, atol=1e-10):
        ctx.violation(f'coefficient {i}, end {e} is {g[e].tolist()}, the rule '
                      f'gives {w[e].tolist()}: {what}')
        return
    ctx.count('stub_coefficients')
  ctx.distinct('stub', degree, form, propagate, a_mat.tobytes(), x0.tobytes())


def case_history(ctx):
  """Registrations take effect, replace earlier ones, and affect nothing else."""
  import autobound.jax as ab
  from autobound.jax import jax_bound
  rng = ctx.rng
  degree = int(rng.integers(1, 4))
  propagate = bool(rng.integers(2))
  x0, a, b = progen.random_region(rng, 'plain')
  log = []
  def variant(name, v):
    """Rule number v for one of several primitives."""
    def rule(z, region, deg, np_like):
      log.append((name, v))
      c = progen.EXTRA[name].rule(z, region, deg, np_like)
      # Sound, and wider by v at either end.
      return c[:-1] + ((c[-1][0] - v, c[-1][1] + v),)
    return rule
  prims = {n: (progen.EXTRA[n].prim, progen.EXTRA[n].jax,
               progen.EXTRA[n].rule) for n in ('sin', 'tanh', 'uatan')}
  others = progen.generate(rng, (a, b), x0, degree, ops=(
      'neg', 'log', 'sqrt', 'softplus', 'swish', 'exp', 'add', 'sub', 'mul',
      'div', 'ipow'), n_ops=4)
  fo = progen.to_jax(others)
  bounds = lambda f: tb.coefficients(ctx.sut(lambda: ab.taylor_bounds(
      f, degree, propagate_trust_regions=propagate)(x0, (a, b))))
  ctx.describe(f'registrations around {others}, degree {degree}')
  base = {k: bounds(p[1]) for k, p in prims.items()}
  base_other = bounds(fo)
  current = {k: 0. for k in prims}
  try:
    for step in range(8):
      k = str(rng.choice(list(prims)))
      v = float(rng.choice([0., .25, .5, 1.]))
      if rng.uniform() < .3:
        v = 0.
        jax_bound.register_elementwise_primitive(prims[k][0], prims[k][2])
      else:
        jax_bound.register_elementwise_primitive(prims[k][0], variant(k, v))
      current[k] = v
      for q in prims:
        log.clear()
        got = bounds(prims[q][1])
        if any(n != q or w != current[q] for n, w in log):
          ctx.violation(f'bounding {q} called the rules {log}, registered is '
                        f'{current}')
          return
        want = base[q][:-1] + [(base[q][-1][0] - current[q],
                                base[q][-1][1] + current[q])]
        if not _same(ctx, got, want, f'{q} after registering {current}',
                     'history_coefficients'):
          return
        ctx.count('history_steps')
      got = bounds(fo)
      if not _same(ctx, got, base_other, f'{others} after registering {current}',
                   'history_coefficients'):
        return
  finally:
    for k, (p, _, rule) in prims.items():
      jax_bound.register_elementwise_primitive(p, rule)
  ctx.distinct('history', others.key(), degree, propagate)


_NAMES = ('verif_op', 'exp', 'sin', 'mul', 'add', 'neg', 'verif_uatan', 'pow',
          'logistic', 'integer_pow', 'dot_general', 'custom_jvp_call',
          'softplus', 'abs', 'convert_element_type', 'jit')


def case_names(ctx):
  """Operations are told apart even if they have the same name."""
  import autobound.jax as ab
  import jax
  import jax.numpy as jnp
  from autobound.jax import jax_bound
  rng = ctx.rng
  name = str(_NAMES[ctx.index % len(_NAMES)])
  k = int(rng.integers(2, 4))
  kinds = [str(v) for v in rng.choice(('ucube', 'uramp', 'uatan', 'uloose'), k,
                                      replace=False)]
  fns = {'ucube': lambda x: x * x * x,
         'uramp': lambda x: jnp.maximum(x, 0. * x), 'uloose': lambda x: x * 1.,
         'uatan': jnp.arctan}
  prims = [userops.new_primitive(name, fns[q]) for q in kinds]
  order = rng.permutation(k)
  for i in order:
    jax_bound.register_elementwise_primitive(prims[i],
                                             progen.EXTRA[kinds[i]].rule)
  n = int(rng.choice([0, 2]))
  x0, a, b = progen.random_region(rng, 'plain')
  if n:
    x0, a, b = [np.asarray([v, v + .1]) for v in (x0, a, b)]
  w = np.round(rng.normal(size=k + 3), 2)
  jit = bool(rng.integers(2))
  def make(ops):
    def f(x):
      y = w[0] * jnp.exp(-x * .3) + w[1] * jax.nn.softplus(x) + w[2] * x ** 2
      for i, p in enumerate(ops):
        y = y + w[3 + i] * p(x * .7 + i * .1)
      return jnp.abs(y) if degree < 2 else y
    return jax.jit(f) if jit else f
  degree = int(rng.integers(0, 4 if not n else 3))
  propagate = bool(rng.integers(2))
  what = (f'{k} operations with the name {name!r} which compute {kinds}, weights '
          f'{w.tolist()}, x0={x0}, region {(a, b)}, degree {degree}, '
          f'propagate={propagate}, jit={jit}')
  ctx.describe(what)
  out = [ctx.sut(lambda o=o: tb.coefficients(ab.taylor_bounds(
      make(o), degree, propagate_trust_regions=propagate)(x0, (a, b))))
         for o in ([p.bind for p in prims],
                   [progen.EXTRA[q].jax for q in kinds])]
  if _same(ctx, out[0], out[1], what, 'name_coefficients'):
    ctx.distinct('names', name, tuple(kinds), degree, propagate, jit)


KINDS = {
    'names': (case_names, 32, 2000),
    'scalar': (case_scalar, 130, 8000),
    'array': (case_array, 72, 4000),
    'alias': (case_alias, 64, 4000),
    'stub': (case_stub, 130, 6000),
    'history': (case_history, 10, 800),
}
