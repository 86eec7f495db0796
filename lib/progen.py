"""Random programs of one scalar variable, and their independent evaluators.

A program is a list of nodes (op, args, param); args index earlier nodes, and
the last node is the value.  Node 0 is x.  It is built as a JAX function by
to_jax (several spellings per operation, optionally inside jax.jit), and
evaluated by evaluate() over numpy float64, mpmath, power series or intervals.
"""
import math

import numpy as np
from lib import mpm
from lib import series

UNARY_TOTAL = ('neg', 'exp', 'sigmoid', 'softplus', 'swish')
UNARY_POS = ('log', 'sqrt', 'rsqrt')
BINARY = ('add', 'sub', 'mul', 'div')
# Highest degree for which the library offers an enclosure.
MAX_DEGREE = {'abs': 1, 'sigmoid': 4, 'softplus': 5, 'swish': 4}
# Further unary operations, by name: objects with iv(lo, hi) (or None), np, mp
# and jax functions (see userops.py).
EXTRA = {}


class Iv:
  """A plain float interval, for keeping generated programs in their domain."""

  def __init__(self, lo, hi):
    self.lo, self.hi = float(lo), float(hi)

  def ok(self, limit):
    return (math.isfinite(self.lo) and math.isfinite(self.hi) and
            max(abs(self.lo), abs(self.hi)) <= limit)

  def __repr__(self):
    return f'[{self.lo:.4g},{self.hi:.4g}]'


def _iv_mul(a, b):
  p = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
  return Iv(min(p), max(p))


def _iv_mono(f, a):
  return Iv(f(a.lo), f(a.hi))


def _sig(x):
  return 1 / (1 + math.exp(-x)) if x >= 0 else math.exp(x) / (1 + math.exp(x))


def iv_apply(op, args, param, margin):
  """Interval value of a node, or None if it may leave the domain."""
  a = args[0] if args else None
  if op in EXTRA:
    r = EXTRA[op].iv(a.lo, a.hi)
    return r and Iv(*r)
  try:
    if op == 'c':
      return Iv(param, param)
    if op == 'add':
      return Iv(a.lo + args[1].lo, a.hi + args[1].hi)
    if op == 'sub':
      return Iv(a.lo - args[1].hi, a.hi - args[1].lo)
    if op == 'mul':
      return _iv_mul(a, args[1])
    if op == 'div':
      b = args[1]
      if b.lo <= margin and b.hi >= -margin:
        return None
      return _iv_mul(a, Iv(1 / b.hi, 1 / b.lo))
    if op == 'neg':
      return Iv(-a.hi, -a.lo)
    if op == 'ipow':
      n = param
      if n < 0 and a.lo <= margin and a.hi >= -margin:
        return None
      ends = [a.lo ** n, a.hi ** n]
      lo, hi = min(ends), max(ends)
      if n > 0 and n % 2 == 0 and a.lo < 0 < a.hi:
        lo = 0.
      if n == 0:
        lo = hi = 1.
      return Iv(lo, hi)
    if op in ('pow', 'log', 'sqrt', 'rsqrt', 'cbrt'):
      if a.lo <= margin:
        return None
      f = {'log': math.log, 'sqrt': math.sqrt, 'rsqrt': lambda v: v ** -.5,
           'cbrt': lambda v: v ** (1 / 3), 'pow': lambda v: v ** param}[op]
      e = [f(a.lo), f(a.hi)]
      return Iv(min(e), max(e))
    if op == 'exp':
      if a.hi > 700:
        return None
      return _iv_mono(math.exp, a)
    if op == 'sigmoid':
      return _iv_mono(_sig, a)
    if op == 'softplus':
      return _iv_mono(lambda v: math.log1p(math.exp(-abs(v))) + max(v, 0), a)
    if op == 'swish':
      e = [a.lo * _sig(a.lo), a.hi * _sig(a.hi)]
      lo = min(e)
      if a.lo < -1.2784645427610738 < a.hi:
        lo = -0.27846454276107
      return Iv(lo, max(e))
    if op == 'abs':
      e = [abs(a.lo), abs(a.hi)]
      return Iv(0. if a.lo < 0 < a.hi else min(e), max(e))
  except (OverflowError, ValueError, ZeroDivisionError):
    return None
  raise ValueError(op)


CONSTS = (0., 1., -1., 2., -2., .5, 3., -.25, .1, 1.5, 10.)


class Prog:

  def __init__(self, nodes, style):
    self.nodes = nodes
    self.style = style  # per node: how it is spelled in JAX

  def ops(self):
    return [n[0] for n in self.nodes]

  def key(self):
    return tuple(self.nodes)

  def __repr__(self):
    s = []
    for op, args, param in self.nodes:
      if op == 'x':
        s.append('x')
      elif op == 'c':
        s.append(f'{param:.4g}')
      elif op in ('add', 'sub', 'mul', 'div'):
        sym = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}[op]
        s.append(f'({s[args[0]]}{sym}{s[args[1]]})')
      elif op in ('ipow', 'pow'):
        s.append(f'{s[args[0]]}**{param:.11g}')
      else:
        s.append(f'{op}({s[args[0]]})')
      if len(s[-1]) > 300:
        s[-1] = s[-1][:297] + '...'
    return s[-1]

  def live(self):
    return sorted(_live(self))

  def max_degree(self):
    d = 99
    for op, _, _ in self.nodes:
      d = min(d, MAX_DEGREE.get(op, 99))
    return d


def real_exponent(rng, choices=(-1.5, -.5, .5, 1 / 3, 1.5, 2.5, .7, -2.2, 3.7)):
  """An exponent that is not an integer, but may be close to one."""
  r = rng.uniform()
  if r < .65:
    return float(rng.choice(choices))
  if r < .8:
    p = float(np.round(rng.normal() * 2, int(rng.integers(1, 9))))
  else:
    p = int(rng.integers(-2, 5)) + float(rng.choice([-1, 1])) * 10. ** -int(
        rng.integers(2, 10))
  return p if p != int(p) else p + .5


def generate(rng, region, x0, degree, n_ops=None, guard=True, ops=None,
             limit=1e4, margin=1e-2, smooth=True, extra=()):
  """Returns a Prog that is well defined over region, for the given degree."""
  n_ops = n_ops or int(rng.integers(1, 8))
  nodes = [('x', (), None)]
  style = [0]
  ivs = [Iv(region[0], region[1])]
  depends = [True]
  unary = ['neg', 'exp', 'log', 'sqrt', 'rsqrt', 'ipow', 'pow']
  unary += [o for o in ('sigmoid', 'softplus', 'swish')
            if degree <= MAX_DEGREE[o]] * 2
  if not smooth and degree <= 1:
    unary += ['abs'] * 2
  unary += extra
  if ops is not None:
    unary = [o for o in unary if o in ops]
  binary = [o for o in BINARY if ops is None or o in ops]

  def add(op, args, param, dep):
    iv = iv_apply(op, [ivs[i] for i in args], param, margin if guard else 0.)
    if iv is None:
      if guard or not depends[args[-1]]:
        return False  # for example, division by the constant zero
      iv = Iv(-1e3, 1e3)
    if not iv.ok(limit):
      return False
    nodes.append((op, tuple(args), param))
    style.append(int(rng.integers(0, 1000)))
    ivs.append(iv)
    depends.append(dep)
    return True

  def pick():
    """An operand: mostly recent and dependent on x."""
    k = len(nodes)
    if rng.uniform() < .6:
      i = k - 1 - int(rng.integers(0, min(2, k)))
    else:
      i = int(rng.integers(0, k))
    return i

  tries = 0
  made = 0
  while made < n_ops and tries < 60:
    tries += 1
    if (rng.uniform() < .5 and unary) or not binary:
      op = unary[int(rng.integers(len(unary)))]
      i = pick()
      param = None
      if op == 'ipow':
        param = int(rng.choice([-3, -2, -1, 0, 1, 2, 2, 3, 3, 4, 5]))
      elif op == 'pow':
        param = real_exponent(rng)
      ok = add(op, (i,), param, depends[i])
    else:
      op = binary[int(rng.integers(len(binary)))]
      i = pick()
      r = rng.uniform()
      if r < .45:
        if rng.uniform() < .3:
          c = float(np.round(rng.normal() * 2, 3))
        else:
          c = float(CONSTS[int(rng.integers(len(CONSTS)))])
        if not add('c', (), c, False):
          continue
        j = len(nodes) - 1
        args = (i, j) if rng.uniform() < .6 else (j, i)
      elif r < .6:
        args = (i, i)
      else:
        args = (i, pick())
      ok = add(op, args, None, any(depends[a] for a in args))
    made += ok
  if not depends[-1]:
    # End with something that depends on x.
    j = max(i for i in range(len(nodes)) if depends[i])
    if not add('add', (j, len(nodes) - 1), None, True):
      add('neg', (j,), None, True)
      if not depends[-1]:
        nodes.append(('neg', (0,), None))
        style.append(0)
  return Prog(nodes, style)


def _live(prog):
  live = {len(prog.nodes) - 1}
  for i in range(len(prog.nodes) - 1, -1, -1):
    if i in live:
      live.update(prog.nodes[i][1])
  return live


def to_jax(prog, jit_mode=0):
  """Returns a JAX function.  jit_mode: 0 none, 1 some nodes, 2 also outside,
  3 segments (see run_segments)."""
  import jax
  import jax.numpy as jnp
  live = sorted(_live(prog))

  def apply(op, args, param, st):
    a = args[0] if args else None
    if op in EXTRA:
      return EXTRA[op].jax(a)
    alt = st % 4
    if op == 'add':
      return jnp.add(a, args[1]) if alt == 1 else a + args[1]
    if op == 'sub':
      return a - args[1]
    if op == 'mul':
      return jnp.multiply(a, args[1]) if alt == 1 else a * args[1]
    if op == 'div':
      return a / args[1]
    if op == 'neg':
      return -a
    if op == 'ipow':
      if alt == 1:
        return jax.lax.integer_pow(a, param)
      if alt == 2 and abs(param) <= 3:
        return a ** float(param)
      return a ** param
    if op == 'pow':
      return jnp.power(a, param) if alt == 1 else a ** param
    if op == 'exp':
      return jnp.exp(a)
    if op == 'log':
      return jnp.log(a)
    if op == 'sqrt':
      return jnp.sqrt(a)
    if op == 'rsqrt':
      return jax.lax.rsqrt(a)
    if op == 'cbrt':
      return jnp.cbrt(a)
    if op == 'abs':
      return jnp.abs(a)
    if op == 'sigmoid':
      return jax.lax.logistic(a) if alt == 1 else jax.nn.sigmoid(a)
    if op == 'softplus':
      return jax.nn.softplus(a)
    if op == 'swish':
      return jax.nn.silu(a) if alt == 1 else jax.nn.swish(a)
    raise ValueError(op)

  def step(i, env):
    op, args, param = prog.nodes[i]
    if op == 'c':
      env[i] = param
      return
    vals = [env[j] for j in args]
    if all(isinstance(v, float) for v in vals):
      vals = [jnp.asarray(v) for v in vals]
    st = prog.style[i]
    if jit_mode in (1, 2) and st % 5 == 0:
      g = jax.jit(lambda *v, op=op, param=param, st=st: apply(
          op, v, param, st // 5))
      env[i] = g(*vals)
    else:
      env[i] = apply(op, vals, param, st // 5)

  def f(x):
    env = {0: jnp.asarray(x)}
    assert live[0] == 0 and prog.nodes[0][0] == 'x'
    if jit_mode == 3:
      env = run_segments(live[1:], step, prog.style, env)
    else:
      for i in live[1:]:
        step(i, env)
    return env[live[-1]]

  return jax.jit(f) if jit_mode == 2 else f


def run_segments(live, step, style, env):
  """Runs the nodes in segments, most of them inside a function under jax.jit.

  The compiled functions return all the values they are given, besides those
  they compute; some capture values of the caller that are constants, some are
  called twice, and some call another compiled function.
  """
  import jax
  segments = []
  for i in live:
    if not segments or style[i] % 3 == 0:
      segments.append([])
    segments[-1].append(i)
  for segment in segments:
    kind = style[segment[0]] // 3
    const = {k: v for k, v in env.items() if not isinstance(v, jax.core.Tracer)}
    if kind % 2:
      const = {k: v for k, v in const.items() if isinstance(v, float)}
    given = {k: v for k, v in env.items() if k not in const}
    def body(given, segment=segment, const=const):
      env = {**const, **given}
      for i in segment:
        step(i, env)
      return {k: v for k, v in env.items() if k not in const}
    if kind % 5 == 0:
      out = body(given)
    else:
      g = jax.jit(body)
      if kind % 5 == 1:
        inner = g
        g = jax.jit(lambda given, inner=inner: inner(given))
      out = g(given)
      if kind % 5 == 2:
        again = g({**given, **{k: v for k, v in out.items() if k in given}})
        out = {k: (again if k % 2 else out)[k] for k in out}
    env = {**const, **out}
  return env


def _np_sigmoid(x):
  e = np.exp(-np.abs(x))
  return np.where(x >= 0, 1 / (1 + e), e / (1 + e))


class NpLib:
  kind = 'np'
  const = staticmethod(lambda v: np.float64(v))
  add = staticmethod(lambda a, b: a + b)
  sub = staticmethod(lambda a, b: a - b)
  mul = staticmethod(lambda a, b: a * b)
  div = staticmethod(lambda a, b: a / b)
  neg = staticmethod(lambda a: -a)
  ipow = staticmethod(lambda a, n: np.power(np.asarray(a, float), float(n)))
  pow = staticmethod(lambda a, p: np.power(a, p))
  exp = np.exp
  log = np.log
  sqrt = np.sqrt
  rsqrt = staticmethod(lambda a: 1 / np.sqrt(a))
  cbrt = np.cbrt
  abs = np.abs
  sigmoid = staticmethod(_np_sigmoid)
  softplus = staticmethod(
      lambda a: np.log1p(np.exp(-np.abs(a))) + np.maximum(a, 0))
  swish = staticmethod(lambda a: a * _np_sigmoid(a))


class MpLib:
  kind = 'mp'
  const = staticmethod(mpm.mpf)
  add = staticmethod(lambda a, b: a + b)
  sub = staticmethod(lambda a, b: a - b)
  mul = staticmethod(lambda a, b: a * b)
  div = staticmethod(lambda a, b: a / b)
  neg = staticmethod(lambda a: -a)
  ipow = staticmethod(lambda a, n: a ** n)
  pow = staticmethod(lambda a, p: _real_pow(a, p))
  exp = mpm.mp.exp
  log = staticmethod(lambda a: _real(mpm.mp.log, a))
  sqrt = staticmethod(lambda a: _real(mpm.mp.sqrt, a))
  rsqrt = staticmethod(lambda a: 1 / _real(mpm.mp.sqrt, a))
  cbrt = staticmethod(lambda a: mpm.mp.cbrt(a) if a >= 0 else -mpm.mp.cbrt(-a))
  abs = staticmethod(abs)
  sigmoid = staticmethod(mpm.sigmoid)
  softplus = staticmethod(mpm.softplus)
  swish = staticmethod(mpm.swish)


class Undefined(Exception):
  pass


def _real(f, a):
  if a < 0 or (a == 0 and f is not mpm.mp.sqrt):
    raise Undefined()
  return f(a)


def _real_pow(a, p):
  if a < 0 or (a == 0 and p < 0):
    raise Undefined()
  return a ** mpm.mpf(p)


class SeriesLib:

  def __init__(self, n):
    self.n = n
    for name in ('add', 'sub', 'mul', 'div', 'neg', 'exp', 'log', 'sigmoid',
                 'softplus', 'swish'):
      setattr(self, name, getattr(series, name))
    self.const = lambda v: series.const(v, n)
    self.ipow = series.power
    self.pow = lambda a, p: series.power(a, p)
    self.sqrt = lambda a: series.power(a, .5)
    self.rsqrt = lambda a: series.power(a, -.5)
    self.abs = series.absolute


def evaluate(prog, x, lib):
  live = _live(prog)
  env = {}
  for i in sorted(live):
    op, args, param = prog.nodes[i]
    if op == 'x':
      env[i] = x
    elif op == 'c':
      env[i] = lib.const(param)
    elif op in EXTRA:
      env[i] = getattr(EXTRA[op], lib.kind)(env[args[0]])
    elif op in ('ipow', 'pow'):
      env[i] = getattr(lib, op)(env[args[0]], param)
    else:
      env[i] = getattr(lib, op)(*[env[j] for j in args])
  return env[max(live)]


def mp_value(prog, x):
  """Exact value at the float x, or None if it is not defined there."""
  try:
    v = evaluate(prog, mpm.mpf(float(x)), MpLib)
  except (Undefined, ZeroDivisionError, OverflowError, ValueError):
    return None
  if isinstance(v, mpm.mpmath.mpc) or not mpm.mpmath.isfinite(v):
    return None
  return v


def node_values(prog, x):
  """{node: float64 values at x} for the live nodes."""
  env = {}
  magnitude(prog, x, env)
  return env


def magnitude(prog, x, env=None):
  """Largest magnitude among the intermediate values at x (vectorised)."""
  live = _live(prog)
  env = {} if env is None else env
  m = np.zeros_like(np.asarray(x, float))
  for i in sorted(live):
    op, args, param = prog.nodes[i]
    if op == 'x':
      env[i] = np.asarray(x, float)
    elif op == 'c':
      env[i] = np.float64(param)
    elif op in EXTRA:
      env[i] = EXTRA[op].np(env[args[0]])
    elif op in ('ipow', 'pow'):
      env[i] = getattr(NpLib, op)(env[args[0]], param)
    else:
      env[i] = getattr(NpLib, op)(*[env[j] for j in args])
    m = np.maximum(m, np.abs(env[i]))
  return m


def random_region(rng, kind=None):
  """Returns (x0, a, b), with hostile special cases."""
  kind = kind or str(rng.choice(
      ['plain', 'plain', 'plain', 'wide', 'tiny', 'left', 'right', 'point',
       'sym0', 'pos', 'pos', 'asym', 'grid']))
  x0 = float(np.round(rng.normal() * 1.5, int(rng.integers(0, 6))))
  ha, hb = rng.uniform(.05, 1.2, 2)
  if kind == 'wide':
    ha, hb = rng.uniform(1, 6, 2)
  elif kind == 'tiny':
    ha, hb = 10. ** rng.uniform(-6, -2, 2)
  elif kind == 'left':
    hb = 0.
  elif kind == 'right':
    ha = 0.
  elif kind == 'point':
    ha = hb = 0.
  elif kind == 'sym0':
    x0 = 0.
    ha = hb = float(rng.uniform(.2, 3))
  elif kind == 'pos':
    x0 = float(np.round(rng.uniform(.3, 4), int(rng.integers(1, 6))))
    ha = float(rng.uniform(.05, .95) * x0)
  elif kind == 'asym':
    ha = 10. ** rng.uniform(-5, -1)
    hb = float(rng.uniform(.5, 3))
    if rng.uniform() < .5:
      ha, hb = hb, ha
  elif kind == 'grid':
    x0 = float(rng.integers(-2, 3)) / 2
    ha, hb = [float(rng.integers(0, 5)) / 2 for _ in range(2)]
  return float(x0), float(x0 - ha), float(x0 + hb)


def sample_points(rng, x0, a, b, n=24):
  """Points of [a, b], including ends, x0 and its neighbourhood."""
  t = np.concatenate([np.linspace(0, 1, 9), rng.uniform(size=max(0, n - 9))])
  xs = a + (b - a) * t
  near = x0 + np.array([0., 1., -1.]) * 1e-3 * (b - a)
  xs = np.concatenate([xs, near, [a, b, x0, (a + x0) / 2, (b + x0) / 2]])
  return np.unique(np.clip(xs, a, b))
