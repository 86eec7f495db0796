"""Jobs whose results are compared bit by bit, and snapshots of global state."""
import contextlib
import hashlib
import sys

import numpy as np
from lib import arrprog
from lib import nets
from lib import progen
from lib import tb


def bits(v):
  """A hashable exact description of a (nested) result."""
  if isinstance(v, (tuple, list)):
    return (type(v).__name__,) + tuple(bits(e) for e in v)
  if isinstance(v, dict):
    return ('dict',) + tuple((k, bits(v[k])) for k in sorted(v))
  if v is None or isinstance(v, (str, bool)):
    return v
  a = np.asarray(v)
  if a.dtype == object:
    return repr(v)
  return (str(a.dtype), a.shape, a.tobytes())


def digest(v):
  return hashlib.sha256(repr(bits(v)).encode()).hexdigest()[:24]


class Job:
  """One function with a place to bound it at."""

  def __init__(self, f, x0, region, degree, propagate, what, single=False,
               mode='eager', jaxpr=None):
    self.f, self.x0, self.region = f, x0, region
    self.degree, self.propagate, self.what = degree, propagate, what
    self.single, self.mode = single, mode

  def __repr__(self):
    return (f'{self.what} at {self.x0} on {self.region}, degree {self.degree}, '
            f'propagate={self.propagate}, {self.mode}'
            f'{", float32" if self.single else ""}')

  def bounding_function(self):
    import autobound.jax as ab
    return ab.taylor_bounds(self.f, self.degree,
                            propagate_trust_regions=self.propagate)


def evaluate_bound(b, x0, region):
  out = {'c': tuple(b.coefficients)}
  u, v = region
  for name, x in (('u', u), ('v', v), ('x0', x0), ('mid', .5 * (u + v))):
    out['lower_' + name] = b.lower(x)
    out['upper_' + name] = b.upper(x)
  out['final'] = b.final_interval()
  return out


def perform(job, bf=None):
  """Returns everything the bounds say, evaluated at several points."""
  import jax
  with jax.enable_x64(not job.single):
    if bf is None:
      bf = job.bounding_function()
    if job.mode == 'jit':
      return jax.jit(lambda x, r: evaluate_bound(bf(x, r), x, r))(
          job.x0, job.region)
    return evaluate_bound(bf(job.x0, job.region), job.x0, job.region)


def random_job(rng, index):
  """Scalar programs, array programs, and losses of networks."""
  kind = index % 5
  degree = int(rng.choice([0, 1, 2, 2, 3]))
  propagate = bool(rng.integers(2))
  single = rng.uniform() < .2
  ft = np.float32 if single else np.float64
  mode = 'jit' if rng.uniform() < .15 else 'eager'
  if kind < 2:
    x0, a, b = progen.random_region(rng)
    prog = progen.generate(rng, (a, b), x0, degree,
                           smooth=bool(rng.integers(2)))
    f = progen.to_jax(prog, int(rng.choice([0, 0, 1])))
    return Job(f, ft(x0), (ft(a), ft(b)), degree, propagate, str(prog), single,
               mode)
  if kind < 4:
    from checks import p02
    shape, dims = p02.FAMILIES[int(rng.integers(len(p02.FAMILIES)))]
    x0, a, b = p02.region(rng, shape)
    g = arrprog.Generator(rng, a, b, dims=dims, conv=not shape,
                          max_degree=degree, limit=9)
    prog = g.build(int(rng.integers(2, 6)))
    return Job(prog.to_jax(0), ft(x0), (ft(a), ft(b)), degree, propagate,
               str(prog), single, mode)
  problem = nets.random_problem(rng, 2, conv=rng.uniform() < .3)
  lib = nets.JaxLib(index)
  d = [.3 * rng.normal(size=p.shape) for p in problem.params]
  if single:
    problem.x, problem.y = problem.x.astype(ft), problem.y.astype(ft)
  p32 = [p.astype(ft) for p in problem.params]
  d32 = [v.astype(ft) for v in d]
  f = lambda eta: problem(lib, [p + eta * v for p, v in zip(p32, d32)])
  return Job(f, ft(0.), (ft(-.1), ft(.4)), degree, propagate, str(problem),
             single, mode)


def jobs(seed, n):
  return {f'{i:03d}': random_job(np.random.default_rng([seed, 77, i]), i)
          for i in range(n)}


def _freeze(v, depth=0):
  """Structure and identity of a module-level value."""
  if isinstance(v, dict):
    return ('dict', id(v), tuple(sorted(
        (repr(k), id(w), _freeze(w, depth + 1)) for k, w in v.items())))
  if isinstance(v, (set, frozenset)):
    return ('set', id(v), tuple(sorted(map(repr, v))))
  if isinstance(v, (list, tuple)):
    return (type(v).__name__, id(v), tuple(
        (id(w), _freeze(w, depth + 1)) for w in v))
  if isinstance(v, np.ndarray):
    return ('array', id(v), v.shape, v.tobytes())
  if isinstance(v, (int, float, str, bool, type(None))):
    return v
  if depth < 3 and hasattr(v, '__dict__') and type(
      v).__module__.startswith('autobound'):
    return (type(v).__name__, id(v), _freeze(dict(vars(v)), depth + 1)[2])
  return id(v)


# Working storage is not configuration: only names that say what the library
# does are compared.
TABLES = {
    'autobound.elementwise_functions': ('_FUNCTION_DATA',),
    'autobound.jax.jax_bound': (
        '_PRIMITIVE_NAMES', '_PRIMITIVE_TO_FUNCTION', '_JAXPR_REWRITE_RULES',
        '_ELEMENTWISE_PRIMITIVE_ENCLOSURES', '_PASS_THRU_PRIMITIVES'),
    'autobound.jax.jaxpr_editor': ('_JAXPR_EQN_PARAMS_TO_IGNORE',),
}


def snapshot():
  """Global configuration that bounding must not change."""
  import os
  import random
  import warnings
  import jax
  s = {}
  for name, attrs in TABLES.items():
    m = sys.modules.get(name)
    for k in attrs:
      if m is not None and hasattr(m, k):
        s[f'{name}.{k}'] = _freeze(getattr(m, k))
  for k, v in jax.config.values.items():
    s['jax.config.' + k] = repr(v)
  s['x64 here'] = bool(jax.config.jax_enable_x64)
  s['numpy.errstate'] = repr(sorted(np.geterr().items()))
  s['numpy.print'] = repr(sorted(np.get_printoptions().items(), key=str))
  s['numpy.random'] = repr(np.random.get_state()[1][:8]) + str(
      np.random.get_state()[2])
  s['random'] = hash(random.getstate())
  s['warnings'] = tuple(map(repr, warnings.filters))
  s['environ'] = tuple(sorted((k, v) for k, v in os.environ.items()))
  s['recursion'] = sys.getrecursionlimit()
  s['switch'] = sys.getswitchinterval()
  s['path'] = tuple(sys.path)
  s['cwd'] = os.getcwd()
  import jax.numpy as jnp
  for m, names in ((np, ('add', 'multiply', 'exp', 'power', 'minimum', 'sum',
                         'einsum', 'where', 'asarray', 'tensordot')),
                   (jnp, ('add', 'multiply', 'exp', 'power', 'minimum', 'sum',
                          'einsum', 'where', 'asarray', 'tensordot')),
                   (jax.nn, ('sigmoid', 'softplus', 'swish', 'silu')),
                   (jax.lax, ('exp', 'add', 'mul', 'dot_general'))):
    for n in names:
      s[f'{m.__name__}.{n}'] = id(getattr(m, n))
  return s


def differences(a, b):
  return [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


@contextlib.contextmanager
def unusual_globals(rng):
  """Settings that are not the default ones, and that should not matter.

  A call that sets something to its usual value, or for the second time, shows
  only if it has another value before.
  """
  import random
  import warnings
  import jax
  options = {
      'jax_numpy_rank_promotion': ['warn', 'allow'],
      'jax_default_matmul_precision': ['highest', None],
      'jax_debug_infs': [False],
      'jax_traceback_filtering': ['off', 'tracebackhide', 'auto'],
      'jax_include_full_tracebacks_in_locations': [True, False],
      'jax_explain_cache_misses': [False],
      'jax_enable_x64': [True, False],
      'jax_softmax_custom_jvp': [True, False],
      'jax_hlo_source_file_canonicalization_regex': ['nothing', None],
  }
  old = {k: jax.config.values[k] for k in options if k in jax.config.values}
  err = np.geterr()
  printing = np.get_printoptions()
  state = np.random.get_state(), random.getstate()
  limit = sys.getrecursionlimit()
  interval = sys.getswitchinterval()
  try:
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      warnings.filterwarnings('always', message=f'unusual {rng.integers(99)}')
      warnings.filterwarnings('ignore', category=DeprecationWarning)
      for k in old:
        v = options[k]
        jax.config.update(k, v[int(rng.integers(len(v)))])
      np.seterr(**{k: str(rng.choice(['ignore', 'warn']))
                   for k in ('divide', 'over', 'under', 'invalid')})
      np.set_printoptions(precision=int(rng.integers(2, 7)),
                          threshold=int(rng.integers(10, 99)))
      np.random.seed(int(rng.integers(1000)))
      random.seed(int(rng.integers(1000)))
      sys.setrecursionlimit(limit + int(rng.integers(1, 50)))
      sys.setswitchinterval(float(rng.choice([.004, .006])))
      yield
  finally:
    for k, v in old.items():
      jax.config.update(k, v)
    np.seterr(**err)
    np.set_printoptions(**printing)
    np.random.set_state(state[0])
    random.setstate(state[1])
    sys.setrecursionlimit(limit)
    sys.setswitchinterval(interval)
