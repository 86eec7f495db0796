"""P17: bounding is deterministic, history-independent and free of side effects."""
import collections
import contextlib
import hashlib
import json
import os
import random
import re
import subprocess
import sys
import threading
import time

import numpy as np
from lib import purity
from lib import tb

PROPERTY = 'P17'
TECHNIQUE = ('runtime monitoring: bit-exact comparison of results over histories, '
             'threads with injected yields, processes and hash seeds; monitors '
             'on global state, operands and the bounded function')
RULE = ('A case bounds a random program before and after a random history of '
        'other calls, or bounds several programs in 2-8 threads with yields '
        'injected at lines of the library, or in processes with other hash '
        'seeds and orders, or calls building blocks with frozen operands; '
        'non-trivial if results were compared bit by bit; distinct by program '
        'and history.')
REQUIRE = {'history_steps': 50, 'results_compared': 60, 'thread_results': 25,
           'thread_switches': 60, 'process_results': 12, 'operand_checks': 200,
           'snapshots': 40, 'functions_unchanged': 15,
           'typed_calls': 50, 'snapshots_unusual': 60,
           'churned': 4000}
CASE_TIMEOUT = 200


def setup():
  import jax
  tb.setup_jax()
  # Warm up, so that whatever is set up once is there.
  for single in (False, True):
    with jax.enable_x64(not single):
      ft = np.float32 if single else np.float64
      purity.perform(purity.Job(lambda x: x * jax.nn.sigmoid(x), ft(.1),
                                (ft(0.), ft(1.)), 2, True, 'warm-up', single))


def _jaxpr_text(job):
  import jax
  with jax.enable_x64(not job.single):
    return re.sub(r'0x[0-9a-f]+|[Ff]un(ction)?[^\n]*', '',
                  str(jax.make_jaxpr(lambda x: job.f(x))(job.x0)))


def _values(job):
  import jax
  with jax.enable_x64(not job.single):
    u, v = job.region
    return [np.asarray(job.f(x)) for x in (u, v, job.x0)]


def _unsupported(rng):
  import jax.numpy as jnp
  fns = [lambda x: jnp.sin(x) * x, lambda x: jnp.sum(x * jnp.tanh(2. * x)),
         lambda x: jnp.maximum(x, 1.), lambda x: jnp.exp(x) + jnp.floor(x),
         lambda x: x ** x, lambda x: jnp.cumsum(x * jnp.ones(3))]
  return fns[int(rng.integers(len(fns)))]


def _perturb(ctx, job, bf):
  """One step of history."""
  import gc
  import autobound.jax as ab
  import jax
  import jax.numpy as jnp
  rng = ctx.rng
  r = int(rng.integers(12))
  ctx.count('history_steps')
  with jax.enable_x64(not job.single):
    if r == 0:
      other = purity.random_job(rng, int(rng.integers(5)))
      purity.perform(other)
      return 'another program'
    if r == 1:
      d = int(rng.integers(0, 4))
      try:
        ab.taylor_bounds(job.f, d)(job.x0, job.region)
      except NotImplementedError:
        ctx.count('failed_calls')
      return f'degree {d}'
    if r == 2:
      u, v = job.region
      t = job.x0.dtype.type(.5)
      w = (u + (job.x0 - u) * t, v + (job.x0 - v) * t)
      bf(job.x0, w)
      bf(w[0], w)
      return 'other regions'
    if r == 3:
      ab.taylor_bounds(job.f, job.degree,
                       propagate_trust_regions=not job.propagate)(
                           job.x0, job.region)
      return 'other mode of propagation'
    if r == 4:
      try:
        ab.taylor_bounds(_unsupported(rng), 2)(job.x0, job.region)
      except Exception:  # pylint: disable=broad-except
        ctx.count('failed_calls')
      return 'a call that fails'
    if r == 5:
      jax.jit(lambda x, r: bf(x, r).coefficients)(job.x0, job.region)
      return 'under jit'
    if r == 6:
      two = lambda v: jnp.stack([v, v])
      jax.vmap(lambda x, u, v: bf(x, (u, v)).coefficients)(
          two(job.x0), two(job.region[0]), two(job.region[1]))
      return 'under vmap'
    if r == 7:
      jax.clear_caches()
      gc.collect()
      return 'clear_caches'
  if r == 8:
    # The same program in the other precision.
    single = not job.single
    ft = np.float32 if single else np.float64
    with jax.enable_x64(not single):
      try:
        (bf if rng.uniform() < .5 else ab.taylor_bounds(
            job.f, job.degree))(ft(job.x0), tuple(
            ft(v) for v in job.region))
      except Exception:  # pylint: disable=broad-except
        ctx.count('failed_calls')
    return 'other precision'
  if r == 9:
    jax.config.update('jax_enable_x64', False)
    try:
      ab.taylor_bounds(lambda x: jax.nn.softplus(x) * x ** 2, 2)(.5, (0., 1.))
    finally:
      jax.config.update('jax_enable_x64', True)
    return 'switched to single precision and back'
  if r == 10:
    from autobound import primitive_enclosures
    from autobound.jax import jax_bound
    # A user-defined operation that nothing here uses.
    p = jax.extend.core.Primitive(f'unrelated_{rng.integers(1 << 30)}')
    jax_bound.register_elementwise_primitive(p, primitive_enclosures.exp_enclosure)
    return 'registered an operation'
  b = bf(job.x0, job.region) if not job.single else None
  if b is not None:
    for x in job.region:
      b.lower(x), b.upper(x)
    b.final_interval()
  return 'evaluated the bounds'


def case_history(ctx):
  rng = ctx.rng
  job = purity.random_job(rng, ctx.index)
  ctx.describe(job)
  x_bits = purity.bits((job.x0, job.region))
  text, values = _jaxpr_text(job), _values(job)
  bf = job.bounding_function()
  first = ctx.sut(purity.perform, job, bf)
  first_digest = purity.digest(first)
  steps = []
  for _ in range(int(rng.integers(2, 6))):
    before = purity.snapshot()
    steps.append(_perturb(ctx, job, bf))
    changed = purity.differences(before, purity.snapshot())
    if steps[-1] == 'registered an operation':
      changed = [k for k in changed if 'PRIMITIVE_ENCLOSURES' not in k]
    ctx.count('snapshots')
    if changed:
      ctx.violation(f'"{steps[-1]}" changed {changed} ({job})')
      return
    if rng.uniform() < .4:
      again = ctx.sut(purity.perform, job, bf if rng.uniform() < .5 else None)
      ctx.count('results_compared')
      if purity.digest(again) != first_digest:
        ctx.violation(f'other bounds of {job} after {steps}', first=first,
                      again=again)
        return
  for what, b in (('the same bounding function', bf),
                  ('a new bounding function', None)):
    again = ctx.sut(purity.perform, job, b)
    ctx.count('results_compared')
    if purity.digest(again) != first_digest:
      ctx.violation(f'other bounds of {job} from {what} after {steps}',
                    first=first, again=again)
      return
  if purity.digest(first) != first_digest:
    ctx.violation(f'the bounds of {job} changed afterwards ({steps})')
    return
  if purity.bits((job.x0, job.region)) != x_bits:
    ctx.violation(f'the arguments of {job} were changed')
    return
  new_text, new_values = _jaxpr_text(job), _values(job)
  if new_text != text or purity.bits(new_values) != purity.bits(values):
    ctx.violation(f'the function itself changed: {job}', before=text,
                  after=new_text)
    return
  ctx.count('functions_unchanged')
  ctx.distinct('history', str(job), tuple(steps))


class Yielder:
  """Gives up the interpreter at random lines of the library."""

  def __init__(self, seed, rate):
    self.random = random.Random(seed)
    self.rate = rate
    self.trace = []
    self.events = collections.Counter()
    self.mon = getattr(sys, 'monitoring', None)
    self.prefix = os.path.join(os.environ.get('VERIF_REPO', '/repo'),
                               'autobound') + os.sep

  def __enter__(self):
    self.old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    if self.mon is not None:
      self.tool = 5
      try:
        self.mon.use_tool_id(self.tool, 'verif-yield')
      except ValueError:
        self.mon = None
        return self
      def on_line(code, line):
        if not code.co_filename.startswith(self.prefix):
          return self.mon.DISABLE
        me = threading.get_ident()
        self.events[me] += 1
        if not self.trace or self.trace[-1][0] != me:
          self.trace.append((me, code.co_name, line))
        if self.random.random() < self.rate:
          time.sleep(1e-6)
      self.mon.register_callback(self.tool, self.mon.events.LINE, on_line)
      self.mon.set_events(self.tool, self.mon.events.LINE)
    return self

  def __exit__(self, *_):
    sys.setswitchinterval(self.old)
    if self.mon is not None:
      self.mon.set_events(self.tool, 0)
      self.mon.register_callback(self.tool, self.mon.events.LINE, None)
      self.mon.free_tool_id(self.tool)
      self.mon.restart_events()


def case_threads(ctx):
  """Several threads bound programs at the same time."""
  rng = ctx.rng
  n_threads = int(rng.choice([2, 3, 4, 8]))
  n_jobs = int(rng.integers(2, 5))
  seeds = [int(rng.integers(1 << 30)) for _ in range(n_jobs)]
  make = lambda: [purity.random_job(np.random.default_rng(s), s) for s in seeds]
  cold = make()
  ctx.describe(f'{n_threads} threads: {[str(j)[:80] for j in cold]}')
  shared = rng.uniform() < .6
  functions = [j.bounding_function() for j in cold]
  orders = [list(rng.permutation(n_jobs)) for _ in range(n_threads)]
  results, failures = [], []
  barrier = threading.Barrier(n_threads)

  def work(k):
    try:
      mine = cold if shared else make()
      barrier.wait(60)
      for i in orders[k]:
        out = purity.perform(mine[i], functions[i] if shared else None)
        results.append((k, i, purity.digest(out)))
    except BaseException as e:  # pylint: disable=broad-except
      import traceback
      failures.append(f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-900:])

  before = purity.snapshot()
  with Yielder(int(rng.integers(1 << 30)), float(rng.choice(
      [.01, .05, .3]))) as yielder:
    threads = [threading.Thread(target=work, args=(k,), daemon=True)
               for k in range(n_threads)]
    for t in threads:
      t.start()
    for t in threads:
      t.join()
  ctx.count('thread_switches', len(yielder.trace))
  ctx.count('thread_line_events', sum(yielder.events.values()))
  ids = {}
  ctx.distinct('interleaving', [(ids.setdefault(a, len(ids)), b, c)
                                for a, b, c in yielder.trace])
  if failures:
    ctx.violation(f'a call failed in a thread: {failures[0]}')
    return
  # JAX itself changes warning filters, in ways that are not thread-safe.
  changed = [k for k in purity.differences(before, purity.snapshot())
             if k != 'warnings']
  if changed:
    ctx.violation(f'threads changed {changed}')
    return
  alone = [purity.digest(ctx.sut(purity.perform, j)) for j in make()]
  for k, i, d in results:
    ctx.count('thread_results')
    if d != alone[i]:
      ctx.violation(f'thread {k} of {n_threads} got other bounds of {cold[i]} '
                    f'than without threads')
      return


def case_process(ctx):
  """Other processes, hash seeds, orders and imports."""
  root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  rng = ctx.rng
  seed, n = int(rng.integers(1 << 30)), 12
  procs = []
  for hash_seed in ('0', str(int(rng.integers(1, 1 << 32))),
                    str(int(rng.integers(1, 1 << 32)))):
    env = dict(os.environ, PYTHONHASHSEED=hash_seed)
    cmd = [sys.executable, '-B', '-W', 'ignore', os.path.join(
        root, 'lib', 'procjob.py'), str(seed), str(int(rng.integers(1 << 30))),
           str(n), str(int(rng.integers(3)))]
    procs.append((hash_seed, subprocess.Popen(
        cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        text=True)))
  own = {k: purity.digest(ctx.sut(purity.perform, j))
         for k, j in purity.jobs(seed, n).items()}
  ctx.describe(f'{n} programs in {len(procs)} processes')
  try:
    for hash_seed, p in procs:
      out, err = p.communicate(timeout=170)
      if p.returncode:
        if 'autobound/' in err:
          ctx.violation(f'with PYTHONHASHSEED={hash_seed}: {err[-900:]}')
          return
        raise RuntimeError(err[-2000:])
      got = json.loads(out.splitlines()[-1])
      for k in own:
        ctx.count('process_results')
        if got[k] != own[k]:
          ctx.violation(f'with PYTHONHASHSEED={hash_seed} the bounds of '
                        f'{purity.jobs(seed, n)[k]} are different')
          return
  finally:
    for _, p in procs:
      if p.poll() is None:
        p.kill()
        p.wait()
  ctx.distinct('process', seed)


def _freeze(v):
  """Makes numpy arrays read-only, and copies lists to detect changes."""
  if isinstance(v, np.ndarray):
    v.setflags(write=False)
  elif isinstance(v, (tuple, list)):
    for e in v:
      _freeze(e)
  return v


def _coef(rng, shape, interval):
  v = np.asarray(np.round(rng.normal(size=shape), 3))
  if interval:
    return (v, np.asarray(v + np.round(rng.uniform(0, 1, shape), 3)))
  return v


def _enclosure(rng, shape, k, x_shape, degree):
  """k coefficients; the one of the highest degree may be an interval."""
  return tuple(_coef(rng, shape + x_shape * i, i == k - 1 and (
      k == degree + 1 or rng.uniform() < .5)) for i in range(k))


def case_operands(ctx):
  """Building blocks leave their operands alone and give the same twice."""
  from autobound import enclosure_arithmetic
  from autobound import interval_arithmetic
  from autobound import polynomials
  from autobound import primitive_enclosures as pe
  rng = ctx.rng
  shape = [(), (2,), (2, 3), (1,)][int(rng.integers(4))]
  iv = lambda: _coef(rng, shape, rng.uniform() < .6)
  ia = interval_arithmetic.IntervalArithmetic(np)
  x_shape = [(), (2,)][int(rng.integers(2))]
  degree = int(rng.integers(1, 4))
  tr = (np.asarray(-rng.uniform(0, 1, x_shape)),
        np.asarray(rng.uniform(0, 1, x_shape)))
  ta = enclosure_arithmetic.TaylorEnclosureArithmetic(degree, tr, np)
  en = lambda: _enclosure(rng, shape, int(rng.integers(1, degree + 2)), x_shape,
                          degree)
  x0 = np.asarray(rng.normal(size=shape))
  region = (x0 - rng.uniform(0, 1, shape), x0 + rng.uniform(0, 1, shape))
  poly = lambda: [np.asarray(c) for c in rng.normal(size=int(rng.integers(1, 5)))]
  named = {
      'interval add': (ia.add, (iv(), iv())),
      'interval subtract': (ia.subtract, (iv(), iv())),
      'interval multiply': (ia.multiply, (iv(), iv())),
      'interval negative': (ia.negative, (iv(),)),
      'interval power': (ia.power, (iv(), int(rng.integers(0, 5)))),
      'enclosure add': (ta.add, (en(), en())),
      'enclosure subtract': (ta.subtract, (en(), en())),
      'enclosure multiply': (ta.multiply, (en(), en())),
      'enclosure negative': (ta.negative, (en(),)),
      'enclosure power': (ta.power, (en(), int(rng.integers(0, 4)))),
      'enclosure divide': (ta.divide, (en(), (np.asarray(
          rng.uniform(1, 2, shape)),))),
      'polynomial product': (
          polynomials.arbitrary_bilinear, (poly(), poly())),
      'polynomial power': (
          polynomials.integer_power, (poly(), int(rng.integers(0, 5)))),
      'eval_taylor_enclosure': (
          lambda e, h: polynomials.eval_taylor_enclosure(e, h, np),
          (en(), np.asarray(rng.uniform(tr[0], tr[1])))),
      'enclose_enclosure': (
          lambda e, t: enclosure_arithmetic.enclose_enclosure(
              e, t, int(rng.integers(0, 1)), np), (en(), tr)),
  }
  for name in ('exp', 'sigmoid', 'softplus', 'swish', 'abs'):
    d = min(degree, 1) if name == 'abs' else degree
    named['enclosure of ' + name] = (
        lambda x, r, fn=getattr(pe, name + '_enclosure'), d=d: fn(x, r, d, np),
        (x0, region))
  unusual = bool(ctx.index % 2)
  for name, (fn, args) in named.items():
    _freeze(args)
    before = purity.bits(args)
    ids = [id(a) for a in args]
    try:
      with purity.unusual_globals(rng) if unusual else (
          contextlib.nullcontext()):
        state = purity.snapshot() if unusual else {}
        one = fn(*args)
        changed = purity.differences(
            state, purity.snapshot() if unusual else {})
      if changed:
        ctx.violation(f'{name} changed {changed}', args=args)
        return
      ctx.count('snapshots_unusual', unusual)
    except ValueError as e:
      if 'read-only' in str(e):
        ctx.violation(f'{name} writes to its operands: {e}', args=args)
        return
      raise
    ctx.count('operand_checks')
    if purity.bits(args) != before:
      ctx.violation(f'{name} changed its operands', args=args)
      return
    digest = purity.digest(one)
    two = fn(*args)
    if purity.digest(two) != digest or purity.digest(one) != digest:
      ctx.violation(f'{name} gives another result the second time', one=one,
                    two=two, args=args)
      return
    # Operands that are the same object, or copies of it.
    if len(args) == 2 and ids[0] != ids[1] and 'divide' not in name and (
        'power' not in name and 'eval' not in name and 'enclose' not in name
        and 'enclosure of' not in name):
      copy = lambda v: (np.array(v) if isinstance(v, np.ndarray) else
                        type(v)(map(copy, v)))
      alias = fn(args[0], args[0])
      distinct = fn(args[0], copy(args[0]))
      ctx.count('aliased')
      if purity.digest(alias) != purity.digest(distinct) and not _close(
          alias, distinct):
        # Tighter results for equal operands must still be contained.
        ctx.violation(f'{name} of one object twice differs from that of a copy',
                      args=args, alias=alias, distinct=distinct)
        return
    ctx.distinct(name, before)


def _close(a, b):
  if isinstance(a, (tuple, list)):
    return isinstance(b, (tuple, list)) and len(a) == len(b) and all(
        map(_close, a, b))
  return np.allclose(a, b, rtol=1e-12, atol=1e-12)


def _churn_operations(rng):
  """Name -> function of (back end, x0, region, number)."""
  import autobound.jax as ab
  import jax
  import jax.numpy as jnp
  from autobound import elementwise_functions as ef
  from autobound import enclosure_arithmetic
  from autobound import interval_arithmetic
  from autobound import polynomials
  from autobound import primitive_enclosures as pe
  ops = {}
  d = int(rng.integers(0, 4))
  for name in ('exp', 'log', 'sigmoid', 'softplus', 'swish', 'abs'):
    k = min(d, 1) if name == 'abs' else d
    ops[f'{name} enclosure of degree {k}'] = (
        lambda lib, x, r, n, f=getattr(pe, name + '_enclosure'), k=k:
        f(x, r, k, lib))
    fid = getattr(ef, name.upper()).derivative_id(min(k, 1))
    if name not in ('exp', 'log'):
      ops[f'range of {fid}'] = (
          lambda lib, x, r, n, fid=fid: ef.get_range(fid, r, lib))
      ops[f'monotonicity of {fid}'] = (
          lambda lib, x, r, n, fid=fid:
          ef.get_function_data(fid).monotone_over(r, lib))
    ops[f'coefficients of {fid}'] = (
        lambda lib, x, r, n, fid=fid, k=k:
        ef.get_taylor_polynomial_coefficients(
            fid, max(0, k - 1), x, lib))
  for e in (-1, .5, 2.5, -2, 3):
    ops[f'power {e} of degree {d}'] = (
        lambda lib, x, r, n, e=e: pe.pow_enclosure(e, x, r, d, lib))
  def arithmetic(op):
    def run(lib, x, r, n):
      ta = enclosure_arithmetic.TaylorEnclosureArithmetic(
          max(d, 1), (r[0] - x, r[1] - x), lib)
      return op(ta, (x, lib.ones_like(x)), (r[0] * r[0], r))
    return run
  scalar = {
      'enclosure product': arithmetic(lambda ta, a, b: ta.multiply(a, b)),
      'enclosure sum': arithmetic(lambda ta, a, b: ta.add(a, b)),
      'enclosure difference': arithmetic(lambda ta, a, b: ta.subtract(a, b)),
      'enclosure power': arithmetic(lambda ta, a, b: ta.power(b, 3)),
      'enclosure quotient': arithmetic(lambda ta, a, b: ta.divide(b, a)),
      'enclosure negative': arithmetic(lambda ta, a, b: ta.negative(b)),
      'enclosure lowered': arithmetic(
          lambda ta, a, b: enclosure_arithmetic.enclose_enclosure(
              b, ta.trust_region, 0, ta.np_like)),
  }
  for name, f in scalar.items():
    ops[name] = lambda lib, x, r, n, f=f: f(lib, x, r, n) if (
        lib.ndim(x) == 0) else None
  ia = interval_arithmetic.IntervalArithmetic
  ops['interval product'] = lambda lib, x, r, n: ia(lib).multiply(r, x)
  ops['interval products'] = lambda lib, x, r, n: ia(lib).multiply(
      r, (r[0] - 1, r[1]))
  ops['interval difference'] = lambda lib, x, r, n: ia(lib).subtract(x, r)
  ops['interval power'] = lambda lib, x, r, n: ia(lib).power(r, n)
  ops['outer power'] = lambda lib, x, r, n: ia(lib).outer_power(r, n)
  ops['tensordot'] = lambda lib, x, r, n: ia(lib).tensordot(r, x, 0)
  ops['value'] = lambda lib, x, r, n: polynomials.eval_taylor_enclosure(
      (x, r), r, lib) if lib.ndim(x) == 0 else None
  ops['multinomial power'] = lambda lib, x, r, n: polynomials.integer_power(
      (x, x, r[0]), n)
  fs = {'sigmoid': jax.nn.sigmoid, 'swish': lambda x: jax.nn.swish(x * x),
        'rational': lambda x: (x + 1) / (x * x + 2)}
  for name, f in fs.items():
    bf = ab.taylor_bounds(f, d, propagate_trust_regions=bool(rng.integers(2)))
    def bounds(lib, x, r, n, bf=bf):
      if lib is np or lib.ndim(x) > 1:
        return None
      b = bf(x, r)
      return b.coefficients, b.lower(r[0]), b.upper(r[1])
    ops[f'bounds of {name}'] = bounds
  return ops


@contextlib.contextmanager
def _newly_imported():
  """Imports of autobound's modules give new ones, without any history."""
  theirs = lambda: [k for k in sys.modules if k.split('.')[0] == 'autobound']
  old = {k: sys.modules.pop(k) for k in theirs()}
  try:
    yield
  finally:
    for k in theirs():
      del sys.modules[k]
    sys.modules.update(old)


def case_churn(ctx):
  """Operands that come and go, some with equal values of other types.

  Their addresses are used again, so that whatever is remembered by identity,
  or by value alone, is found out by calling in another order.
  """
  import jax.numpy as jnp
  rng = ctx.rng
  ops_seed = int(rng.integers(2**31))
  names = list(_churn_operations(np.random.default_rng(ops_seed)))
  names = [names[int(i)] for i in rng.permutation(len(names))[:10]]
  values = [.75, -.5, 2., 0., -0.]
  variants = []
  for _ in range(5):
    # Equal values of different types: numbers, shapes and back ends.
    v = float(values[int(rng.integers(len(values)))])
    down, up = float(rng.choice([0., .25, 1.5])), float(rng.choice([0., .5, 2.]))
    shape = [(), (), (1,), (2,)][int(rng.integers(4))]
    n, dtype, backend = int(rng.integers(0, 4)), 'float64', rng.integers(3) == 0
    variants.append((v, down, up, dtype, shape, n, backend))
    for change in rng.permutation(4)[:2]:
      variants.append((
          -v if change == 0 and v == 0 else v, down, up,
          'float32' if change <= 1 else dtype, (3,) if change == 2 else shape,
          n, (not backend) if change == 3 else backend))
  ctx.describe(names)

  def call(name, variant):
    v, down, up, dtype, shape, n, backend = variant
    lib = jnp if backend else np
    x = lib.full(shape, v, dtype)
    r = (lib.full(shape, v - down, dtype), lib.full(shape, v + up, dtype))
    return ops[name](lib, x, r, n)

  seen = {}
  todo = [(name, i) for name in names for i in range(len(variants))]
  shuffle = lambda: [todo[int(i)] for i in rng.permutation(len(todo))]
  for order in (todo, todo[::-1]):
    # As if the process had just begun.
    with _newly_imported(), np.errstate(all='ignore'):
      ops = _churn_operations(np.random.default_rng(ops_seed))
      for name, i in order + shuffle():
        v = variants[i]
        out = ctx.sut(call, name, v)
        digest = purity.digest(out)
        ctx.count('churned')
        if seen.setdefault((name, i), (digest, out))[0] != digest:
          ctx.violation(
              f'{name} for x0 {v[0]} - {v[1]} + {v[2]} ({v[3]}, {v[4]}, '
              f'{"jax" if v[6] else "numpy"}, {v[5]}) depends on what was '
              'computed before', first=seen[name, i][1], again=out)
          return
  ctx.distinct(tuple(names), tuple(variants))


def case_globals(ctx):
  """Settings of other libraries stay as they are, whatever they are."""
  rng = ctx.rng
  job = purity.random_job(rng, ctx.index)
  ctx.describe(job)
  first = ctx.sut(purity.perform, job)
  digest = purity.digest(first)
  for _ in range(2):
    with purity.unusual_globals(rng):
      before = purity.snapshot()
      again = ctx.sut(purity.perform, job)
      changed = purity.differences(before, purity.snapshot())
    ctx.count('snapshots_unusual')
    if changed:
      ctx.violation(f'bounding changed {changed}: {job}')
      return
    if purity.digest(again) != digest:
      ctx.violation(f'other bounds of {job} under other settings', first=first,
                    again=again)
      return
  ctx.distinct('globals', str(job))


def case_editor(ctx):
  """Jaxpr and graph replacement leave subject and rule as they were."""
  import copy
  import jax
  from autobound import graph_editor
  from autobound.jax import jaxpr_editor
  rng = ctx.rng
  job = purity.random_job(rng, ctx.index)
  clean = lambda j: re.sub(r'0x[0-9a-f]+', '', str(j))
  with jax.enable_x64(not job.single):
    subject = jax.make_jaxpr(lambda x: job.f(x))(job.x0).jaxpr
    h = [jax.nn.sigmoid, lambda x: x * x, lambda x: jax.numpy.exp(x) + 1.,
         jax.nn.softplus, lambda x: -x][int(rng.integers(5))]
    pattern = jax.make_jaxpr(h)(0.).jaxpr
    replacement = jax.make_jaxpr(lambda x: 3. * jax.numpy.exp(x))(0.).jaxpr
    texts = [clean(j) for j in (pattern, replacement, subject)]
    one = clean(ctx.sut(jaxpr_editor.replace, pattern, replacement, subject))
    if [clean(j) for j in (pattern, replacement, subject)] != texts:
      ctx.violation(f'jaxpr_editor.replace changed its arguments: {job}')
      return
    two = clean(ctx.sut(jaxpr_editor.replace, pattern, replacement, subject))
    ctx.count('operand_checks')
    if one != two:
      ctx.violation(f'jaxpr_editor.replace gives another result the second '
                    f'time: {job}', one=one, two=two)
      return
    # What JAX remembers of f is still f.
    if purity.bits(_values(job)) != purity.bits(_values(job)):
      ctx.violation(f'values of {job} are not reproducible')
      return
  ctx.distinct('editor', texts[2], texts[0])


def _typed_functions(rng):
  """Functions of an array of any shape and type, that depend on both."""
  import jax
  import jax.numpy as jnp
  c = float(np.round(rng.uniform(.3, 1.7), 3))
  third = np.float64(1 / 3)
  return [
      lambda x: jnp.exp(c * x) / jnp.size(x),
      lambda x: jnp.asarray(x) * jnp.asarray(third) + c * x ** 3,
      lambda x: jax.nn.softplus(x) * (x * c - third),
      lambda x: x / 3 + 7 * x,
      lambda x: jnp.sum(jax.nn.sigmoid(x) * x * c),
      lambda x: jnp.exp(-x) * (4. if jnp.ndim(x) else 5.) + x * jnp.size(x),
      lambda x: jnp.exp(x) + float(jnp.finfo(jnp.result_type(
          x, jnp.float32)).eps) * 1e5 * x,
      lambda x: jnp.reshape(jnp.log(x + 9.), (-1,)) ** 2,
      lambda x: jax.jit(lambda v: v * third + 1.)(x) ** 2,
  ]


def case_types(ctx):
  """One bounding function, for arguments of several types and shapes."""
  import autobound.jax as ab
  import jax
  import jax.numpy as jnp
  rng = ctx.rng
  fns = _typed_functions(rng)
  k = ctx.index % len(fns)
  f = fns[k]
  degree = int(rng.integers(0, 4))
  propagate = bool(rng.integers(2))
  make = lambda: ab.taylor_bounds(f, degree, propagate_trust_regions=propagate)
  bf = make()
  calls = []
  for _ in range(int(rng.integers(3, 6))):
    kind = ['single', 'double', 'double', 'int', 'python', 'single in double'][
        int(rng.integers(6))]
    n = int(rng.integers(0, 4))
    shape = (n,) if n else ()
    x0 = np.round(rng.uniform(-2, 2, shape), 2)
    w = rng.integers(1, 4, shape)
    if kind == 'python':
      x0, a, b = float(np.ravel(x0)[0]), -2., 3.
    elif kind == 'int':
      x0 = np.asarray(x0, int)
      a, b = x0 - w, x0 + w
    else:
      ft = np.float64 if kind == 'double' else np.float32
      x0, a, b = [np.asarray(v, ft) for v in (x0, x0 - w, x0 + w)]
    calls.append((kind != 'single', x0, (a, b)))
  def perform(bf, call):
    x64, x0, (a, b) = call
    with jax.enable_x64(x64):
      x0, a, b = [v if isinstance(v, float) else jnp.asarray(v)
                  for v in (x0, a, b)]
      try:
        r = bf(x0, (a, b))
      except Exception as e:  # pylint: disable=broad-except
        return type(e).__name__
      return purity.bits((r.coefficients, r.x_trust_region, r.x0, r.lower(a),
                          r.upper(b)))
  what = (f'function {k}, degree {degree}, propagate={propagate}, at '
          f'{[(np.asarray(c[1]).dtype, np.shape(c[1]), c[0]) for c in calls]}')
  ctx.describe(what)
  for i, call in enumerate(calls):
    got = perform(bf, call)
    want = perform(make(), call)
    ctx.count('typed_calls')
    if got != want:
      ctx.violation(f'call {i} of one bounding function is not that of a new '
                    f'one: {what}', got=got, want=want, call=call)
      return
  ctx.distinct(what)


KINDS = {
    'types': (case_types, 27, 800),
    'history': (case_history, 40, 2500),
    'threads': (case_threads, 14, 700),
    'process': (case_process, 2, 60),
    'churn': (case_churn, 16, 1500),
    'globals': (case_globals, 20, 800),
    'operands': (case_operands, 48, 4000),
    'editor': (case_editor, 24, 1500),
}
