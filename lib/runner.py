"""Runs one check: spreads cases over worker processes, collects verdicts,
writes evidence and replay files.

A check module (checks/pXX.py) defines
  PROPERTY   its id
  RULE       how cases are made, and what makes one non-trivial
  KINDS      {kind: (function(ctx), quick_count, thorough_count)}
  ASSUMPTIONS (optional list)
  REQUIRE    (optional {counter: minimum}) what the monitors must have seen in
             total; otherwise the run is inconclusive and exits 3.

Every case is identified by (seed, kind, index) and draws all its choices from
a generator seeded by these, so that a replay file only has to name them.
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
MAX_REPLAYS = 5


class CaseTimeout(BaseException):
  """A case used more processor time than the limit (cpu), or took so long by
  the clock that the run must go on without it."""

  def __init__(self, cpu):
    super().__init__(cpu)
    self.cpu = cpu


class SutError(Exception):
  """An exception that the code under test raised where it must not."""


class Ctx:
  """What a case sees: its random generator, and where it reports to."""

  def __init__(self, prop, kind, index, seed, tier, known):
    import numpy as np
    self.prop, self.kind, self.index, self.seed, self.tier = (
        prop, kind, index, seed, tier)
    self.rng = np.random.default_rng(
        [seed, zlib.crc32(kind.encode()), index])
    self.violations = []
    self.known_hits = []
    self.counters = collections.Counter()
    self.distinct_keys = set()
    self.sample = None
    self._known = known

  def count(self, name, n=1):
    self.counters[name] += int(n)

  def distinct(self, *key):
    """Declares this case non-trivial and distinct by key."""
    self.distinct_keys.add(
        hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

  def describe(self, text):
    self.sample = str(text)[:400]

  def violation(self, what, **detail):
    sig = detail.get('sig')
    for k in self._known:
      if k.get('property') == self.prop and sig is not None and (
          k.get('sig') == sig):
        self.known_hits.append(k.get('what', sig))
        return
    self.violations.append({
        'what': str(what)[:1000],
        'detail': {k: str(v)[:2000] for k, v in detail.items()},
    })

  def sut(self, fn, *args, **kwargs):
    """Calls code under test that must not raise here."""
    try:
      return fn(*args, **kwargs)
    except (CaseTimeout, KeyboardInterrupt):
      raise
    except BaseException as e:  # pylint: disable=broad-except
      raise SutError(f'{type(e).__name__}: {str(e)[:300]}\n' +
                     ''.join(traceback.format_tb(e.__traceback__)[-4:])) from e


def install_loader():
  """Imports autobound from source in REPO, never from cached bytecode."""
  import importlib.machinery as m

  class NoCacheLoader(m.SourceFileLoader):
    def get_code(self, fullname):
      path = self.get_filename(fullname)
      return compile(self.get_data(path), path, 'exec', dont_inherit=True)

  class Finder:
    @staticmethod
    def find_spec(fullname, path=None, target=None):
      if fullname != 'autobound' and not fullname.startswith('autobound.'):
        return None
      spec = m.PathFinder.find_spec(
          fullname, [REPO] if path is None else path, target)
      if spec is not None and isinstance(spec.loader, m.SourceFileLoader):
        spec.loader = NoCacheLoader(spec.loader.name, spec.loader.path)
      return spec

  sys.meta_path.insert(0, Finder())


_LINES = set()


def start_line_monitor():
  """Records which lines of autobound ran (evidence of reach)."""
  mon = getattr(sys, 'monitoring', None)
  if mon is None:
    return
  tool = mon.COVERAGE_ID
  try:
    mon.use_tool_id(tool, 'verif')
  except ValueError:
    return
  prefix = os.path.join(REPO, 'autobound') + os.sep

  def on_line(code, line):
    if code.co_filename.startswith(prefix):
      _LINES.add((code.co_filename[len(prefix):], line))
    return mon.DISABLE

  mon.register_callback(tool, mon.events.LINE, on_line)
  mon.set_events(tool, mon.events.LINE)


def run_case(mod, kind, index, seed, tier, known, case_timeout):
  ctx = Ctx(mod.PROPERTY, kind, index, seed, tier, known)
  wall_limit = min(3 * case_timeout, 400)
  # Judged by processor time, which a busy machine does not stretch; the clock
  # only ends a case that would hold up the run.
  def on_alarm(signum, _):
    raise CaseTimeout(signum == signal.SIGPROF)
  signal.signal(signal.SIGALRM, on_alarm)
  signal.signal(signal.SIGPROF, on_alarm)
  signal.alarm(wall_limit)
  signal.setitimer(signal.ITIMER_PROF, case_timeout)
  error = None
  t0 = time.time()
  cpu0 = time.process_time()
  try:
    mod.KINDS[kind][0](ctx)
  except SutError as e:
    ctx.violation(f'the code under test raised: {e}', sample=ctx.sample)
  except CaseTimeout as e:
    tb = traceback.format_exc()
    inside = REPO + os.sep + 'autobound' in tb
    busy = time.process_time() - cpu0
    if inside and (e.cpu or busy < 1):
      ctx.violation(f'no result within {case_timeout} s of processor time'
                    if e.cpu else
                    f'no result within {wall_limit} s, without using '
                    'the processor', sample=ctx.sample, where=tb[-1500:])
    elif not e.cpu:
      ctx.count('cases_ended_by_the_clock')
    else:
      error = f'case {kind}/{index} timed out in the harness: {tb[-1500:]}'
  except BaseException as e:  # pylint: disable=broad-except
    if isinstance(e, KeyboardInterrupt):
      raise
    frames = traceback.extract_tb(e.__traceback__)
    if any(f.filename.startswith(REPO + os.sep + 'autobound') for f in frames):
      ctx.violation(f'the code under test raised {type(e).__name__}: '
                    f'{str(e)[:300]}', sample=ctx.sample,
                    where=traceback.format_exc()[-1500:])
    else:
      error = f'case {kind}/{index}: {traceback.format_exc()[-3000:]}'
  finally:
    signal.alarm(0)
    signal.setitimer(signal.ITIMER_PROF, 0)
  ctx.wall = time.time() - t0
  return ctx, error


def share_compilations(scratch):
  """Lets the workers of one run share what JAX compiles."""
  if not os.environ.get('VERIF_NO_CACHE'):
    os.environ.update(JAX_COMPILATION_CACHE_DIR=os.path.join(scratch, 'jax'),
                      JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS='0',
                      JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES='-1')


def worker(name, jobs, seed, tier, known, deadline, out_path, case_timeout):
  out = {'cases': 0, 'violations': [], 'errors': [], 'known': [],
         'counters': {}, 'distinct': [], 'samples': [], 'lines': [],
         'skipped_for_time': 0, 'slow': []}
  try:
    os.environ.update(XLA_FLAGS='--xla_cpu_multi_thread_eigen=false '
                      'intra_op_parallelism_threads=1',
                      OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    share_compilations(os.path.dirname(out_path))
    install_loader()
    start_line_monitor()
    mod = importlib.import_module(f'checks.{name}')
    import autobound
    where = os.path.realpath(autobound.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
      raise RuntimeError(f'autobound comes from {where}')
    counters = collections.Counter()
    distinct = set()
    if hasattr(mod, 'setup'):
      mod.setup()
    for kind, index in jobs:
      if time.time() > deadline:
        out['skipped_for_time'] += 1
        continue
      ctx, error = run_case(mod, kind, index, seed, tier, known, case_timeout)
      out['cases'] += 1
      counters.update(ctx.counters)
      counters[f'cases.{kind}'] += 1
      distinct |= ctx.distinct_keys
      out['known'].extend(ctx.known_hits)
      if ctx.sample and len(out['samples']) < 3 and ctx.distinct_keys:
        out['samples'].append(f'{kind}/{index}: {ctx.sample}')
      if ctx.wall > 10:
        out['slow'].append((kind, index, round(ctx.wall, 1)))
      if error:
        out['errors'].append(error)
        if len(out['errors']) > 5:
          break
      for v in ctx.violations[:2]:
        out['violations'].append(dict(v, kind=kind, index=index,
                                      sample=ctx.sample))
      if len(out['violations']) >= 12:
        break
    out['counters'] = dict(counters)
    out['distinct'] = sorted(distinct)
    out['lines'] = sorted(_LINES)
  except BaseException:  # pylint: disable=broad-except
    out['errors'].append(traceback.format_exc()[-3000:])
  tmp = out_path + '.tmp'
  with open(tmp, 'w') as f:
    json.dump(out, f, default=str)
  os.replace(tmp, out_path)


def load_known():
  path = os.path.join(ROOT, 'known_findings.json')
  if not os.path.exists(path):
    return []
  with open(path) as f:
    return json.load(f).get('findings', [])


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('check')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--seed', type=int,
                  default=int(os.environ.get('VERIF_SEED', '1') or 1))
  ap.add_argument('--replay')
  ap.add_argument('--kinds', help='only these kinds (comma separated)')
  ap.add_argument('--scale', type=float, default=1.)
  ap.add_argument('--workers', type=int, default=8)
  ap.add_argument('--cap', type=int, help='seconds')
  a = ap.parse_args()
  if a.tier not in ('quick', 'thorough'):
    a.tier = 'quick'
  t0 = time.time()
  name = a.check.lower()
  sys.path.insert(0, ROOT)
  os.environ.update(JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1',
                    TF_CPP_MIN_LOG_LEVEL='3')
  sys.dont_write_bytecode = True
  meta = importlib.import_module(f'checks.{name}')  # must not import jax
  prop = meta.PROPERTY
  known = load_known()
  quick = a.tier == 'quick'
  kinds = {k: v for k, v in meta.KINDS.items()
           if not a.kinds or k in a.kinds.split(',')}
  if a.replay:
    with open(a.replay) as f:
      r = json.load(f)
    jobs, a.seed, a.tier = [(r['kind'], r['index'])], r['seed'], r['tier']
  else:
    jobs = []
    for kind, (_, q, t) in kinds.items():
      n = max(1, int((q if quick else t) * a.scale))
      jobs += [(n_i / n, kind, n_i) for n_i in range(n)]
    jobs.sort()  # interleave the kinds
    jobs = [(k, i) for _, k, i in jobs]
  cap = a.cap or (getattr(meta, 'CAP_QUICK', 240) if quick
                  else getattr(meta, 'CAP_THOROUGH', 3000))
  case_timeout = getattr(meta, 'CASE_TIMEOUT', 150)
  n_workers = max(1, min(a.workers, getattr(meta, 'WORKERS', 8), len(jobs)))
  scratch = tempfile.mkdtemp(prefix=f'verif-{name}-')
  procs = []
  results = []
  errors = []
  try:
    mp = multiprocessing.get_context('fork')
    for w in range(n_workers):
      path = os.path.join(scratch, f'{w}.json')
      p = mp.Process(target=worker,
                     args=(name, [j for j in jobs if j[1] % n_workers == w],
                           a.seed, a.tier, known,
                           t0 + cap, path, case_timeout))
      p.start()
      procs.append((p, path))
    for p, path in procs:
      p.join(max(1., t0 + cap + min(3 * case_timeout, 400) + 60 - time.time()))
      if p.is_alive():
        p.kill()
        p.join()
        errors.append('a worker did not finish in time')
      if os.path.exists(path):
        with open(path) as f:
          results.append(json.load(f))
      else:
        errors.append(f'a worker ended without a result '
                      f'(exit code {p.exitcode})')
  finally:
    for p, _ in procs:
      if p.is_alive():
        p.kill()
    shutil.rmtree(scratch, ignore_errors=True)

  counters = collections.Counter()
  distinct, lines = set(), set()
  cases = skipped = 0
  violations, known_hits, samples, slow = [], [], [], []
  for r in results:
    counters.update(r['counters'])
    distinct.update(r['distinct'])
    lines.update(tuple(x) for x in r['lines'])
    cases += r['cases']
    skipped += r['skipped_for_time']
    violations += r['violations']
    errors += r['errors']
    known_hits += r['known']
    samples += r['samples']
    slow += r['slow']
  violations.sort(key=lambda v: (v['kind'], v['index']))

  require = {} if (a.replay or a.kinds) else getattr(meta, 'REQUIRE', {})
  short = {k: (counters.get(k, 0), n) for k, n in require.items()
           if counters.get(k, 0) < n}
  per_file = collections.Counter(f for f, _ in lines)
  wall = time.time() - t0
  evidence = {
      'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
      'coverage': {
          'evaluations': cases,
          'distinct_nontrivial': len(distinct),
          'rule': meta.RULE,
          'samples': samples[:12],
          'observed': {k: counters[k] for k in sorted(counters)},
          'autobound_lines_run': dict(sorted(per_file.items())),
          'cases_skipped_for_time': skipped,
      },
      'assumptions': getattr(meta, 'ASSUMPTIONS', []),
      'wall_s': round(wall, 2),
      'violations': len(violations),
      'known_findings': sorted(set(known_hits)),
      'errors': len(errors),
  }
  if not a.replay and not a.kinds:
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w') as f:
      json.dump(evidence, f, indent=1)
  print(f'{prop} {a.tier} seed={a.seed}: {cases} cases, {len(distinct)} '
        f'distinct, {len(violations)} violations, {len(errors)} errors, '
        f'{skipped} skipped, {wall:.1f} s')
  for k in sorted(set(known_hits)):
    print(f'KNOWN-FINDING: property={prop} {k}')
  if slow and os.environ.get('VERIF_DEBUG'):
    print('slow:', slow[:10])
  for i, v in enumerate(violations[:MAX_REPLAYS]):
    d = os.path.join(ROOT, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}-{i}.json')
    if a.replay:
      path = a.replay
    else:
      with open(path, 'w') as f:
        json.dump(dict(v, property=prop, seed=a.seed, tier=a.tier,
                       how=f'python -m lib.runner {name} --replay {path}'),
                  f, indent=1)
    print(f"  [{v['kind']}/{v['index']}] {v['what'][:600]}")
    for k, x in v['detail'].items():
      print(f'      {k}: {x[:400]}')
    print(f'VIOLATION property={prop} replay={path}')
  if violations:
    return 1
  if errors:
    for e in errors[:3]:
      print('ERROR', e)
    return 2
  if short:
    print(f'INCONCLUSIVE: the monitors saw too little: {short}')
    return 3
  return 0


if __name__ == '__main__':
  sys.exit(main())
