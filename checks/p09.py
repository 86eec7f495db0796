"""P09: search and replace in programs preserves meaning."""
import numpy as np
from lib import tb

PROPERTY = 'P09'
TECHNIQUE = ('runtime monitoring: edited graphs and Jaxprs are checked for '
             'well-formedness and executed, against an independent reference '
             'editor and against the program written with the replacement')
RULE = ('A case is one pattern, replacement and subject: random operation graphs '
        'over integers modulo a prime with planted, overlapping and nearly '
        'matching occurrences, or Jaxprs traced from random functions with the '
        'pattern at 0 to 3 places; non-trivial if the subject contains an '
        'occurrence or a near miss; distinct by pattern and subject.')
ASSUMPTIONS = ['jax.core.eval_jaxpr evaluates Jaxprs as JAX does']
REQUIRE = {'occurrences': 1500, 'near_misses': 300, 'values': 5000,
           'jaxpr_occurrences': 150, 'matches': 600, 'non_matches': 600, 'parameters': 200}

P = 2 ** 31 - 1


def setup():
  tb.setup_jax()


def _ge():
  from autobound import graph_editor
  return graph_editor


# --- graphs ------------------------------------------------------------------

_ARITY = {'add': (2, 1), 'mul': (2, 1), 'sub': (2, 1), 'neg': (1, 1),
          'aff': (1, 1), 'mix': (2, 2), 'const': (0, 1), 'dup': (1, 2)}


def _apply(data, args):
  name, c = data
  if name == 'add':
    return [(args[0] + args[1]) % P]
  if name == 'mul':
    return [args[0] * args[1] % P]
  if name == 'sub':
    return [(args[0] - args[1]) % P]
  if name == 'neg':
    return [-args[0] % P]
  if name == 'aff':
    return [(args[0] * c + 1) % P]
  if name == 'mix':
    return [(args[0] + 2 * args[1]) % P, (args[0] - args[1]) * 3 % P]
  if name == 'dup':
    return [args[0], (args[0] + 1) % P]
  return [c % P]


def _is_lit(v):
  return isinstance(v, tuple) and v[0] == 'lit'


def _can_bind(u, v):
  if _is_lit(u):
    return u == v
  return not _is_lit(v)


class IllFormed(Exception):
  pass


def _run(inputs, outputs, ops, values):
  env = dict(zip(inputs, values))
  if len(env) != len(inputs):
    raise IllFormed('an input occurs twice')
  def read(v):
    if _is_lit(v):
      return v[1] % P
    if v not in env:
      raise IllFormed(f'{v!r} is used before it is defined')
    return env[v]
  for op in ops:
    out = _apply(op.data, [read(v) for v in op.inputs])
    if len(out) != len(op.outputs):
      raise IllFormed(f'{op!r} has a wrong number of outputs')
    for v, x in zip(op.outputs, out):
      if v in env or _is_lit(v):
        raise IllFormed(f'{v!r} is defined twice')
      env[v] = x
  return [read(v) for v in outputs]


def _random_ops(rng, ge, avail, k, fresh, lits=True):
  """k random operations on variables in avail (which grows)."""
  ops = []
  for _ in range(k):
    name = str(rng.choice(list(_ARITY), p=[.2, .15, .15, .15, .2, .06, .04,
                                           .05]))
    n_in, n_out = _ARITY[name]
    def arg():
      if lits and rng.uniform() < .12:
        return ('lit', int(rng.integers(2, 4)))
      if rng.uniform() < .5:
        return avail[-1]
      return avail[int(rng.integers(len(avail)))]
    ins = [arg() for _ in range(n_in)]
    outs = [fresh() for _ in range(n_out)]
    c = int(rng.integers(2, 4)) if name in ('aff', 'const') else 0
    ops.append(ge.Operation((name, c), ins, outs))
    avail.extend(outs)
  return ops


def _counter(prefix):
  n = [0]
  def fresh():
    n[0] += 1
    return f'{prefix}{n[0]}'
  return fresh


def _instantiate(ge, template, bind, fresh):
  """Copies of the template's operations; bind maps its inputs."""
  m = dict(bind)
  ops = []
  for op in template:
    for v in op.outputs:
      m[v] = fresh()
    ops.append(ge.Operation(
        op.data, [v if _is_lit(v) else m[v] for v in op.inputs],
        [m[v] for v in op.outputs]))
  return ops, m


def _match(pattern, ops):
  """The reference matcher."""
  if len(pattern) != len(ops):
    return None
  pairs = []
  for p, s in zip(pattern, ops):
    if p.data != s.data or len(p.inputs) != len(s.inputs) or (
        len(p.outputs) != len(s.outputs)):
      return None
    pairs += list(zip(p.inputs, s.inputs)) + list(zip(p.outputs, s.outputs))
  m = {}
  for u, v in pairs:
    if not _can_bind(u, v) or m.setdefault(u, v) != v:
      return None
  return m


def _replace(ge, pattern, replacement, inputs, outputs, ops, fresh):
  """The reference editor: (operations, number of replaced occurrences)."""
  made = {v for op in replacement for v in op.outputs}
  gone = [v for op in pattern for v in op.outputs if v not in made]
  out, i, n, k = [], 0, 0, len(pattern)
  while i < len(ops):
    m = _match(pattern, ops[i:i + k])
    if m is not None:
      used = set(outputs)
      for j, op in enumerate(ops):
        if not i <= j < i + k:
          used.update(op.inputs)
      if any(m[v] in used for v in gone):
        m = None
      else:
        # Inputs of the pattern may be bound to what the occurrence defines.
        pending = {m[v] for op in pattern for v in op.outputs}
        for op in replacement:
          if any(m.get(v) in pending for v in op.inputs):
            m = None
            break
          pending -= {m.get(v) for v in op.outputs}
    if m is None:
      out.append(ops[i])
      i += 1
      continue
    n += 1
    for op in replacement:
      for v in list(op.inputs) + list(op.outputs):
        if v not in m:
          m[v] = v if _is_lit(v) else fresh()
      out.append(op.subs(m))
    i += k
  return out, n


def _equivalent(rng, ge, template, outs, keep):
  """Another program for the same outputs.  keep: every variable survives."""
  fresh = _counter('r')
  ren = {}
  ops = []
  def name(v):
    if _is_lit(v):
      return v
    return ren.get(v, v)
  for op in template:
    for v in op.outputs:
      ren[v] = v if keep or v in outs else fresh()
    o = [ren[v] for v in op.outputs]
    i = [name(v) for v in op.inputs]
    kind, c = op.data
    r = rng.uniform()
    O = ge.Operation
    if kind in ('add', 'mul') and r < .4:
      ops.append(O(op.data, i[::-1], o))
    elif kind == 'add' and r < .8:
      t = fresh()
      ops += [O(('neg', 0), [i[1]], [t]), O(('sub', 0), [i[0], t], o)]
    elif kind == 'sub' and r < .8:
      t = fresh()
      ops += [O(('neg', 0), [i[1]], [t]), O(('add', 0), [i[0], t], o)]
    elif kind == 'neg' and r < .6:
      t = fresh()
      ops += [O(('sub', 0), [i[0], i[0]], [t]), O(('sub', 0), [t, i[0]], o)]
    elif kind == 'aff' and r < .7:
      t, u = fresh(), fresh()
      ops += [O(('mul', 0), [i[0], ('lit', c)], [t]), O(('const', 1), [], [u]),
              O(('add', 0), [t, u], o)]
    elif kind == 'const' and r < .5:
      ops.append(O(('add', 0), [('lit', c), ('lit', 0)], o))
    else:
      ops.append(O(op.data, i, o))
  return ops


def _show(ops):
  return '; '.join(f'{list(o.outputs)} = {o.data}{list(o.inputs)}' for o in ops)


def case_replace(ctx):
  rng = ctx.rng
  ge = _ge()
  # The pattern.
  n_in = int(rng.integers(1, 4))
  pins = [f'p{i}' for i in range(n_in)]
  fresh_p = _counter('q')
  k = int(rng.integers(1, 4))
  avail = list(pins)
  pattern = _random_ops(rng, ge, avail, k, fresh_p)
  made = [v for op in pattern for v in op.outputs]
  read = {v for op in pattern for v in op.inputs}
  pins = [v for v in pins if v in read]
  outs = [v for v in made if v not in read] or made[-1:]
  # The subject: noise, occurrences, near misses.
  fresh = _counter('s')
  inputs = [fresh() for _ in range(int(rng.integers(1, 4)))]
  avail = list(inputs)
  ops = []
  planted = []
  for _ in range(int(rng.integers(1, 6))):
    r = rng.uniform()
    if r < .35:
      ops += _random_ops(rng, ge, avail, int(rng.integers(1, 3)), fresh)
      continue
    bind = {v: avail[int(rng.integers(len(avail)))] for v in pins}
    new, m = _instantiate(ge, pattern, bind, fresh)
    if rng.uniform() < .25:
      # Inputs bound to what earlier operations of the occurrence define.
      for v in pins:
        first = min(j for j, op in enumerate(pattern) if v in op.inputs)
        earlier = [u for op in new[:first] for u in op.outputs]
        if earlier and rng.uniform() < .6:
          ctx.count('inputs_bound_inside')
          m[v] = earlier[int(rng.integers(len(earlier)))]
          for j in range(first, len(new)):
            new[j].inputs = [m[v] if u == v else w for u, w in zip(
                pattern[j].inputs, new[j].inputs)]
    if r > .75:
      # A near miss.
      ctx.count('near_misses')
      op = new[int(rng.integers(len(new)))]
      if op.inputs and rng.uniform() < .6:
        op.inputs = list(op.inputs)
        op.inputs[int(rng.integers(len(op.inputs)))] = (
            ('lit', 5) if rng.uniform() < .3
            else avail[int(rng.integers(len(avail)))])
      else:
        op.data = {'add': ('mul', 0), 'mul': ('add', 0), 'sub': ('add', 0),
                   'neg': ('aff', 7), 'aff': ('aff', 7), 'mix': ('mix', 1),
                   'const': ('const', 9), 'dup': ('dup', 1)}[op.data[0]]
    else:
      planted.append(m)
    ops += new
    # Sometimes only the results of the occurrence are used later.
    if rng.uniform() < .6:
      avail += [m[v] for v in outs]
    else:
      avail += [v for op in new for v in op.outputs]
  outputs = [avail[-1]] + [avail[int(rng.integers(len(avail)))]
                           for _ in range(int(rng.integers(0, 3)))]
  equivalent = bool(rng.uniform() < .6)
  keep = bool(rng.uniform() < .4)
  if equivalent:
    replacement = _equivalent(rng, ge, pattern, outs, keep)
  else:
    # Inequivalent: shift every output.
    replacement = []
    f = _counter('r')
    for v in (made if keep else outs):
      src = pins[int(rng.integers(len(pins)))] if pins else ('lit', 4)
      if rng.uniform() < .5:
        t = f()
        replacement += [ge.Operation(('aff', 11), [src], [t]),
                        ge.Operation(('aff', 13), [t], [v])]
      else:
        replacement.append(ge.Operation(('aff', 17), [src], [v]))
  simple = all(v in made or v in pins or _is_lit(v)
               for op in replacement for v in list(op.inputs) + list(op.outputs))
  fresh_new = _counter('n')
  new_var = lambda v: v if _is_lit(v) else fresh_new()
  subject = ge.ComputationGraph(list(inputs), list(outputs), list(ops),
                                data='payload')
  snapshot = (_show(pattern), _show(replacement), _show(ops))
  want, n = _replace(ge, pattern, replacement, inputs, outputs, ops,
                     _counter('w'))
  what = (f'pattern {_show(pattern)} | replacement {_show(replacement)} | subject '
          f'{inputs} -> {outputs}: {_show(ops)}')
  ctx.describe(what)
  if simple and rng.uniform() < .5:
    got = ctx.sut(ge.replace, pattern, replacement, subject, _can_bind)
  else:
    got = ctx.sut(ge.replace, pattern, replacement, subject, _can_bind, new_var)
  if snapshot != (_show(pattern), _show(replacement), _show(ops)) or (
      list(subject.operations) != ops):
    ctx.violation(f'replace modified its arguments: {what}')
    return
  if list(got.inputs) != inputs or list(got.outputs) != outputs or (
      got.data != 'payload'):
    ctx.violation(f'replace changed inputs, outputs or data: {what}')
    return
  ctx.count('occurrences', n)
  for _ in range(3):
    vals = [int(x) for x in rng.integers(0, P, len(inputs))]
    try:
      v = _run(inputs, outputs, got.operations, vals)
    except IllFormed as e:
      ctx.violation(f'the edited graph is ill-formed ({e}): {what}',
                    got=_show(got.operations))
      return
    ctx.count('values', len(v))
    if equivalent and v != _run(inputs, outputs, ops, vals):
      ctx.violation('replacing a pattern by an equivalent program changed '
                    f'values: {what}', got=_show(got.operations))
      return
    if v != _run(inputs, outputs, want, vals):
      ctx.violation(f'the edited graph computes {v}, with {n} occurrences '
                    f'replaced it should be {_run(inputs, outputs, want, vals)}'
                    f': {what}', got=_show(got.operations))
      return
  if len(got.operations) != len(want):
    ctx.violation(f'the edited graph has {len(got.operations)} operations, with '
                  f'{n} occurrences replaced it should have {len(want)}: {what}',
                  got=_show(got.operations))
    return
  if n or planted:
    ctx.distinct(what)


def case_match(ctx):
  rng = ctx.rng
  ge = _ge()
  for _ in range(4):
    k = int(rng.integers(1, 4))
    avail = ['p0', 'p1']
    pattern = _random_ops(rng, ge, avail, k, _counter('q'))
    names = ['s0', 's1'] if rng.uniform() < .7 else ['s0', 's0']
    bind = dict(zip(['p0', 'p1'], names))
    subject, _ = _instantiate(ge, pattern, bind, _counter('t'))
    r = rng.uniform()
    if r < .5:
      op = subject[int(rng.integers(k))]
      s = rng.uniform()
      if s < .4 and op.inputs:
        op.inputs = list(op.inputs)
        j = int(rng.integers(len(op.inputs)))
        op.inputs[j] = ['s0', 's1', 's2', ('lit', 2), ('lit', 3)][
            int(rng.integers(5))]
      elif s < .6:
        op.data = (op.data[0], op.data[1] + 1)
      elif s < .7:
        op.outputs = list(op.outputs) + ['extra']
      elif s < .8 and op.inputs:
        op.inputs = list(op.inputs) + [op.inputs[0]]
      elif s < .9:
        subject = subject[:-1] if rng.uniform() < .5 else subject + [op]
      elif op.outputs:
        # Outputs that coincide with another variable.
        op.outputs = list(op.outputs)
        op.outputs[0] = 't1'
    want = _match(pattern, subject)
    what = f'pattern {_show(pattern)} | subject {_show(subject)}'
    ctx.describe(what)
    got = ctx.sut(ge.match, pattern, subject, _can_bind)
    if (got is None) != (want is None):
      ctx.violation(f'match is {got}, not {want}: {what}')
      return
    if got is None:
      ctx.count('non_matches')
      ctx.count('near_misses')
      ctx.distinct(what)
      continue
    ctx.count('matches')
    used = {v for op in pattern for v in list(op.inputs) + list(op.outputs)}
    again = [op.subs(got) for op in pattern]
    same = all(list(a.inputs) == list(b.inputs) and a.data == b.data and
               list(a.outputs) == list(b.outputs)
               for a, b in zip(again, subject))
    if set(got) != used or not same or dict(got) != want:
      ctx.violation(f'match is {got}, not {want}: {what}')
      return
    ctx.distinct(what)
  g = ge.ComputationGraph(['a', 'z'], ['b', 'a'],
                          _random_ops(rng, ge, ['a'], 3, _counter('v')))
  want = {'a', 'z', 'b'} | {v for op in g.operations
                            for v in list(op.inputs) + list(op.outputs)}
  if set(g.intermediate_variables()) != want:
    ctx.violation(f'intermediate_variables of {g} is '
                  f'{g.intermediate_variables()}')


# --- Jaxprs ------------------------------------------------------------------


def _captured(c):
  import jax
  import jax.numpy as jnp
  arr = jnp.asarray([c, c + 1.])
  @jax.jit
  def inner(x):
    return x * arr[0] + arr[1]
  return inner


def _named(c):
  import jax
  @jax.jit
  def inner(x):
    return x * c + jax.numpy.cos(x)
  return inner


def _cjvp(c):
  import jax
  @jax.custom_jvp
  def inner(x):
    return jax.numpy.sinh(x) * c
  inner.defjvp(lambda p, t: (inner(p[0]), t[0]))
  return inner


def _patterns():
  """(pattern, arity, equivalent replacements, other functions, near misses)."""
  import jax
  import jax.numpy as jnp
  ln2 = float(np.log(2.))
  return {
      'exp': (jnp.exp, 1, [lambda x: jnp.exp2(x / ln2),
                           lambda x: 1. / jnp.exp(-x)],
              [jnp.log1p, lambda x: jnp.cos(x) * jnp.sin(x)],
              [jnp.expm1, jnp.exp2]),
      'double': (lambda x: x * 2., 1, [lambda x: x + x],
                 [lambda x: x * 5. - 1.], [lambda x: x * 3., lambda x: x + 2.,
                                           lambda x: x - 2.,
                                           lambda x: x * 2.001]),
      'cube': (lambda x: x ** 3, 1, [lambda x: x * x * x],
               [lambda x: x ** 4], [lambda x: x ** 2, lambda x: x ** 5]),
      'softplus': (jax.nn.softplus, 1, [lambda x: jnp.log1p(jnp.exp(-jnp.abs(
          x))) + (x + jnp.abs(x)) / 2], [jnp.cos],
                   [lambda x: jnp.logaddexp(x, 1.), jax.nn.relu, jax.nn.swish]),
      'swish': (jax.nn.swish, 1, [lambda x: x / (1. + jnp.exp(-x))],
                [jnp.cos, lambda x: jnp.arctan(x) + x * x],
                [jax.nn.sigmoid, jax.nn.softplus, lambda x: x * jnp.tanh(x)]),
      'sigmoid': (jax.nn.sigmoid, 1, [lambda x: 1. / (1. + jnp.exp(-x))],
                  [jnp.cos], [jax.nn.swish, jax.nn.softplus]),
      'relu': (jax.nn.relu, 1, [lambda x: (x + jnp.abs(x)) / 2.], [jnp.cos],
               [jax.nn.relu6]),
      'pair': (lambda x, y: x * y + x, 2, [lambda x, y: x * (y + 1.),
                                           lambda x, y: x + y * x],
               [lambda x, y: jnp.cos(x) - y],
               [lambda x, y: x * y - x, lambda x, y: x * y + 1.,
                lambda x, y: x - x * y, lambda x, y: x * 2. + x,
                lambda x, y: 3. * y + 3.]),
      'same': (lambda x: x * x + 1., 1, [lambda x: 1. + x ** 2],
               [lambda x: jnp.cos(x)],
               [lambda x: x * jnp.floor(x + 7.) + 1., lambda x: x * x + 3.]),
      'chain': (lambda x: jnp.tanh(jnp.cos(x)), 1,
                [lambda x: jnp.tanh(jnp.sin(x + float(np.pi / 2)))],
                [lambda x: x * 7.], [lambda x: jnp.cos(jnp.tanh(x)),
                                     lambda x: jnp.tanh(jnp.sin(x))]),
      'two outputs': (lambda x: (jnp.exp(x), x * 3.), 1,
                      [lambda x: (1. / jnp.exp(-x), x + x + x),
                       lambda x: (jnp.exp2(x / ln2), 3. * x)],
                      [lambda x: (jnp.cos(x), x * 4.)],
                      [lambda x: (jnp.exp(x), x * 4.)]),
      'captured constant': (_captured(2.), 1, [lambda x: x * 2. + 3.],
                            [jnp.cos], [_captured(2.5), _captured(-2.)]),
      'jit with literal': (_named(2.), 1, [lambda x: x + x + jnp.cos(x)],
                           [lambda x: x - 1.], [_named(3.)]),
      'custom_jvp': (_cjvp(2.), 1, [lambda x: jnp.exp(x) - jnp.exp(-x)],
                     [jnp.cos], [_cjvp(3.)]),
  }


def _noise(rng):
  """A random step whose operations are in no pattern."""
  import jax.numpy as jnp
  c = float(np.round(rng.normal(), 2))
  return [lambda v, w: jnp.arctan(v - w), lambda v, w: jnp.maximum(v, w),
          lambda v, w: jnp.arcsinh(v) - c, lambda v, w: v - w,
          lambda v, w: jnp.minimum(v, c),
          lambda v, w: jnp.where(v > w, v, w - v)][int(rng.integers(6))]


def case_jaxpr(ctx):
  import jax
  import jax.numpy as jnp
  from autobound.jax import jaxpr_editor
  rng = ctx.rng
  pats = _patterns()
  name = list(pats)[ctx.index % len(pats)]
  f, arity, equivs, others, misses = pats[name]
  equivalent = bool(rng.uniform() < .5)
  choice = equivs if equivalent else others
  g = choice[int(rng.integers(len(choice)))]
  # A plan of steps; 'op' is the pattern.
  plan = []
  n_occ = 0
  for _ in range(int(rng.integers(2, 7))):
    r = rng.uniform()
    j, k = [int(v) for v in rng.integers(0, 4, 2)]
    if r < .4 and n_occ < 3:
      plan.append(('op', j, k))
      n_occ += 1
    elif r < .6:
      plan.append((misses[int(rng.integers(len(misses)))], j, k))
    else:
      plan.append((_noise(rng), j, k))
  const = jnp.asarray(np.round(rng.normal(size=(3,)), 2))
  use_const = rng.uniform() < .4
  shape = () if rng.uniform() < .5 else (3,)
  n_inputs = int(rng.integers(1, 3))
  tail = [int(v) for v in rng.integers(0, 3, int(rng.integers(1, 4)))]
  as_jit = rng.uniform() < .3

  def program(op):
    def h(*xs):
      env = list(xs)
      if use_const and shape:
        env.append(env[0] - const)
      for fn, j, k in plan:
        v, w = env[-1 - j % len(env)], env[-1 - k % len(env)]
        is_noise = fn != 'op' and fn not in misses
        if is_noise:
          out = fn(v, w)
        else:
          fn = op if fn == 'op' else fn
          out = fn(*(v, w)[:arity])
        if isinstance(out, tuple):
          env.extend(out)
        else:
          env.append(out)
      if as_jit:
        env.append(jax.jit(lambda a: jnp.arctan(a) - 1.)(env[-1]))
      return tuple(env[-1 - t % len(env)] for t in tail)
    return h

  x64 = rng.uniform() < .8
  with jax.enable_x64(bool(x64)):
    xs = [jnp.asarray(rng.uniform(.1, 1.2, shape)) for _ in range(n_inputs)]
    subject = jax.make_jaxpr(program(f))(*xs)
    # (A weakly typed argument would be converted by a strongly typed constant.)
    arg = jnp.zeros(()) if name == 'captured constant' else 0.
    pattern = jax.make_jaxpr(f)(*(arg,) * arity)
    replacement = jax.make_jaxpr(g)(*(arg,) * arity)
    what = (f'{name}, {"equivalent" if equivalent else "other"} replacement, '
            f'{n_occ} occurrences in {str(subject.jaxpr)[:1500]}')
    ctx.describe(what)
    before = str(subject)
    if pattern.consts or replacement.consts or pattern.jaxpr.constvars or (
        replacement.jaxpr.constvars):
      ctx.count('patterns_with_constants')
      try:
        jaxpr_editor.replace(pattern.jaxpr, replacement.jaxpr, subject.jaxpr)
      except NotImplementedError:
        return
    got = ctx.sut(jaxpr_editor.replace, pattern.jaxpr, replacement.jaxpr,
                  subject.jaxpr)
    if str(subject) != before:
      ctx.violation(f'replace modified the subject: {what}')
      return
    problem = _ill_formed(got)
    if problem:
      ctx.violation(f'the edited Jaxpr is ill-formed ({problem}): {what}',
                    got=got)
      return
    ctx.count('jaxpr_occurrences', n_occ)
    ctx.count('near_misses')
    for _ in range(2):
      xs = [jnp.asarray(rng.uniform(-1.2, 1.2, shape)) for _ in range(n_inputs)]
      vals = ctx.sut(jax.core.eval_jaxpr, got, subject.consts, *xs)
      want = program(f if equivalent else g)(*xs)
      ctx.count('values', len(vals))
      for i, (v, w) in enumerate(zip(vals, want)):
        v, w = np.asarray(v, float), np.asarray(w, float)
        if v.shape != w.shape or not np.allclose(
            v, w, rtol=1e-9 if x64 else 2e-4, atol=1e-9 if x64 else 2e-4,
            equal_nan=True):
          ctx.violation(f'output {i} at {xs} is {v}, not {w}: {what}', got=got)
          return
    if n_occ and _same_eqns(got, subject.jaxpr) and not _same_eqns(
        pattern.jaxpr, replacement.jaxpr):
      ctx.violation(f'no occurrence was replaced: {what}')
      return
    ctx.distinct(what)


def _same_eqns(a, b):
  return [e.primitive for e in a.eqns] == [e.primitive for e in b.eqns]


def _ill_formed(jaxpr):
  """What is wrong with a Jaxpr, if anything."""
  from jax.extend import core
  defined = set()
  for v in list(jaxpr.constvars) + list(jaxpr.invars):
    if v in defined:
      return f'{v} is bound twice'
    defined.add(v)
  for e in jaxpr.eqns:
    for v in e.invars:
      if isinstance(v, core.Var) and v not in defined:
        return f'{v} is used before it is defined'
    for v in e.outvars:
      if not isinstance(v, core.Var):
        return f'{v} is assigned'
      if v in defined and v.count != -1:
        return f'{v} is defined twice'
      defined.add(v)
  for v in jaxpr.outvars:
    if isinstance(v, core.Var) and v not in defined:
      return f'output {v} is not defined'
  return None


def case_roundtrip(ctx):
  """Programs in which the pattern does not occur come out as they were."""
  import jax
  import jax.numpy as jnp
  from autobound.jax import jaxpr_editor
  rng = ctx.rng
  const = jnp.asarray(rng.normal(size=(3,)))
  mat = jnp.asarray(rng.normal(size=(3, 3)))
  programs = [
      lambda x, y: x,
      lambda x, y: (y, x, x),
      lambda x, y: (1., x * 0. + 2),
      lambda x, y: const + x * y,
      lambda x, y: jnp.dot(mat, x) @ (const - y),
      lambda x, y: jax.jit(lambda a, b: (a * b, a - b))(x, y)[1],
      lambda x, y: jax.lax.scan(lambda c, a: (c + a, c * a), 0., x),
      lambda x, y: jax.lax.cond(x[0] > 0, jnp.cos, jnp.exp, y),
      lambda x, y: jax.lax.while_loop(lambda c: jnp.sum(c) < 9, lambda c: c * 2
                                      + 1, jnp.abs(x)),
      lambda x, y: jnp.sort(x)[::-1] * jnp.argmax(y),
      lambda x, y: (jnp.sum(x ** 2, axis=0), jnp.split(y, 3)),
      lambda x, y: jax.grad(lambda z: jnp.sum(jnp.sinh(z) * mat @ z))(x),
      lambda x, y: jnp.linalg.qr(jnp.outer(x, y) + mat)[0],
      lambda x, y: jax.vmap(lambda a, b: jnp.where(a > b, a, jnp.exp(b)))(x, y),
      lambda x, y: jax.nn.softplus(x) + jax.nn.swish(y) * jax.nn.relu(x),
  ]
  f = programs[ctx.index % len(programs)]
  xs = [jnp.asarray(rng.normal(size=(3,))) for _ in range(2)]
  subject = jax.make_jaxpr(f)(*xs)
  to = lambda g: jax.make_jaxpr(g)(0.).jaxpr
  ctx.describe(str(subject.jaxpr)[:600])
  got = ctx.sut(jaxpr_editor.replace, to(jnp.tan), to(jnp.cos), subject.jaxpr)
  problem = _ill_formed(got)
  if problem:
    ctx.violation(f'an unedited Jaxpr is ill-formed ({problem}): {subject}',
                  got=got)
    return
  for _ in range(2):
    xs = [jnp.asarray(rng.normal(size=(3,))) for _ in range(2)]
    want = jax.core.eval_jaxpr(subject.jaxpr, subject.consts, *xs)
    vals = ctx.sut(jax.core.eval_jaxpr, got, subject.consts, *xs)
    ctx.count('values', len(want))
    if len(vals) != len(want) or not all(
        np.array_equal(v, w) for v, w in zip(vals, want)):
      ctx.violation(f'conversion changed values from {want} to {vals}: '
                    f'{subject}', got=got)
      return
  ctx.distinct('roundtrip', ctx.index % len(programs))


def case_trivial(ctx):
  """Replacements that return inputs, constants, or drop results."""
  import jax
  import jax.numpy as jnp
  from autobound.jax import jaxpr_editor
  rng = ctx.rng
  pairs = [
      (lambda x: (jnp.exp(x), -(-x)), lambda x: (jnp.exp(x), x)),
      (lambda x: -(-x), lambda x: x),
      (lambda x: (jnp.exp(x), x * 0.), lambda x: (jnp.exp(x), 0.)),
      (lambda x: (jnp.exp(x) * 2., 2. - jnp.cos(x) * 0.),
       lambda x: (2. * jnp.exp(x), 2.)),
      (lambda x: x - x, lambda x: 0. * x),
      (lambda x: jnp.log(jnp.exp(x)), lambda x: x + 0.),
  ]
  f, g = pairs[ctx.index % len(pairs)]
  first = lambda v: v if isinstance(v, tuple) else (v,)
  which = int(rng.integers(3))
  k = int(rng.integers(1, 3))
  def program(x):
    out = x - .5
    for _ in range(k):
      r = first(f(out))
      if which == 0:
        out = r[0] + .25
      elif which == 1:
        out = r[-1] - .25
      else:
        out = r[0] - r[-1]
    return out
  subject = jax.make_jaxpr(program)(0.)
  to = lambda h: jax.make_jaxpr(h)(0.).jaxpr
  what = f'{to(f)} -> {to(g)} in {subject}'
  ctx.describe(what)
  try:
    got = jaxpr_editor.replace(to(f), to(g), subject.jaxpr)
  except (NotImplementedError, ValueError):
    ctx.count('refused')
    return
  problem = _ill_formed(got)
  if problem:
    ctx.violation(f'the edited Jaxpr is ill-formed ({problem}): {what}', got=got)
    return
  x = float(rng.uniform(.2, 1.))
  v = float(ctx.sut(jax.core.eval_jaxpr, got, [], x)[0])
  w = float(program(x))
  ctx.count('values')
  if not abs(v - w) <= 1e-9 * max(1, abs(w)):
    ctx.violation(f'the value at {x} is {v}, not {w}: {what}', got=got)
    return
  ctx.distinct(what)


def _families():
  """Name -> (input shape, parameters, parameter -> function of an array).

  The functions of a family differ in parameters or literals only.
  """
  import jax
  import jax.numpy as jnp
  from jax import lax

  def scan(length, reverse, c):
    return lambda x: lax.scan(lambda a, e: (a * c + e, a - e), x[0], x,
                              reverse=reverse)[1] + length
  def cjvp(c):
    inner = jax.custom_jvp(lambda x: jnp.sinh(x) * c)
    inner.defjvp(lambda p, t: (inner(p[0]), t[0]))
    return inner
  def const(c):
    return lambda x: x * c
  near = [1.5, 1.5000001]
  return {
      'sum axis': ((3, 3), [0, 1], lambda p: lambda x: jnp.sum(x, p)),
      'max axes': ((2, 2, 2), [(0, 1), (0, 2), (1, 2)],
                   lambda p: lambda x: jnp.max(x, p)),
      'cumsum': ((3, 3), [(0, False), (1, False), (0, True), (1, True)],
                 lambda p: lambda x: lax.cumsum(x, p[0], p[1])),
      'argmax': ((3, 3), [0, 1],
                 lambda p: lambda x: jnp.argmax(x, p).astype(x.dtype)),
      'transpose': ((2, 2, 2), [(0, 2, 1), (1, 0, 2), (2, 1, 0), (1, 2, 0)],
                    lambda p: lambda x: jnp.transpose(x, p)),
      'integer_pow': ((3,), [2, 3, 4, 5, -2],
                      lambda p: lambda x: lax.integer_pow(x, p)),
      'sort': ((3, 3), [0, 1], lambda p: lambda x: lax.sort(x, dimension=p)),
      'rev': ((2, 2, 2), [(0,), (1,), (2,), (0, 2)],
              lambda p: lambda x: lax.rev(x, p)),
      'broadcast': ((2,), [(0,), (1,)],
                    lambda p: lambda x: lax.broadcast_in_dim(x, (2, 2), p)),
      'dot': ((3, 3), [((0,), (0,)), ((1,), (0,)), ((0,), (1,)), ((1,), (1,))],
              lambda p: lambda x: lax.dot_general(x, x, (p, ((), ())))),
      'batched dot': ((2, 2, 2), [0, 1, 2],
                      lambda p: lambda x: lax.dot_general(
                          x, x, ((((p + 1) % 3,), ((p + 1) % 3,)),
                                 ((p,), (p,))))),
      'concatenate': ((2, 2), [0, 1],
                      lambda p: lambda x: lax.concatenate([x, x], p)),
      'slice': ((4,), [(0, 2, 1), (1, 3, 1), (2, 4, 1), (0, 3, 2)],
                lambda p: lambda x: lax.slice(x, p[:1], p[1:2], p[2:])),
      'pad': ((3,), [(1, 0, 0), (0, 1, 0)],
              lambda p: lambda x: lax.pad(x, jnp.zeros((), x.dtype), [p])),
      'reduce_precision': ((3,), [(5, 10), (8, 7), (5, 7), (5, 9)],
                           lambda p: lambda x: lax.reduce_precision(x, *p)),
      'convert': ((3,), ['float16', 'bfloat16', 'int32'],
                  lambda p: lambda x: lax.convert_element_type(
                      lax.convert_element_type(3.3 * x, p), 'float32')),
      'round': ((3,), [0, 1],
                lambda p: lambda x: lax.round(x * 4., lax.RoundingMethod(p))),
      'squeeze': ((1, 2, 1), [(0,), (2,)],
                  lambda p: lambda x: lax.squeeze(x, p)),
      'reduce_window': ((4,), [(2, 1), (2, 2), (3, 1)],
                        lambda p: lambda x: lax.reduce_window(
                            x, 0., lax.add, (p[0],), (p[1],), 'SAME')),
      'conv': ((1, 1, 4), [(1, 'SAME', 1), (2, 'SAME', 1), (1, 'VALID', 1),
                           (1, 'SAME', 2)],
               lambda p: lambda x: lax.conv_general_dilated(
                   x, x[:, :, :2], (p[0],), p[1], rhs_dilation=(p[2],))),
      'top_k': ((5,), [2, 3], lambda p: lambda x: lax.top_k(x, p)[0]),
      'gather': ((4,), [1, 2, 3], lambda p: lambda x: lax.dynamic_slice(
          x, (1,), (p,))),
      'literal': ((3,), near, const),
      'coarse literal': ((3,), [1.5, -1.5, 1.50001, 1.501], const),
      'exponent': ((3,), [1.5, 1.5000001, 2.5],
                   lambda p: lambda x: jnp.abs(x) ** p),
      'literal order': ((3,), [0, 1],
                        lambda p: lambda x: 2. - x if p else x - 2.),
      'repeated argument': ((3,), [0, 1, 2],
                            lambda p: lambda x: (lambda y: [
                                x / y, y / x, y / y][p])(jnp.exp(x))),
      'jit literal': ((3,), near, lambda p: jax.jit(const(p))),
      'nested literal': ((3,), near, lambda p: jax.jit(
          lambda x: jax.jit(const(p))(x) - x)),
      'jit argument order': ((3,), [0, 1], lambda p: lambda x: jax.jit(
          lambda a, b: b - a if p else a - b)(x, jnp.exp(x))),
      'jit outputs': ((3,), [0, 1], lambda p: lambda x: jax.jit(
          lambda a: (jnp.exp(a), jnp.cos(a))[::2 * p - 1])(x)[0]),
      'custom_jvp literal': ((3,), near, cjvp),
      'scan': ((3,), [(1., False, .5), (1., True, .5), (1., False, .5000001),
                      (1., False, .6)], lambda p: scan(*p)),
      'fori': ((3,), [2, 3], lambda p: lambda x: lax.fori_loop(
          0, p, lambda i, a: a * a - .5, x)),
      'clamp': ((3,), [(-.5, .5), (-.5, .6), (-.4, .5)],
                lambda p: lambda x: lax.clamp(p[0], x, p[1])),
      'parameter names': ((3,), [{}, {'a': 1}, {'b': 1}, {'a': 1, 'b': 0},
                                 {'a': 1, 'b': 1}, {'a': 2}],
                          lambda p: lambda x: _own_primitive().bind(x, **p)),
      'cond': ((3,), [1.5, 1.5000001, 2.5], lambda p: lambda x: lax.cond(
          x[0] > 0, const(p), jnp.exp, x)),
  }


_OWN = []


def _own_primitive():
  """An operation whose parameters may be absent."""
  from jax.extend import core
  from jax.interpreters import mlir
  if not _OWN:
    p = core.Primitive('verif_own_params')
    impl = lambda x, **kw: x * (1. + .01 * sum(
        ord(k[0]) * (v + .5) for k, v in kw.items()))
    p.def_impl(impl)
    mlir.register_lowering(p, mlir.lower_fun(impl, multiple_results=False))
    p.def_abstract_eval(lambda x, **kw: x)
    _OWN.append(p)
  return _OWN[0]


# Families whose occurrences need not be found, because JAX can make distinct
# objects of their parameters.
_MAY_DIFFER = {'cond'}


def case_param(ctx):
  """Operations that differ in a parameter only are not equal."""
  import jax
  import jax.numpy as jnp
  from autobound.jax import jaxpr_editor
  rng = ctx.rng
  fams = _families()
  name = list(fams)[ctx.index % len(fams)]
  shape, params, make = fams[name]
  wrap = int(rng.integers(0, 3))  # 0: as it is, 1: compiled, 2: twice
  def wrapped(f):
    for _ in range(wrap):
      f = jax.jit(lambda x, f=f: f(x))
    return f
  i = int(rng.integers(len(params)))
  mate = [j for j in range(len(params)) if j != i]
  plan = [i if rng.uniform() < .4 else mate[int(rng.integers(len(mate)))]
          for _ in range(int(rng.integers(1, 4)))]
  with jax.enable_x64(name != 'convert'):
    data = [jnp.asarray(rng.uniform(.2, 1.6, shape)) * jnp.asarray(
        rng.choice([-1, 1], shape), dtype=float) for _ in range(4)]
    def program(op):
      def h(*xs):
        outs = []
        for x, j in zip(xs, plan):
          out = op(x) if j == i else wrapped(make(params[j]))(x)
          outs.append(jnp.arctan(out))
        return tuple(outs)
      return h
    f = wrapped(make(params[i]))
    # The replacement has a result of the same shape.
    aval = jax.eval_shape(f, data[0])
    g = lambda x: jnp.tanh(jnp.broadcast_to(jnp.ravel(x)[0], aval.shape)).astype(
        aval.dtype)
    pattern = jax.make_jaxpr(f)(data[0])
    replacement = jax.make_jaxpr(g)(data[0])
    subject = jax.make_jaxpr(program(f))(*data)
    assert not pattern.consts and not replacement.consts, name
    what = (f'{name}: pattern {params[i]}, subject '
            f'{[params[j] for j in plan]}, compiled {wrap} times')
    ctx.describe(what)
    got = ctx.sut(jaxpr_editor.replace, pattern.jaxpr, replacement.jaxpr,
                  subject.jaxpr)
    problem = _ill_formed(got)
    if problem:
      ctx.violation(f'the edited Jaxpr is ill-formed ({problem}): {what}',
                    got=got)
      return
    vals = ctx.sut(jax.core.eval_jaxpr, got, subject.consts, *data)
    wants = program(g)(*data), program(f)(*data)
    ctx.count('parameters', len(vals))
    for j, v, w, u in zip(plan, vals, *wants):
      v, w, u = [np.asarray(a, float) for a in (v, w, u)]
      if name in _MAY_DIFFER and np.array_equal(u, v):
        w = u
      if v.shape != w.shape or not np.allclose(v, w, rtol=1e-12, atol=1e-12):
        ctx.violation(f'the operation with {params[j]} was '
                      f'{"not " if j == i else ""}replaced: {what}', got=got)
        return
    ctx.distinct(what)


def case_dtypes(ctx):
  """Compiled functions that differ in the types of values; constant outputs."""
  import jax
  import jax.numpy as jnp
  from autobound.jax import jaxpr_editor
  rng = ctx.rng
  inner = [lambda y: y * y, lambda y: y + y * y, lambda y: -(y * y),
           lambda y: jnp.sum(y * y, keepdims=True) + y,
           lambda y: jax.jit(lambda z: z * z)(y) - y][ctx.index % 5]
  # Only the compiled function is typed: equal operations on values of other
  # types do match outside of one.
  types = ['float32', 'float64', 'int32', 'int64', 'float16']
  own = types[int(rng.integers(len(types)))]
  plan = [own if rng.uniform() < .4 else types[int(rng.integers(len(types)))]
          for _ in range(int(rng.integers(1, 5)))]
  with jax.enable_x64(True):
    f = jax.jit(inner)
    deep = bool(rng.integers(2))
    if deep:
      f = jax.jit(lambda y, g=f: g(y))
    data = [jnp.asarray(rng.integers(-4, 5, 3), t) for t in plan]
    consts = [np.round(rng.normal(size=int(rng.integers(1, 4))), 3)
              for _ in range(int(rng.integers(0, 3)))]
    g = lambda y: jnp.where(y * 2 - 3 > 0, y + 1, y - 1)
    def program(ops):
      return lambda *xs: tuple(op(x) for op, x in zip(ops, xs)) + tuple(
          jnp.asarray(c) for c in consts)
    pattern = jax.make_jaxpr(f)(jnp.zeros(3, own))
    replacement = jax.make_jaxpr(g)(jnp.zeros(3, own))
    subject = jax.make_jaxpr(program([f] * len(plan)))(*data)
    what = (f'pattern for {own}, subject {plan}, {len(consts)} constant '
            f'outputs, deep={deep}, function {ctx.index % 5}')
    ctx.describe(what)
    got = ctx.sut(jaxpr_editor.replace, pattern.jaxpr, replacement.jaxpr,
                  subject.jaxpr)
    problem = _ill_formed(got)
    if problem:
      ctx.violation(f'the edited Jaxpr is ill-formed ({problem}): {what}',
                    got=got)
      return
    vals = ctx.sut(jax.core.eval_jaxpr, got, subject.consts, *data)
    wants = program([g if t == own else f for t in plan])(*data)
    ctx.count('typed', len(vals))
    for k, (v, w) in enumerate(zip(vals, wants)):
      if v.dtype != w.dtype or not np.array_equal(np.asarray(v), np.asarray(w)):
        ctx.violation(f'output {k} is {v}, not {w}: {what}', got=got)
        return
    ctx.distinct(what)


def case_nullary(ctx):
  """Patterns without inputs."""
  import jax
  import jax.numpy as jnp
  from jax import lax
  from autobound.jax import jaxpr_editor
  rng = ctx.rng
  iota = lambda n: lax.iota(float, n)
  pats = [lambda: iota(3), lambda: iota(3) * 2., lambda: (iota(3), iota(3) + 1.),
          lambda: jnp.cos(iota(3) - .5), lambda: lax.broadcasted_iota(
              float, (3, 2), 0).sum(1)]
  reps = [lambda: jnp.exp(iota(3)), lambda: jnp.cos(jnp.exp(iota(3) * .5) + 1.),
          lambda: iota(3) * iota(3) - 5., lambda: jnp.tanh(iota(3) + 1.) * 2.]
  f = pats[ctx.index % len(pats)]
  two = isinstance(f(), tuple)
  g = reps[int(rng.integers(len(reps)))]
  h = reps[int(rng.integers(len(reps)))]
  new = (lambda: (g(), h() + g())) if two else g
  plan = [int(v) for v in rng.integers(0, 4, int(rng.integers(1, 4)))]
  def program(op):
    def run(x):
      out = x
      for k in plan:
        out = jnp.arctan(out) * 3.
        if k < 2:
          r = op()
          for v in (r if two else (r,)):
            out = out * v + .5
        elif k == 2:
          out = out - lax.iota(float, 4)[1:]
      return out
    return run
  x = jnp.asarray(rng.normal(size=3))
  to = lambda q, *a: jax.make_jaxpr(q)(*a)
  subject = to(program(f), x)
  what = f'{to(f).jaxpr} -> {to(new).jaxpr} in {subject.jaxpr}'
  ctx.describe(what)
  got = ctx.sut(jaxpr_editor.replace, to(f).jaxpr, to(new).jaxpr, subject.jaxpr)
  problem = _ill_formed(got)
  if problem:
    ctx.violation(f'the edited Jaxpr is ill-formed ({problem}): {what}', got=got)
    return
  v = np.asarray(ctx.sut(jax.core.eval_jaxpr, got, subject.consts, x)[0])
  w = np.asarray(program(new)(x))
  ctx.count('values', 3)
  if not np.allclose(v, w, rtol=1e-9, atol=1e-9):
    ctx.violation(f'the value is {v}, not {w}: {what}', got=got)
    return
  ctx.distinct(what)


KINDS = {'replace': (case_replace, 4000, 150000),
         'match': (case_match, 1500, 50000),
         'jaxpr': (case_jaxpr, 336, 8000),
         'roundtrip': (case_roundtrip, 30, 150),
         'trivial': (case_trivial, 48, 600),
         'param': (case_param, 456, 6000),
         'nullary': (case_nullary, 24, 200),
         'dtypes': (case_dtypes, 120, 2500)}
