"""Random programs on arrays, and an independent numpy evaluator.

A program is a list of nodes (op, args, param); the last node is the value.
Each op is implemented once for a module xp that is numpy or jax.numpy, except
for the ones that have no counterpart in numpy (convolution, pooling), which
are written as loops for numpy.  Interval values (center, radius) keep the
programs in their domain.
"""
import itertools

import numpy as np
from lib import progen
from lib.progen import EXTRA
from lib.progen import _np_sigmoid

UNARY = ('neg', 'exp', 'sigmoid', 'softplus', 'swish', 'log', 'sqrt', 'rsqrt',
         'ipow', 'pow')


def conv_out(n, k, stride, lo, hi, dil):
  return (n + lo + hi - dil * (k - 1) - 1) // stride + 1


def np_conv(lhs, rhs, strides, padding, dilation):
  """NC<spatial> x OI<spatial> -> NO<spatial>, by loops."""
  nd = lhs.ndim - 2
  lhs = np.pad(lhs, [(0, 0), (0, 0)] + list(padding))
  out_sp = tuple((lhs.shape[2 + d] - dilation[d] * (rhs.shape[2 + d] - 1) - 1)
                 // strides[d] + 1 for d in range(nd))
  out = np.zeros((lhs.shape[0], rhs.shape[0]) + out_sp,
                 np.result_type(lhs, rhs))
  for pos in itertools.product(*map(range, out_sp)):
    acc = 0
    for k in itertools.product(*map(range, rhs.shape[2:])):
      idx = tuple(p * s + q * d for p, s, q, d in
                  zip(pos, strides, k, dilation))
      acc = acc + (lhs[(slice(None), slice(None)) + idx][:, None, :] *
                   rhs[(slice(None), slice(None)) + k][None]).sum(-1)
    out[(slice(None), slice(None)) + pos] = acc
  return out


def np_pool(a, window, strides):
  out_sp = tuple((n - w) // s + 1 for n, w, s in zip(a.shape, window, strides))
  out = np.zeros(out_sp, a.dtype)
  for pos in itertools.product(*map(range, out_sp)):
    sl = tuple(slice(p * s, p * s + w)
               for p, s, w in zip(pos, strides, window))
    out[pos] = a[sl].sum()
  return out


class NumpyImpl:
  xp = np

  @staticmethod
  def sigmoid(a, st):
    return _np_sigmoid(a)

  @staticmethod
  def softplus(a, st):
    return np.log1p(np.exp(-np.abs(a))) + np.maximum(a, 0)

  @staticmethod
  def swish(a, st):
    return a * _np_sigmoid(a)

  @staticmethod
  def rsqrt(a):
    return 1 / np.sqrt(a)

  @staticmethod
  def ipow(a, n, st):
    return np.power(a, a.dtype.type(n))

  @staticmethod
  def conv(a, b, p):
    return np_conv(a, b, *p)

  @staticmethod
  def pool(a, window, strides):
    return np_pool(a, window, strides)

  @staticmethod
  def const(v, dtype):
    return np.asarray(v, dtype)


class JaxImpl:

  def __init__(self):
    import jax
    import jax.numpy as jnp
    self.jax = jax
    self.xp = jnp

  def sigmoid(self, a, st):
    return (self.jax.lax.logistic if st % 2 else self.jax.nn.sigmoid)(a)

  def softplus(self, a, st):
    return self.jax.nn.softplus(a)

  def swish(self, a, st):
    return self.jax.nn.swish(a)

  def rsqrt(self, a):
    return self.jax.lax.rsqrt(a)

  def ipow(self, a, n, st):
    return self.jax.lax.integer_pow(a, n) if st % 2 else a ** n

  def conv(self, a, b, p):
    strides, padding, dilation = p
    return self.jax.lax.conv_general_dilated(
        a, b, strides, padding, rhs_dilation=dilation)

  def pool(self, a, window, strides):
    if window[0] == 1 and strides[0] == 1 and a.ndim == 4 and False:
      pass
    return self.jax.lax.reduce_window(
        a, 0., self.jax.lax.add, window, strides, 'VALID')

  def const(self, v, dtype):
    return v


def apply(impl, op, args, param, st, dtype=np.float64):
  xp = impl.xp
  a = args[0] if args else None
  if op in EXTRA:
    return (EXTRA[op].np if xp is np else EXTRA[op].jax)(a)
  if op == 'add':
    return a + args[1]
  if op == 'sub':
    return a - args[1]
  if op == 'mul':
    return a * args[1]
  if op == 'div':
    return a / args[1]
  if op == 'neg':
    return -a
  if op == 'exp':
    return xp.exp(a)
  if op == 'log':
    return xp.log(a)
  if op == 'sqrt':
    return xp.sqrt(a)
  if op == 'rsqrt':
    return impl.rsqrt(a)
  if op in ('sigmoid', 'softplus', 'swish'):
    return getattr(impl, op)(a, st)
  if op == 'ipow':
    return impl.ipow(a, param, st)
  if op == 'pow':
    return a ** param
  if op == 'sum':
    axis, keep = param
    return xp.sum(a, axis=axis, keepdims=keep)
  if op == 'mean':
    axis, keep = param
    return xp.mean(a, axis=axis, keepdims=keep)
  if op == 'reshape':
    return xp.reshape(a, param)
  if op == 'transpose':
    return xp.transpose(a, param)
  if op == 'squeeze':
    return xp.squeeze(a, param)
  if op == 'expand':
    return xp.expand_dims(a, param)
  if op == 'broadcast':
    return xp.broadcast_to(a, param)
  if op == 'einsum':
    return xp.einsum(param, a, args[1])
  if op == 'matmul':
    return xp.matmul(a, args[1])
  if op == 'conv':
    return impl.conv(a, args[1], param)
  if op == 'pool':
    return impl.pool(a, *param)
  raise ValueError(op)


class ArrProg:

  def __init__(self, nodes, style, consts):
    self.nodes, self.style, self.consts = nodes, style, consts

  def ops(self):
    return [n[0] for n in self.nodes]

  def key(self):
    return repr([(o, a, p) for o, a, p in self.nodes])

  def __repr__(self):
    s = []
    for i, (op, args, param) in enumerate(self.nodes):
      if op == 'x':
        s.append('x')
      elif op == 'c':
        s.append(f'c{i}{np.asarray(param).tolist()}'.replace(' ', '')[:60])
      else:
        p = '' if param is None else f', {param}'
        s.append(f'{op}({", ".join(s[j] for j in args)}{p})')
      s[-1] = s[-1][:500]
    return s[-1]

  def live(self):
    live = {len(self.nodes) - 1}
    for i in range(len(self.nodes) - 1, -1, -1):
      if i in live:
        live.update(self.nodes[i][1])
    return sorted(live)

  def to_jax(self, jit_mode=0):
    impl = JaxImpl()
    live = self.live()
    def step(i, env):
      op, args, param = self.nodes[i]
      if op == 'x':
        raise AssertionError
      if op == 'c':
        v = np.asarray(param)
        env[i] = float(v) if v.ndim == 0 and self.style[i] % 2 else (
            impl.xp.asarray(v, dtype=dtype[0]))
        return
      vals = [env[j] for j in args]
      st = self.style[i]
      if jit_mode == 1 and st % 4 == 0:
        env[i] = impl.jax.jit(
            lambda *v, op=op, param=param, st=st: apply(
                impl, op, v, param, st // 4))(*vals)
      else:
        env[i] = apply(impl, op, vals, param, st // 4)
    dtype = [None]
    def f(x):
      env = {i: impl.xp.asarray(x) for i in live if self.nodes[i][0] == 'x'}
      dtype[0] = env[0].dtype if 0 in env else None
      rest = [i for i in live if i not in env]
      if jit_mode == 3:
        env = progen.run_segments(rest, step, self.style, env)
      else:
        for i in rest:
          step(i, env)
      return env[live[-1]]
    return impl.jax.jit(f) if jit_mode == 2 else f

  def evaluate(self, x, dtype=np.float64, env=None):
    """Returns (value, largest magnitude of an intermediate value)."""
    env = {} if env is None else env
    m = 0.
    for i in self.live():
      op, args, param = self.nodes[i]
      if op == 'x':
        env[i] = np.asarray(x, dtype)
      elif op == 'c':
        env[i] = np.asarray(param, dtype)
      else:
        env[i] = np.asarray(apply(NumpyImpl, op, [env[j] for j in args], param,
                                  0))
      if env[i].size:
        m = max(m, float(np.max(np.abs(env[i]))))
    return env[i], m


LINEAR = ('sum', 'mean', 'reshape', 'transpose', 'squeeze', 'expand',
          'broadcast', 'pool')
BILINEAR = ('einsum', 'matmul', 'conv', 'mul')


def iv_apply(op, args, param):
  """Interval (lo, hi) arrays of an op, or None if it may leave its domain."""
  if op in LINEAR:
    return tuple(np.asarray(apply(NumpyImpl, op, [e], param, 0))
                 for e in args[0])
  if op == 'add':
    return args[0][0] + args[1][0], args[0][1] + args[1][1]
  if op == 'sub':
    return args[0][0] - args[1][1], args[0][1] - args[1][0]
  if op in BILINEAR:
    (cl, rl), (cr, rr) = [((a + b) / 2, (b - a) / 2) for a, b in args]
    f = lambda u, v: np.asarray(apply(NumpyImpl, op, [u, v], param, 0))
    c = f(cl, cr)
    r = f(np.abs(cl), rr) + f(rl, np.abs(cr)) + f(rl, rr)
    return c - r, c + r
  lo, hi = args[0]
  if op in EXTRA:
    l, h = np.zeros_like(lo), np.zeros_like(hi)
    for i in np.ndindex(lo.shape):
      r = EXTRA[op].iv(float(lo[i]), float(hi[i]))
      if r is None:
        return None
      l[i], h[i] = r
    return l, h
  if op == 'div':
    bl, bh = args[1]
    if np.any((bl <= .05) & (bh >= -.05)):
      return None
    p = np.stack(np.broadcast_arrays(lo / bl, lo / bh, hi / bl, hi / bh))
    return p.min(0), p.max(0)
  if op == 'neg':
    return -hi, -lo
  if op in ('log', 'sqrt', 'rsqrt', 'pow') or (op == 'ipow' and param < 0):
    if np.any(lo <= .05) and not (op == 'ipow' and np.all(hi < -.05)):
      return None
  if op == 'exp' and np.any(hi > 12):
    return None
  e = [np.asarray(apply(NumpyImpl, op, [v], param, 0)) for v in (lo, hi)]
  l, h = np.minimum(*e), np.maximum(*e)
  if op == 'ipow' and param > 0 and param % 2 == 0:
    l = np.where((lo < 0) & (hi > 0), 0., l)
  if op == 'swish':
    l = np.minimum(l, -.2785)
  return l, h


EINSUMS_2_2 = ('ij,jk->ik', 'ij,kj->ik', 'ji,jk->ik', 'ij,ij->ij', 'ij,ij->i',
               'ij,ij->', 'ij,ik->ijk', 'ij,kj->ki')
EINSUMS = {
    (1, 1): ('i,i->', 'i,j->ij', 'i,i->i', 'i,j->ji'),
    (2, 1): ('ij,j->i', 'ji,j->i', 'ij,i->ij', 'ij,k->ijk'),
    (1, 2): ('j,ij->i', 'j,ji->i', 'i,ij->ij', 'k,ij->ijk'),
    (2, 2): EINSUMS_2_2,
    (3, 3): ('bij,bjk->bik', 'bij,bkj->bik', 'bij,bij->b', 'bij,bjk->ibk',
             'ibj,bjk->ibk', 'bij,bij->', 'ijb,jkb->bik', 'bij,bik->bjk'),
    (3, 2): ('bij,jk->bik', 'bij,bj->bi', 'bij,ij->b', 'bij,bi->bj'),
    (2, 3): ('jk,bkl->bjl', 'bj,bjk->bk', 'ij,bij->b', 'bk,bjk->bj'),
    (3, 1): ('bij,j->bi', 'bij,b->ij', 'bij,i->bj'),
    (1, 3): ('j,bij->bi', 'b,bij->ij'),
}


def _einsum_ok(spec, sa, sb, limit):
  ins, out = spec.split('->')
  a, b = ins.split(',')
  size = {}
  for names, shape in ((a, sa), (b, sb)):
    for n, s in zip(names, shape):
      if size.setdefault(n, s) != s:
        return None
  shape = tuple(size[c] for c in out)
  return shape if np.prod(shape, dtype=int) <= limit else None


class Generator:

  def __init__(self, rng, x_lo, x_hi, dims=(1, 2, 3), max_rank=3, limit=12,
               conv=True, elementwise=UNARY, magnitude=100., max_degree=99):
    self.rng = rng
    self.dims, self.max_rank, self.limit = dims, max_rank, limit
    self.magnitude = magnitude
    self.nodes = [('x', (), None)]
    self.style = [0]
    self.iv = [(np.asarray(x_lo, float), np.asarray(x_hi, float))]
    self.dep = [True]
    self.conv = conv
    caps = {'sigmoid': 4, 'softplus': 5, 'swish': 4}
    self.elementwise = [o for o in elementwise if caps.get(o, 99) >= max_degree]

  def shape(self, i):
    return self.iv[i][0].shape

  def add(self, op, args=(), param=None):
    if op == 'c':
      v = np.asarray(param, float)
      iv = (v, v)
    else:
      with np.errstate(all='ignore'):
        iv = iv_apply(op, [self.iv[i] for i in args], param)
      if iv is None:
        return None
    if not (np.all(np.isfinite(iv[0])) and np.all(np.isfinite(iv[1])) and
            max(np.max(np.abs(iv[0]), initial=0.),
                np.max(np.abs(iv[1]), initial=0.)) <= self.magnitude):
      return None
    if iv[0].size > self.limit or iv[0].ndim > 4:
      return None
    self.nodes.append((op, tuple(args), param))
    self.style.append(int(self.rng.integers(1000)))
    self.iv.append((np.asarray(iv[0]), np.asarray(iv[1])))
    self.dep.append(op == 'x' or any(self.dep[a] for a in args))
    return len(self.nodes) - 1

  def const(self, shape):
    r = self.rng.uniform()
    if r < .1:
      v = np.ones(shape)
    elif r < .2:
      v = self.rng.integers(-2, 3, size=shape).astype(float)
    else:
      v = np.round(self.rng.normal(size=shape), 2)
    return self.add('c', (), v)

  def pick(self):
    k = len(self.nodes)
    if self.rng.uniform() < .75:
      for i in range(k - 1, -1, -1):
        if self.dep[i]:
          return i
    return int(self.rng.integers(0, k))

  def step(self):
    rng = self.rng
    i = self.pick()
    s = self.shape(i)
    nd = len(s)
    kinds = ['unary', 'unary', 'binary', 'binary', 'einsum', 'einsum', 'shape',
             'reduce']
    if self.conv:
      kinds += ['conv', 'pool']
    else:
      kinds += ['pool']
    kind = str(rng.choice(kinds))
    if kind == 'unary':
      op = str(rng.choice(self.elementwise))
      param = None
      if op == 'ipow':
        param = int(rng.choice([-2, -1, 0, 2, 2, 3]))
      elif op == 'pow':
        param = progen.real_exponent(rng, (.5, 1.5, -1.5, 2.5))
      return self.add(op, (i,), param)
    if kind == 'binary':
      op = str(rng.choice(['add', 'sub', 'mul', 'mul', 'div']))
      r = rng.uniform()
      if r < .2:
        j = self.const(())
      elif r < .5 or len(self.nodes) < 2:
        shape = tuple(1 if rng.uniform() < .3 else n for n in s)
        shape = shape[int(rng.integers(0, nd + 1)):] if rng.uniform() < .3 \
            else shape
        j = self.const(shape)
      else:
        cands = []
        for k in range(len(self.nodes)):
          try:
            sh = np.broadcast_shapes(s, self.shape(k))
          except ValueError:
            continue
          if np.prod(sh, dtype=int) <= self.limit:
            cands.append(k)
        j = int(rng.choice(cands))
      if j is None:
        return None
      args = (i, j) if rng.uniform() < .6 else (j, i)
      return self.add(op, args)
    if kind == 'einsum':
      others = [k for k in range(len(self.nodes)) if 1 <= len(self.shape(k)) <= 3]
      if rng.uniform() < .6 or not others:
        r = int(rng.integers(1, self.max_rank + 1))
        dims = list(s) if s and rng.uniform() < .8 else list(self.dims)
        j = self.const(tuple(int(rng.choice(dims)) for _ in range(r)))
      else:
        j = int(rng.choice(others))
      if j is None:
        return None
      args = (i, j) if rng.uniform() < .6 else (j, i)
      sa, sb = self.shape(args[0]), self.shape(args[1])
      specs = list(EINSUMS.get((len(sa), len(sb)), ()))
      rng.shuffle(specs)
      for spec in specs:
        if _einsum_ok(spec, sa, sb, self.limit) is not None:
          if spec.endswith('bik') and spec.startswith('bij,bjk') and (
              rng.uniform() < .5):
            return self.add('matmul', args)
          return self.add('einsum', args, str(spec))
      return None
    if kind == 'shape':
      r = int(rng.integers(0, 5))
      if r == 0 and nd > 0:
        n = int(np.prod(s, dtype=int))
        shapes = [t for k in range(1, self.max_rank + 1)
                  for t in itertools.product(range(1, n + 1), repeat=k)
                  if np.prod(t, dtype=int) == n]
        return self.add('reshape', (i,),
                        tuple(int(v) for v in shapes[rng.integers(len(shapes))]))
      if r == 1 and nd >= 2:
        return self.add('transpose', (i,),
                        tuple(int(v) for v in rng.permutation(nd)))
      if r == 2 and 1 in s:
        ax = [k for k in range(nd) if s[k] == 1]
        return self.add('squeeze', (i,), int(rng.choice(ax)))
      if r == 3 and nd < self.max_rank:
        return self.add('expand', (i,), int(rng.integers(0, nd + 1)))
      if nd < self.max_rank and rng.uniform() < .7:
        return self.add('broadcast', (i,), (int(rng.choice(self.dims)),) + s)
      if 1 in s:
        d = int(rng.choice(self.dims))
        return self.add('broadcast', (i,),
                        tuple(d if v == 1 else v for v in s))
      return None
    if kind == 'reduce' and nd > 0:
      k = int(rng.integers(1, nd + 1))
      axis = tuple(sorted(int(v) for v in rng.permutation(nd)[:k]))
      return self.add(str(rng.choice(['sum', 'sum', 'mean'])), (i,),
                      (axis, bool(rng.integers(2))))
    if kind == 'pool' and nd > 0 and max(s) > 1:
      window = tuple(int(rng.integers(1, n + 1)) for n in s)
      strides = tuple(int(rng.integers(1, 3)) for _ in s)
      return self.add('pool', (i,), (window, strides))
    if kind == 'conv':
      # Bring the operand into the form NC<spatial>.
      if nd == 0:
        j = self.const((1, 1, 3))
        if j is None:
          return None
        i = self.add('mul', (i, j))
      elif nd in (1, 2):
        n = int(np.prod(s, dtype=int))
        c = 2 if n % 2 == 0 and n > 2 else 1
        i = self.add('reshape', (i,), (1, c, n // c))
      if i is None:
        return None
      s = self.shape(i)
      sp = len(s) - 2
      out = int(rng.integers(1, 3))
      if rng.uniform() < .25 and all(len(self.shape(j)) != len(s) for j in ()):
        same = [k for k in range(len(self.nodes))
                if len(self.shape(k)) == len(s) and
                self.shape(k)[1] == s[1]]
      else:
        same = []
      if same:
        j = int(rng.choice(same))
      else:
        j = self.const((out, s[1]) + tuple(
            int(rng.integers(1, min(n, 3) + 1)) for n in s[2:]))
      if j is None:
        return None
      k = self.shape(j)[2:]
      strides = tuple(int(rng.integers(1, 3)) for _ in range(sp))
      padding = tuple((int(rng.integers(0, 2)), int(rng.integers(0, 2)))
                      for _ in range(sp))
      dil = tuple(int(rng.integers(1, 3)) for _ in range(sp))
      if any(conv_out(n, kk, st, lo, hi, d) < 1 for n, kk, st, (lo, hi), d in
             zip(s[2:], k, strides, padding, dil)):
        return None
      return self.add('conv', (i, j), (strides, padding, dil))
    return None

  def build(self, n_ops):
    made = tries = 0
    while made < n_ops and tries < 80:
      tries += 1
      made += self.step() is not None
    last = max(i for i in range(len(self.nodes)) if self.dep[i])
    nodes, style = self.nodes[:last + 1], self.style[:last + 1]
    if last == 0:
      nodes.append(('neg', (0,), None))
      style.append(0)
    return ArrProg(nodes, style, None)
