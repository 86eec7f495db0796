"""Truncated power series with array coefficients (numpy longdouble).

Evaluates t -> f(x0 + t v) for the programs of arrprog, giving the exact
directional Taylor coefficients.
"""
import numpy as np
from lib import arrprog


def _mul(a, b, f=lambda u, v: u * v):
  n = len(a)
  return [sum(f(a[j], b[i - j]) for j in range(i + 1)) for i in range(n)]


def _div(a, b):
  c = []
  for i in range(len(a)):
    s = a[i] - sum((c[j] * b[i - j] for j in range(i)), 0)
    c.append(s / b[0])
  return c


def _exp(a):
  c = [np.exp(a[0])]
  for i in range(1, len(a)):
    c.append(sum(k * a[k] * c[i - k] for k in range(1, i + 1)) / i)
  return c


def _log(a):
  c = [np.log(a[0])]
  for i in range(1, len(a)):
    s = sum((k * c[k] * a[i - k] for k in range(1, i)), 0)
    c.append((a[i] - s / i) / a[0])
  return c


def _power(a, p):
  if p == int(p) and p >= 0:
    r = [np.ones_like(a[0])] + [np.zeros_like(v) for v in a[1:]]
    for _ in range(int(p)):
      r = _mul(r, a)
    return r
  if p == int(p):
    one = [np.ones_like(a[0])] + [np.zeros_like(v) for v in a[1:]]
    return _power(_div(one, a), -int(p))
  c = [a[0] ** a[0].dtype.type(p)]
  for i in range(1, len(a)):
    s = sum((p * k - (i - k)) * a[k] * c[i - k] for k in range(1, i + 1))
    c.append(s / (i * a[0]))
  return c


def _sigmoid(a):
  s = [arrprog._np_sigmoid(a[0])]
  for i in range(1, len(a)):
    w = [-v for v in s]
    w[0] = w[0] + 1
    u = [sum(s[j] * w[k - j] for j in range(k + 1)) for k in range(i)]
    s.append(sum(k * a[k] * u[i - k] for k in range(1, i + 1)) / i)
  return s


def _softplus(a):
  s = _sigmoid(a)
  c = [np.log1p(np.exp(-np.abs(a[0]))) + np.maximum(a[0], 0)]
  for i in range(1, len(a)):
    c.append(sum(k * a[k] * s[i - k] for k in range(1, i + 1)) / i)
  return c


def evaluate(prog, x0, v, n, dtype=np.longdouble):
  """Returns (series of length n, largest coefficient magnitude per order)."""
  env = {}
  mag = np.zeros(n)
  x0, v = np.asarray(x0, dtype), np.asarray(v, dtype)
  with np.errstate(all='ignore'):
    for i in prog.live():
      op, args, param = prog.nodes[i]
      if op == 'x':
        r = [x0] + ([v] if n > 1 else []) + [np.zeros_like(x0)] * (n - 2)
      elif op == 'c':
        c = np.asarray(param, dtype)
        r = [c] + [np.zeros_like(c)] * (n - 1)
      else:
        a = [env[j] for j in args]
        if op in arrprog.LINEAR:
          r = [np.asarray(arrprog.apply(arrprog.NumpyImpl, op, [c], param, 0))
               for c in a[0]]
        elif op in ('add', 'sub'):
          r = [arrprog.apply(None_impl, op, [p, q], param, 0)
               for p, q in zip(*a)]
        elif op in arrprog.BILINEAR:
          r = _mul(a[0], a[1], lambda p, q: np.asarray(
              arrprog.apply(arrprog.NumpyImpl, op, [p, q], param, 0)))
        elif op == 'div':
          r = _div(*a)
        elif op == 'neg':
          r = [-c for c in a[0]]
        elif op == 'exp':
          r = _exp(a[0])
        elif op == 'log':
          r = _log(a[0])
        elif op == 'sqrt':
          r = _power(a[0], .5)
        elif op == 'rsqrt':
          r = _power(a[0], -.5)
        elif op in ('ipow', 'pow'):
          r = _power(a[0], param)
        elif op == 'sigmoid':
          r = _sigmoid(a[0])
        elif op == 'softplus':
          r = _softplus(a[0])
        elif op == 'swish':
          r = _mul(a[0], _sigmoid(a[0]))
        else:
          raise ValueError(op)
      env[i] = [np.asarray(c) for c in r]
      m = [np.max(np.abs(c), initial=0.) for c in env[i]]
      mag = np.maximum(mag, np.where(np.isfinite(m), m, 0.).astype(float))
  return env[prog.live()[-1]], mag


_PHI = {
    'exp': _exp, 'log': _log, 'sqrt': lambda a: _power(a, .5),
    'rsqrt': lambda a: _power(a, -.5), 'sigmoid': _sigmoid,
    'softplus': _softplus, 'swish': lambda a: _mul(a, _sigmoid(a)),
}


def majorant(prog, x0, v, n):
  """Sums of absolute values of the terms that make up each coefficient.

  The roundoff error in the i-th coefficient is a small multiple of eps times
  majorant[i] (unless values that are almost 0 are divided by, etc.).
  """
  val, maj = {}, {}
  x0, v = np.asarray(x0, float), np.asarray(v, float)

  def compose(phi, a0, a):
    """sum_k (|phi_k(a0)| + |d/da0 phi_k(a0)| a[0]) (a - a[0])^k"""
    z = np.zeros_like(a0)
    one = [a0, np.ones_like(a0)] + [z] * (n - 1)
    c = [np.abs(k) for k in phi(one)]
    c = [c[k] + (k + 1) * c[k + 1] * a[0] for k in range(n)]
    a = [np.zeros_like(a[0])] + list(a[1:])
    out = [c[0]] + [z] * (n - 1)
    power = [np.ones_like(a0)] + [z] * (n - 1)
    for k in range(1, n):
      power = _mul(power, a)
      out = [o + c[k] * q for o, q in zip(out, power)]
    return out

  with np.errstate(all='ignore'):
    for i in prog.live():
      op, args, param = prog.nodes[i]
      if op == 'x':
        val[i] = x0
        r = [np.abs(x0)] + ([np.abs(v)] if n > 1 else []) + [
            np.zeros_like(x0)] * (n - 2)
      elif op == 'c':
        val[i] = np.asarray(param, float)
        r = [np.abs(val[i])] + [np.zeros_like(val[i])] * (n - 1)
      else:
        a = [maj[j] for j in args]
        b = [val[j] for j in args]
        val[i] = np.asarray(
            arrprog.apply(arrprog.NumpyImpl, op, b, param, 0))
        if op in arrprog.LINEAR:
          r = [np.asarray(arrprog.apply(arrprog.NumpyImpl, op, [c], param, 0))
               for c in a[0]]
        elif op in ('add', 'sub'):
          r = [p + q for p, q in zip(*a)]
        elif op in arrprog.BILINEAR:
          r = _mul(a[0], a[1], lambda p, q: np.asarray(
              arrprog.apply(arrprog.NumpyImpl, op, [p, q], param, 0)))
        elif op == 'div':
          r = _mul(a[0], compose(lambda t: _power(t, -1), b[1], a[1]))
        elif op == 'neg':
          r = a[0]
        elif op in ('ipow', 'pow'):
          if param >= 0 and param == int(param):
            r = _power(a[0], param)
          else:
            r = compose(lambda t: _power(t, param), b[0], a[0])
        else:
          r = compose(_PHI[op], b[0], a[0])
      maj[i] = [np.asarray(c) for c in r]
  return [np.where(np.isfinite(c), c, 0.) for c in maj[prog.live()[-1]]]


class None_impl:  # add and sub need no back end
  xp = np
