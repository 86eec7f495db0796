"""Elementwise operations that a user of the library registers.

Each op has an independent numpy / mpmath evaluator, an interval evaluator that
keeps generated programs in their domain, and an enclosure rule written from
bounds on derivatives.  Rules record the (concrete) arguments they are given.
"""
import math

import numpy as np
from lib import mpm
from lib import progen
from lib import truth

CALLS = []  # (name, x0, (lo, hi), degree, np_like)


class Op:

  def __init__(self, name, prim, jax_fn, np_fn, mp_fn, iv, rule):
    self.name, self.prim = name, prim
    self.jax, self.np, self.mp, self.iv, self.rule = (
        jax_fn, np_fn, mp_fn, iv, rule)


def recorded(name, rule):
  def get_enclosure(x0, trust_region, degree, np_like):
    import jax
    if not any(isinstance(v, jax.core.Tracer) for v in (x0,) + trust_region):
      CALLS.append((name, np.asarray(x0), tuple(
          np.asarray(v) for v in trust_region), degree, np_like))
    return rule(x0, trust_region, degree, np_like)
  return get_enclosure


def new_primitive(name, fn):
  """A primitive that computes fn, a function of one jax array."""
  import jax
  import jax.extend as jex
  from jax.interpreters import batching
  from jax.interpreters import mlir
  p = jex.core.Primitive(name)
  p.def_impl(fn)
  p.def_abstract_eval(lambda x: jax.core.ShapedArray(x.shape, x.dtype))
  mlir.register_lowering(p, mlir.lower_fun(fn, multiple_results=False))
  batching.defvectorized(p)
  return p


def derivative_rule(deriv, bound, top=99):
  """A rule from deriv(k, x, np_like) and bound(k) >= |f^(k)| everywhere.

  The range of f^(degree) is bounded by its value at the middle of the region
  and the bound on the next derivative.
  """
  def rule(x0, region, degree, np_like):
    degree = min(degree, top)
    coefs = [deriv(k, x0, np_like) / math.factorial(k) for k in range(degree)]
    mid = (region[0] + region[1]) / 2
    half = np_like.maximum(region[1] - mid, mid - region[0])
    d = deriv(degree, mid, np_like)
    m = bound(degree)
    slack = half * bound(degree + 1) * (1 + 1e-6)
    lo = np_like.maximum(d - slack, -m) / math.factorial(degree)
    hi = np_like.minimum(d + slack, m) / math.factorial(degree)
    coefs.append((lo, hi))
    return tuple(coefs)
  return rule


def _sin_deriv(shift):
  def deriv(k, x, xp):
    k = (k + shift) % 4
    v = xp.sin(x) if k % 2 == 0 else xp.cos(x)
    return v if k < 2 else -v
  return deriv


def _sin_iv(shift):
  def iv(lo, hi):
    # sin over [lo, hi], after a shift of the argument by shift * pi / 2.
    f = (math.sin, math.cos)[shift]
    v = [f(lo), f(hi)]
    a, b = min(v), max(v)
    first = (.5 if shift == 0 else 0.) * math.pi
    for k in range(-60, 61):
      p = first + k * math.pi
      if lo <= p <= hi:
        a, b = (-1., b) if k % 2 else (a, 1.)
    return a, b
  return iv


def _tanh_poly(k):
  """Coefficients in t = tanh(x) of the k-th derivative."""
  p = [0, 1]
  for _ in range(k):
    d = [i * c for i, c in enumerate(p)][1:]
    q = [0] * (len(d) + 2)
    for i, c in enumerate(d):
      q[i] += c
      q[i + 2] -= c
    p = q
  return p


def _tanh_deriv(k, x, xp):
  t = xp.tanh(x)
  r = t * 0
  for c in reversed(_tanh_poly(k)):
    r = r * t + c
  return r


def _tanh_bound(k):
  t = np.linspace(-1, 1, 2001)
  p = _tanh_poly(k)
  return float(np.max(np.abs(np.polynomial.polynomial.polyval(t, p)))) * 1.01 + 1e-3


def _cube_rule(x0, region, degree, np_like):
  cs = [x0 * x0 * x0, 3 * x0 * x0, 3 * x0, np_like.ones_like(x0)]
  if degree >= 3:
    return tuple(cs)
  a, b = region
  if degree == 0:
    last = (a * a * a, b * b * b)
  elif degree == 1:
    m = np_like.maximum(np_like.abs(a), np_like.abs(b))
    last = (np_like.zeros_like(m), 3 * m * m)
  else:
    last = (np_like.minimum(3 * a, 3 * x0), np_like.maximum(3 * b, 3 * x0))
  return tuple(cs[:degree]) + (last,)


def _ramp_rule(x0, region, degree, np_like):
  f = lambda v: np_like.maximum(v, 0. * v)
  a, b = region
  if degree == 0:
    return ((f(a), f(b)),)
  one = np_like.ones_like(x0)
  lo = np_like.where(a >= 0, one, 0 * one)
  hi = np_like.where(b > 0, one, 0 * one)
  return (f(x0), (lo, hi))


def _loose_rule(x0, region, degree, np_like):
  # The identity, with some slack: sound, but not exact at any degree.
  one = np_like.ones_like(x0)
  if degree == 0:
    return ((region[0] - .1, region[1] + .1),)
  return (x0, (.9 * one, 1.1 * one))


def _atan_rule(x0, region, degree, np_like):
  d1 = 1 / (1 + x0 * x0)
  f = np_like.arctan
  one = np_like.ones_like(x0)
  if degree == 0:
    return ((f(region[0]), f(region[1])),)
  if degree == 1:
    return (f(x0), (0 * one, one))
  return (f(x0), d1, (-.3248 * one, .3248 * one))


def _mono(f):
  return lambda lo, hi: (f(lo), f(hi))


def _cube_iv(lo, hi):
  return (lo ** 3, hi ** 3) if max(abs(lo), abs(hi)) < 50 else None


def make():
  """Registers the operations; returns {name: Op}."""
  import jax
  import jax.numpy as jnp
  from autobound.jax import jax_bound
  mp = mpm.mp
  ops = {}

  def add(name, prim, jax_fn, np_fn, mp_fn, iv, rule):
    op = Op(name, prim, jax_fn, np_fn, mp_fn, iv, recorded(name, rule))
    ops[name] = progen.EXTRA[name] = op
    jax_bound.register_elementwise_primitive(prim, op.rule)

  one = lambda k: 1.
  add('sin', jax.lax.sin_p, jnp.sin, np.sin, mp.sin, _sin_iv(0),
      derivative_rule(_sin_deriv(0), one))
  add('cos', jax.lax.cos_p, jnp.cos, np.cos, mp.cos, _sin_iv(1),
      derivative_rule(_sin_deriv(1), one))
  add('tanh', jax.lax.tanh_p, jnp.tanh, np.tanh, mp.tanh, _mono(math.tanh),
      derivative_rule(_tanh_deriv, _tanh_bound))

  def own(name, fn, *args):
    p = new_primitive('verif_' + name, fn)
    add(name, p, p.bind, *args)

  own('ucube', lambda x: x * x * x, lambda x: x * x * x, lambda x: x ** 3,
      _cube_iv, _cube_rule)
  own('uramp', lambda x: jnp.maximum(x, 0. * x), lambda x: np.maximum(x, 0 * x),
      lambda x: max(x, mpm.mpf(0)), _mono(lambda v: max(v, 0.)), _ramp_rule)
  own('uloose', lambda x: x * 1., lambda x: x * 1, lambda x: x,
      _mono(lambda v: v), _loose_rule)
  own('uatan', jnp.arctan, np.arctan, mp.atan, _mono(math.atan), _atan_rule)
  return ops


ALIASES = ('exp', 'log', 'sqrt', 'rsqrt', 'abs', 'sigmoid', 'softplus', 'swish')


def make_aliases():
  """User operations u_exp, ... with the rules of the built-in ones."""
  import jax
  import jax.numpy as jnp
  from autobound import primitive_enclosures as pe
  from autobound.jax import jax_bound
  import functools
  fns = dict(
      exp=jnp.exp, log=jnp.log, sqrt=jnp.sqrt, rsqrt=jax.lax.rsqrt, abs=jnp.abs,
      sigmoid=jax.lax.logistic, softplus=jax.nn.softplus, swish=jax.nn.swish)
  rules = dict(
      exp=pe.exp_enclosure, log=pe.log_enclosure, abs=pe.abs_enclosure,
      sqrt=functools.partial(pe.pow_enclosure, .5),
      rsqrt=functools.partial(pe.pow_enclosure, -.5),
      sigmoid=pe.sigmoid_enclosure, softplus=pe.softplus_enclosure,
      swish=pe.swish_enclosure)
  for n in ALIASES:
    p = new_primitive('verif_alias_' + n, fns[n])
    # Only ever evaluated through JAX.
    progen.EXTRA['u_' + n] = Op('u_' + n, p, p.bind, None, None, None, rules[n])
    jax_bound.register_elementwise_primitive(p, rules[n])
