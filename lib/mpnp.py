"""A NumPy-like back end with 120 digits: numpy over object arrays of Hp."""
import types

import numpy as np
from lib import mpm

mp, mpf = mpm.mp, mpm.mpf
DIGITS = 120


def setup():
  mp.dps = DIGITS


def _v(x):
  return x.v if isinstance(x, Hp) else mpf(float(x)) if isinstance(
      x, (float, np.floating)) else mpf(int(x)) if isinstance(
          x, (int, np.integer, np.bool_)) else mpf(x)


_TYPES = (int, float, np.floating, np.integer, np.bool_, mpm.mpf)


class Hp:
  """A high-precision real with the conventions of IEEE arithmetic."""
  __slots__ = ('v',)

  def __init__(self, v):
    self.v = _v(v)

  def _bin(self, o, f, swap=False):
    if not isinstance(o, (Hp,) + _TYPES):
      return NotImplemented
    a, b = self.v, _v(o)
    return Hp(f(b, a) if swap else f(a, b))

  def __add__(self, o): return self._bin(o, lambda a, b: a + b)
  def __radd__(self, o): return self._bin(o, lambda a, b: a + b)
  def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
  def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
  def __mul__(self, o): return self._bin(o, _mul)
  def __rmul__(self, o): return self._bin(o, _mul)
  def __truediv__(self, o): return self._bin(o, _div)
  def __rtruediv__(self, o): return self._bin(o, _div, True)
  def __pow__(self, o): return self._bin(o, _pow)
  def __rpow__(self, o): return self._bin(o, _pow, True)
  def __neg__(self): return Hp(-self.v)
  def __pos__(self): return self
  def __abs__(self): return Hp(abs(self.v))
  def __float__(self): return float(self.v)
  def __int__(self): return int(self.v)
  def __bool__(self): return bool(self.v != 0)
  def __hash__(self): return hash(self.v)
  def __repr__(self): return f'Hp({mp.nstr(self.v, 20)})'

  def _cmp(self, o, f):
    if not isinstance(o, (Hp,) + _TYPES):
      return NotImplemented
    return bool(f(self.v, _v(o)))

  def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
  def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
  def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
  def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
  def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
  def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

  def exp(self): return Hp(mp.exp(self.v))
  def expm1(self): return Hp(mp.expm1(self.v))
  def log(self): return Hp(_log(self.v))
  def log1p(self): return Hp(_log(1 + self.v))
  def sqrt(self): return Hp(mp.sqrt(self.v) if self.v >= 0 else mp.nan)
  def tanh(self): return Hp(mp.tanh(self.v))
  def sin(self): return Hp(mp.sin(self.v))
  def cos(self): return Hp(mp.cos(self.v))
  def cbrt(self): return Hp(_pow(self.v, mpf(1) / 3))
  def square(self): return Hp(self.v * self.v)
  def sign(self): return Hp(mp.sign(self.v))
  def conjugate(self): return self
  def isnan(self): return bool(mp.isnan(self.v))
  def isfinite(self): return bool(mp.isfinite(self.v))


def _mul(a, b):
  if (mp.isinf(a) and b == 0) or (mp.isinf(b) and a == 0):
    return mp.nan
  return a * b


def _div(a, b):
  if b == 0:
    return mp.nan if a == 0 or mp.isnan(a) else mp.inf * mp.sign(a)
  if mp.isinf(a) and mp.isinf(b):
    return mp.nan
  return a / b


def _log(a):
  return mp.log(a) if a > 0 else (-mp.inf if a == 0 else mp.nan)


def _pow(a, p):
  if p == int(p) if mp.isfinite(p) else False:
    n = int(p)
    if n >= 0:
      return a ** n
    return mp.inf if a == 0 else a ** n
  if a < 0 or mp.isnan(a):
    return mp.nan
  if a == 0:
    return mpf(0) if p > 0 else mp.inf
  return a ** p


_VEC = np.vectorize(Hp, otypes=[object])


def array(x):
  """Object array from floats (or mpf, Hp)."""
  a = np.asarray(x, dtype=object)
  return np.asarray(_VEC(a), dtype=object)


class _Np:
  """numpy, except for what it cannot do with objects."""

  def __getattr__(self, name):
    return getattr(np, name)

  @staticmethod
  def finfo(dtype):
    if np.dtype(dtype) == object:
      eps = Hp(mpf(10) ** (2 - DIGITS))
      return types.SimpleNamespace(
          eps=eps, max=Hp(mp.inf), min=Hp(-mp.inf), tiny=Hp(0),
          smallest_normal=Hp(0), resolution=eps)
    return np.finfo(dtype)

  @staticmethod
  def isnan(x):
    return np.asarray(x != x, bool)

  @staticmethod
  def isinf(x):
    return np.asarray(abs(x) == np.inf, bool)

  @staticmethod
  def isfinite(x):
    return np.asarray((x == x) & (abs(x) != np.inf), bool)

  @staticmethod
  def sign(x):
    return np.where(x > 0, 1., np.where(x < 0, -1., 0.))

  @staticmethod
  def maximum(a, b):
    return np.where(isnan(a) | isnan(b), np.nan, np.maximum(a, b))

  @staticmethod
  def minimum(a, b):
    return np.where(isnan(a) | isnan(b), np.nan, np.minimum(a, b))


def isnan(x):
  x = np.asarray(x)
  return np.asarray(x != x, bool)


hp_np = _Np()
