"""mpmath (from the installed wheel), with 50 digits."""
import glob
import sys
try:
  import mpmath
except ImportError:
  for _w in sorted(glob.glob('/opt/veriftools/wheels/mpmath-*.whl')) + sorted(
      glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages')):
    sys.path.append(_w)
  import mpmath
mpmath.mp.dps = 50
mp = mpmath.mp
mpf = mpmath.mpf


def sigmoid(x):
  x = mpf(x)
  if x >= 0:
    return 1 / (1 + mp.exp(-x))
  e = mp.exp(x)
  return e / (1 + e)


def softplus(x):
  x = mpf(x)
  return mp.log1p(mp.exp(-abs(x))) + max(x, mpf(0))


def swish(x):
  return mpf(x) * sigmoid(x)
