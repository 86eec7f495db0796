"""Checks the oracles against each other (run once, as setup_cmd)."""
import sys

import numpy as np
from lib import mpm
from lib import progen
from lib import series

mp, mpf = mpm.mp, mpm.mpf


def main():
  rng = np.random.default_rng(0)
  n = 0
  for op, f in [('exp', mp.exp), ('log', mp.log), ('sigmoid', mpm.sigmoid),
                ('softplus', mpm.softplus), ('swish', mpm.swish)]:
    for _ in range(3):
      x = mpf(float(rng.uniform(.3, 3)))
      want = mp.taylor(f, x, 5)
      got = getattr(series, op)(series.var(x, 6))
      assert all(abs(a - b) < mpf(10) ** -15 for a, b in zip(want, got)), op
      n += 1
  for p in (-2, 3, .5, -1.7):
    x = mpf('1.3')
    want = mp.taylor(lambda t, p=p: t ** mpf(p), x, 5)
    got = series.power(series.var(x, 6), p)
    assert all(abs(a - b) < mpf(10) ** -15 for a, b in zip(want, got)), p
    n += 1
  for _ in range(30):
    x0, a, b = progen.random_region(rng)
    prog = progen.generate(rng, (a, b), x0, 2)
    v = progen.mp_value(prog, x0)
    f = float(progen.evaluate(prog, np.float64(x0), progen.NpLib))
    s = progen.evaluate(prog, series.var(x0, 3), progen.SeriesLib(3))
    m = float(progen.magnitude(prog, np.float64(x0)))
    assert abs(float(v) - f) <= 1e-10 * m, (prog, x0)
    assert abs(float(s[0]) - f) <= 1e-10 * m, (prog, x0)
    n += 1
  print(f'oracle self-test: {n} comparisons agree')


if __name__ == '__main__':
  sys.exit(main())
