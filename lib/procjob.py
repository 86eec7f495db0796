"""Bounds a list of programs in a process of its own and prints exact results.

Usage: procjob.py SEED ORDER_SEED N IMPORT_STYLE.  Prints one JSON object
{name: hex digest or text}.
"""
import hashlib
import json
import os
import sys

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
  seed, order, n, style = map(int, sys.argv[1:5])
  sys.path.insert(0, ROOT)
  from lib import runner
  runner.install_loader()
  if style == 1:
    import autobound.jax  # pylint: disable=unused-import
  elif style == 2:
    import autobound.jax.jaxpr_editor  # pylint: disable=unused-import
    import autobound.polynomials  # pylint: disable=unused-import
  from lib import purity
  from lib import tb
  tb.setup_jax()
  jobs = purity.jobs(seed, n)
  names = sorted(jobs)
  np.random.default_rng(order).shuffle(names)
  out = {}
  for name in names:
    out[name] = purity.digest(purity.perform(jobs[name]))
  print(json.dumps(out))


if __name__ == '__main__':
  main()
