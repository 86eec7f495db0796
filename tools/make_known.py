"""Writes known_findings.json (run by hand; the output is committed)."""
import json, os, subprocess
FIXED = [  # property, start of the commit's subject, what failed
    ('P01', 'bound functions that contain nested jit', 'bounds of functions that call jit-compiled functions did not hold (jit was applied to each coefficient)'),
    ('P05', 'include end points in the extremum', 'range of a function over a region ignored the end points when an extremum was inside, and could not be traced'),
    ('P04', 'treat a trust region that ends at a pole', 'x**-n over a region ending at 0 was bounded by the formula for one sign'),
    ('P04', 'enclose x**p over regions around zero', 'x**p over regions straddling 0 got too narrow an interval where the derivative is not monotone'),
    ('P04', 'zero Taylor coefficients of x**p', 'Taylor coefficients of x**p at x0 == 0 were NaN'),
    ('P02', 'apply shape primitives', 'reductions, transposes, ... of functions of a vector were applied to the wrong axes of the coefficients'),
    ('P02', 'bound dot_general with batch', 'matrix products with batch dimensions of functions of a vector had wrong axis order'),
    ('P04', 'do not cap the denominator', 'enclosures over small regions did not hold because the Taylor remainder was divided by a capped denominator'),
    ('P14', 'reject conversions to integers', 'conversion to an integer type was bounded as if it were linear'),
    ('P09', 'give the variables of a Jaxpr replacement', 'replacing two occurrences of a pattern defined the same variable twice'),
    ('P09', 'keep variables that are needed outside', 'replacing a pattern deleted intermediate values that were used elsewhere'),
    ('P09', 'compare the constants of called', 'sub-Jaxprs that differ in captured constants were matched'),
    ('P14', 'support constant exponents', 'x**1.5 raised an error when trust regions were propagated'),
    ('P14', 'propagate trust regions through operations with constant', 'x**0 raised an error when trust regions were propagated'),
    ('P14', 'accept integers of type float', 'x**2. raised an error'),
    ('P14', 'evaluate constant subexpressions', 'programs with constant subexpressions such as softplus(1.) raised an error'),
    ('P18', 'do not return complex bounds', 'bounds of x**2.5 over a region with negative values were complex numbers'),
    ('P02', 'broadcast coefficients to the shape', 'sums over broadcast operands had wrong derivatives: sum(c + x) with c of shape (2, 2) and x of shape (2,) had half the gradient'),
    ('P04', 'list all local extrema of the higher', 'degree-4 enclosures of swish over regions beyond 4 did not hold, because extrema of its derivatives were missing in the table'),
    ('P09', 'keep the inputs and constants that', 'Jaxpr replacements that return an input or a constant left that output undefined'),
    ('P09', 'accept literals of any kind', 'Jaxpr patterns that contain strongly typed literals raised a TypeError'),
    ('P09', 'do not use a variable before', 'replacing an occurrence that defines one of its own inputs could give an ill-formed program'),
    ('P18', 'do not lose precision in enclosures of degree 0', 'degree-0 enclosures added and subtracted the value at x0, so that next to a pole or in single precision small values were lost: the bounds of 1/x did not hold'),
    ('P14', 'reject conversions to complex', 'complex intermediate values were bounded as if complex numbers were ordered: the bounds of |exp(1j*x) + 1| did not hold'),
    ('P14', 'bound functions of integers', 'bounds at an unsigned or short integer reference point were computed in integer arithmetic, which wraps around: the bounds of log did not hold'),
    ('P01', 'bounds hold over trust regions that do not', 'bounds did not hold on trust regions that do not contain x0: the derivatives between x0 and the region were left out'),
]
EXTRA = os.path.join(os.path.dirname(__file__), 'known_extra.json')
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'],
                     capture_output=True, text=True).stdout.splitlines()
fixed = []
used = set()
for prop, start, what in FIXED:
  hits = [l for l in log if l.split(' ', 1)[1].startswith('fix: ' + start)]
  assert len(hits) == 1, (start, hits)
  used.add(hits[0])
  fixed.append(f'fixed: property={prop} {hits[0].split()[0]} {what}')
for l in log:
  if ' fix: ' in l and l not in used:
    print('not recorded:', l)
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
findings = json.load(open(EXTRA)) if os.path.exists(EXTRA) else []
with open(os.path.join(root, 'known_findings.json'), 'w') as f:
  json.dump({'findings': findings, 'fixed': fixed}, f, indent=1)
  f.write('\n')
