"""Writes /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
JB='autobound/jax/jax_bound.py'; JE='autobound/jax/jaxpr_editor.py'; GE='autobound/graph_editor.py'
EA='autobound/enclosure_arithmetic.py'; IA='autobound/interval_arithmetic.py'; PO='autobound/polynomials.py'
PE='autobound/primitive_enclosures.py'; EF='autobound/elementwise_functions.py'; TY='autobound/types.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
  a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)
  if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
  P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p('P01','Bounds of a scalar function hold over the whole trust region',
 'For every function of one scalar built from the supported operations, every reference point and trust region such that the function is defined over both and in between, and every requested degree, the lower bound is at most the true value and the upper bound at least the true value at every point of the trust region, up to floating-point roundoff. This holds with and without propagation of trust regions, and for functions that call jit-compiled or differentiated subfunctions.',
 ['inputs','programs','configurations'],
 'All compositions of add, subtract, multiply, divide, negate, integer and real powers, exp, log, sqrt, rsqrt, abs, sigmoid, softplus, swish, nested jit and grad; all x0, regions (zero width, x0 at an end point or outside, straddling extrema, tiny, wide) and degrees 0..5; both propagation modes; float64 and float32.',
 'jax_bound_test compares about 60 fixed coefficient tuples; soundness is universally quantified over programs, points and regions, and none of those tests evaluates a bound at any point.',
 [JB,EA,PE,EF,IA,PO],
 [('taylor_bounds interpreter loop',JB),('composition of elementwise enclosures','TaylorEnclosureArithmetic.compose_enclosures in '+EA),('truncation to the maximum degree','enclose_enclosure in '+EA),('TaylorBounds.lower/upper/__call__',JB)],
 ['TaylorBounds.lower, .upper, __call__ and .coefficients of the returned object'])
p('P02','Bounds of array-valued and vector-argument functions hold elementwise',
 'For every supported function whose argument is a vector, or whose value is an array of any rank, the lower and upper bounds have the shape of the function value and bracket every element of it at every point of the trust region, up to roundoff. This covers reductions, reshapes, transposes, squeezes, broadcasts, matrix products with any contracting and batch dimensions, convolutions and pooling, mixed with elementwise operations.',
 ['inputs','programs','configurations'],
 'All programs over scalar or vector x with intermediate arrays of rank 0..4, linear and bilinear array operations between constants and dependent values, degrees 0..4, both propagation modes, regions with per-component widths including zero.',
 'Tests use a few fixed shapes per operation and compare with hand-computed coefficients; the axis bookkeeping of coefficients (batch axes, then one group of x axes per degree) depends on rank, degree and operand order together.',
 [JB,EA,IA],
 [('pushforward functions for dot_general, convolution and shape operations',JB),('arbitrary_bilinear',EA),('interval bilinear with positive/negative parts','IntervalArithmetic.arbitrary_bilinear in '+IA)],
 ['TaylorBounds.lower, .upper and the shapes of .coefficients'])
p('P03','Coefficients below the final one are the Taylor coefficients at x0',
 'For every supported smooth function, the bounding polynomial has degree at most the requested one, and every coefficient below the requested degree equals, contracted with any direction, the exact Taylor coefficient of the function at the reference point, with lower and upper ends equal. Consequently, for degree at least one, both bounds equal the function value at the reference point, and the final coefficient interval contains the exact Taylor coefficient of that order.',
 ['inputs','programs','configurations'],
 'All supported smooth programs, scalar and vector x, degrees 1..5, both propagation modes, all x0 in the domain.',
 'Tests pin coefficients for single operations at one or two points; products, powers and compositions of enclosures of different lengths are combined by code whose result depends on degree, operand lengths and rank.',
 [JB,EA,PO,EF,PE],
 [('integer_power and arbitrary_bilinear of polynomials',PO),('get_taylor_polynomial_coefficients',EF),('compose_enclosures',EA)],
 ['TaylorBounds.coefficients; TaylorBounds.lower and upper at x0'])
p('P04','Elementwise enclosures are sound, and sharp when the derivative is monotone',
 'For each supported elementwise function, each degree for which an enclosure is offered, and every reference point and trust region in its domain, the enclosure contains the function over the region, and its leading coefficients are the exact Taylor coefficients. When the derivative of that order is monotone over the region (and for the quadratic enclosure of softplus, whose second derivative is even), the final interval is exactly the range of the scaled Taylor remainder over the region; otherwise it lies within the range of that derivative divided by the factorial.',
 ['inputs','configurations'],
 'abs, exp, log, sigmoid, softplus, swish and x**p for integer, fractional, negative and large p; all offered degrees; scalar and array x0 and regions, any magnitude; regions that straddle zero, poles and extrema, have zero width or end at x0; numpy, JAX and 50-digit back ends.',
 'Tests sample 101 points for a handful of (x0, region) pairs; the code picks a formula by comparing the region with tables of extrema and by the sign and parity of exponents, so each boundary between cases is a separate obligation.',
 [PE,EF],
 [('get_elementwise_taylor_enclosure case split',PE),('pow_enclosure sign analysis',PE),('taylor_remainder_ratio',PE),('sharp_quadratic_enclosure_even_symmetric_hessian',PE)],
 ['return values of the *_enclosure functions, evaluated with eval_elementwise_taylor_enclosure'])
p('P05','The function table states true derivatives, extrema, monotonicity and ranges',
 'For each tabulated function and derivative order, the callable equals the true derivative everywhere, without overflow for arguments of large magnitude, and the listed local extrema are exactly the true ones with the right kind. Over every region, the reported monotone-over flags are true statements and are set whenever no extremum lies strictly inside, and the reported range is the exact range.',
 ['inputs','configurations'],
 'All function identifiers and derivative orders offered; x over the whole float range including +-1e308, 0 and extrema +-1 ulp; all regions (scalar or array), and any subset of local extrema inside, in particular the case where only some of several extrema are inside.',
 'Tests check derivatives at a few points and ranges for a dozen intervals; which extrema fall inside the region has 2^4 cases per function, and numerical constants must be right for every x.',
 [EF],
 [('_FUNCTION_DATA table',EF),('monotone_over',EF),('maximum_value / minimum_value / get_range',EF),('get_function derivative formulas',EF)],
 ['get_function, get_function_data, monotone_over, get_range, get_taylor_polynomial_coefficients'])
p('P06','Interval operations contain every pointwise result and are tight where promised',
 'For every pair of operands, each an array or an interval, in any broadcastable shapes, every interval operation (sums of products, for bilinear ones) returns an array or interval of the shape of the pointwise operation that contains the result for every choice of points in the operands, up to roundoff. For sums, differences, negation, products, powers and outer products the result is the smallest such interval (for outer powers of interval vectors, the diagonal of a second-order one is never looser than the elementwise square), and for matrix products, tensor contractions and convolutions it is exact when either operand is not an interval or both have constant sign.',
 ['inputs','configurations'],
 'All intervals (zero width, negative, straddling zero, one-sided), arrays of rank 0..3, Python scalars, contraction axes, batch dimensions, exponents 0..6, bilinear maps (matmul, tensordot, convolution-like, arbitrary tensors); numpy and JAX back ends.',
 'Tests list about a hundred concrete operand pairs; containment is over all points of all intervals and all sign patterns of four end points.',
 [IA],
 [('arbitrary_bilinear',IA),('power and outer_power',IA),('tensordot, outer_product, multiply, add, subtract, negative',IA)],
 ['return values of IntervalArithmetic methods'])
p('P07','Enclosure arithmetic maps enclosures of operands to an enclosure of the result',
 'For all enclosures of two functions over a trust region (with array or interval coefficients anywhere), adding, subtracting, multiplying, dividing, negating, raising to a power, applying a bilinear operation or an elementwise function yields an enclosure of the corresponding pointwise combination, for every member function and every point of the region. The result has at most the maximum degree, keeps the shape invariant of coefficients, and lowering the degree of an enclosure yields one that contains it.',
 ['inputs','configurations'],
 'Enclosures with 1..6 coefficients, operands of different lengths, intervals in non-final positions, scalar or rank-1 trust regions, batch shapes of rank 0..2, maximum degree 0..4, powers 0..5 and negative or fractional where defined, one- and two-sided or zero-width regions.',
 'Tests check fixed small examples, mostly with an interval in the last position only and scalar x; the excess-degree bookkeeping depends on the lengths of both operands and on the maximum degree.',
 [EA,IA,PO],
 [('TaylorEnclosureArithmetic',EA),('enclose_enclosure',EA),('excess degree distribution in arbitrary_bilinear',EA)],
 ['return values of TaylorEnclosureArithmetic methods, enclose_enclosure, expand_multiple_dims, map_over_enclosure'])
p('P08','Polynomial evaluation, products and powers are exact',
 'Evaluating a polynomial, multiplying two polynomials under any bilinear operation (commutative or not), and raising a polynomial to a non-negative integer power give exactly the mathematical result, for every commutative ring of power bases and every polynomial length. With interval coefficients the results contain every member polynomial result, and powers of a single term are exact ranges.',
 ['inputs','configurations'],
 'Lengths 1..7, exponents 0..7, rings of integers, rationals, matrices (non-commutative products), symbolic tuples and intervals; evaluation at points and at intervals, scalar and vector arguments, elementwise and inner-product evaluation.',
 'Tests enumerate a few short float polynomials; identities must hold for all lengths, exponents and rings.',
 [PO],
 [('eval_polynomial and variants',PO),('arbitrary_bilinear',PO),('integer_power via multinomial expansion',PO)],
 ['return values of the polynomials module functions'])
p('P09','Searching and replacing in programs preserves meaning and matches only equals',
 'Replacing a pattern by an equivalent program leaves a well-formed program that computes the same values, for every subject, number of occurrences and use of intermediate values; replacing by an inequivalent one changes exactly the non-overlapping leftmost occurrences. A reported match is a variable mapping under which the pattern equals the subject, a match is reported whenever one exists, and programs that differ in an operation, parameter, literal or captured constant are never matched; converting a program to a graph and back preserves it.',
 ['programs','inputs'],
 'All operation graphs (small alphabets so that overlaps, repeats and shared variables are frequent) and all traced programs built from scalar and array operations, with patterns cut from the subject or not, replacements with any number of intermediate values, multi-output and jit operations, literals and constants.',
 'Tests have one replacement of one operation in a graph and three in programs; occurrences that overlap, share variables, repeat or whose inner values are needed elsewhere are combinatorial.',
 [GE,JE,JB],
 [('graph_editor.match and replace',GE),('jaxpr_editor.replace and conversions',JE),('parameter equivalence',JE)],
 ['return values of graph_editor.match/replace, jaxpr_editor.replace; evaluation of the edited program'])
p('P10','The numpy and JAX back ends give the same answers',
 'Every back-end-generic building block (interval, polynomial, enclosure arithmetic and elementwise enclosures) returns the same values, up to roundoff, the same shapes and the same choice between array and interval under numpy and under JAX, whether operands are Python numbers or arrays. Double-precision operands give double-precision results, single-precision operands give single-precision results under JAX, and the two agree within single-precision accuracy.',
 ['inputs','configurations'],
 'All public building-block functions, random operands of all accepted kinds, float64 and float32, JAX with and without 64-bit mode.',
 'Back-end specific behaviour (weak types, where/power of special values, integer division, negative zero) shows only at particular operand kinds; tests use the same few operands for both.',
 [IA,EA,PO,PE,EF,TY],
 [('NumpyLike back end parameter',TY),('np_like dispatch',IA)],
 ['return values of the same call under both back ends'])
p('P11','Bounds are the same when computed under jit, vmap or traced inputs',
 'Computing bounds inside a jit-compiled function, with the reference point and trust region as traced values, or mapped over a batch of reference points and regions, gives the same coefficients and bound values as computing them eagerly one by one, up to roundoff. Evaluating the resulting bounds at traced or batched points also agrees with eager evaluation.',
 ['inputs','programs','configurations'],
 'All supported programs, scalar and vector x, degrees 0..5, both propagation modes, jit / vmap / jit of vmap, regions whose case (monotone, straddling) differs between batch elements.',
 'No test computes bounds under a transformation of x0 and region; data-dependent Python branches on traced values or on array contents fail or go wrong only then.',
 [JB,PE,EF,EA,IA],
 [('np_like.where instead of Python branches',PE),('bound_fun',JB)],
 ['coefficients returned from jit/vmap and eagerly'])
p('P12','Smaller trust regions and trust-region propagation only tighten bounds',
 'If one trust region contains another with the same reference point, the bounds for the smaller one lie within the bounds for the larger one at every point of the smaller one, and its final interval within the final interval of the larger. Propagating trust regions through the computation never gives wider bounds than not doing so, and leaves the coefficients below the final one unchanged, up to roundoff.',
 ['inputs','programs','configurations'],
 'All supported programs, scalar and vector x, nested chains of regions from zero width up, degrees 0..5, both modes.',
 'Inclusion isotonicity relates pairs of runs; tests look at single runs, and only a few with propagation.',
 [JB,PE,EA,IA],
 [('intersection of trust regions','taylor_bounds in '+JB),('range and sharp enclosures of elementwise functions',PE)],
 ['coefficients and bounds of pairs of runs'])
p('P13','User-registered elementwise operations compose soundly',
 'After a user registers an enclosure rule for an elementwise operation of their own, every program using that operation gets bounds that hold whenever the registered rule is sound, at the precision the rule gives, in both propagation modes and at any nesting and number of uses. The rule is called with the true value at the reference point (at degree zero, with some value the argument takes), a trust region that contains every value the argument takes over the region, the degree and the numeric back end; registering again replaces the rule, and other operations are unaffected.',
 ['inputs','programs','histories'],
 'Registered sin, cos, tanh, cube, piecewise and array-capable operations with derivative-range rules; random programs mixing them with built-in ones; all degrees; sequences of registrations and re-registrations.',
 'Tests contain no registration at all; the contract with a caller-supplied rule is over every argument program and every region.',
 [JB,EA],
 [('register_elementwise_primitive',JB),('get_elementwise_fun',EA)],
 ['arguments the registered rule receives; bounds returned'],
 state=[('table of elementwise rules','maps an operation to its enclosure rule',JB)])
p('P14','Unsupported programs and arguments are rejected, never bounded wrongly',
 'For every program and argument, the library either raises an error or returns bounds that hold: a program that applies an unsupported operation to a value that depends on the input, a degree for which no enclosure is known, a negative degree, or malformed trust regions and coefficients raise, wherever in the program they occur. Operations on constants only are never a reason to reject.',
 ['programs','inputs','configurations'],
 'All programs that mix supported operations with any of about 60 other JAX operations (comparison, selection, control flow, indexing, sorting, rounding, cumulative, custom-derivative, linear algebra), at any depth, inside jit, on constant or dependent values; all degrees including unsupported ones.',
 'No test exercises an unsupported operation except one or two; silent acceptance is only visible by comparing bounds with values for such programs.',
 [JB,EA,EF,PE,IA,PO],
 [('NotImplementedError for unknown primitives',JB),('ValueError on shapes and degrees',JB+', '+EA)],
 ['exception or bounds from taylor_bounds and from building blocks'])
p('P15','Applications built on the bounds keep their guarantees',
 'Minimising the upper bound over a trust region never increases a loss above its value at the reference point, for losses of neural networks along any step direction; integrating lower and upper bounds piecewise brackets the true integral; and a global minimiser that prunes regions by lower bounds never discards the minimiser.',
 ['inputs','programs','histories'],
 'Random multilayer and convolutional networks with supported activations, data, step directions, maximum step sizes and iteration sequences of majorise-minimise steps; random integrands and partitions; random multimodal functions and branch-and-bound histories.',
 'Notebooks show one run each without assertions; guarantees are over every network, step and iteration history.',
 [JB,EA,IA,PE],
 [('taylor_bounds on whole losses',JB),('TaylorBounds evaluation and final interval',JB)],
 ['loss values along iterations, integral brackets, surviving regions'])
p('P16','Bounds are exact for low-degree polynomials and converge as regions shrink',
 'If the function is built from sums, products and powers, and is like each of its subexpressions a polynomial in x of degree at most the requested one, the bounds coincide with it. For smooth functions the width of the final interval goes to zero at least proportionally to the width of the trust region, a zero-width region gives zero-width bounds, and for a single elementwise function with monotone derivative the bounds are attained at the end points of the region.',
 ['inputs','programs','configurations'],
 'All polynomial programs (scalar and vector x, any expression shape) and degrees; all smooth programs with geometric sequences of regions around x0, symmetric, one-sided and empty.',
 'A bound that is sound but needlessly loose passes any soundness test, and tests pin tightness for single operations only.',
 [JB,EA,PE,PO,IA],
 [('sharp enclosures',PE),('no intervals for exact coefficients',EA+', '+PO)],
 ['coefficients and bound widths'])
p('P17','Bounding is deterministic, independent of history and free of side effects',
 'The bounds for a given function, reference point, region and degree do not depend on what was bounded or configured before, on how often the same bounding function was called, on other threads bounding concurrently, or on hash seeds and process; repeated calls give bit-identical results. No call modifies its operands, the function it bounds, or global configuration.',
 ['histories','schedules','inputs'],
 'Random histories of bounding calls with different functions, shapes, degrees, precisions, errors and registrations in between; 2..8 threads with injected yields and delays; separate processes with different hash seeds.',
 'Each test makes one call on fresh data in one thread; caching, shared tables and mutated defaults show only across calls and interleavings.',
 [JB,JE,EA],
 [('per-call state in bound_fun',JB),('global rule and primitive tables',JB)],
 ['bit patterns of coefficients, operand arrays and configuration before and after'],
 state=[('rule tables','global registries of rewrite rules and elementwise rules',JB)])
p('P18','Well-defined inputs give finite, ordered, non-NaN bounds',
 'Whenever the function and its derivatives up to the requested order are finite over the trust region and no intermediate enclosure can reach a singularity, the bounds are finite, free of NaN, and the lower bound does not exceed the upper bound, up to roundoff. This holds for arguments of large or small magnitude, for regions of any width including zero whose powers neither overflow nor underflow, and for exponents and activations whose naive formulas overflow; where information is missing the bounds become infinite or NaN rather than wrong.',
 ['inputs','programs','configurations'],
 'Magnitudes from 1e-300 to 1e300 where defined, widths from 0 and one ulp up, saturated activations, powers at and around zero, poles on or next to the region, both modes, float64 and float32.',
 'Tests use values of order one; a NaN makes every comparison false and so passes unnoticed through naive soundness assertions.',
 [PE,EF,JB,IA],
 [('overflow-safe formulas',EF),('remainder ratio near x0',PE),('infinite end points at poles','pow_enclosure in '+PE)],
 ['coefficients and bound values'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
  for x in P:
    assert len(x['title'])<=80,x['id']
    f.write(json.dumps(x)+'\n')
print(len(P))
