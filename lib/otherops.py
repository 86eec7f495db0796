"""JAX operations that the library does not (necessarily) support.

table() returns {name: (function of one float array, smallest rank)}.  Every
function is defined for all real arguments with |x| <= 50 (through a squashing
of its argument if need be), and returns a float array.
"""


def table():
  import jax
  import jax.numpy as jnp
  lax = jax.lax
  f = lambda v: jnp.asarray(v, dtype=float)  # to the default float type
  sq = lambda v: v / (1 + v * v)             # into [-.5, .5]
  t = {}

  def add(name, fn, rank=0):
    t[name] = (fn, rank)

  # Comparison and selection.
  add('maximum', lambda v: jnp.maximum(v, .3))
  add('minimum', lambda v: jnp.minimum(v, -.2))
  add('maximum_self', lambda v: jnp.maximum(v, 1 - v))
  add('where', lambda v: jnp.where(v > .1, v, -2 * v))
  add('where_const', lambda v: jnp.where(v > .1, 1., 2.))
  add('where_const_cond', lambda v: jnp.where(
      jnp.arange(v.size).reshape(v.shape) % 2 == 0, v, -v))
  add('select_n', lambda v: lax.select(v < 0, v, 3 * v))
  add('clip', lambda v: jnp.clip(v, -.5, .5))
  add('lax_clamp', lambda v: lax.clamp(-.4, v, .6))
  add('gt_as_float', lambda v: (v > 0).astype(v.dtype))
  add('eq_as_float', lambda v: (v == 0).astype(v.dtype))
  add('logical', lambda v: jnp.logical_and(v > -1, v < 1).astype(v.dtype))
  add('heaviside', lambda v: jnp.heaviside(v, .5))
  # Rounding and bits.
  for n in ('sign', 'floor', 'ceil', 'round', 'trunc', 'fix'):
    if hasattr(jnp, n):
      add(n, getattr(jnp, n))
  add('to_int', lambda v: (3 * v).astype(int).astype(v.dtype))
  add('to_bool', lambda v: v.astype(bool).astype(v.dtype))
  add('to_float16', lambda v: v.astype(jnp.bfloat16).astype(v.dtype))
  add('reduce_precision', lambda v: lax.reduce_precision(v, 5, 3))
  add('nextafter', lambda v: jnp.nextafter(v, 10.))
  add('mod', lambda v: jnp.mod(v, .7))
  add('rem', lambda v: lax.rem(v, jnp.full_like(v, .7)))
  add('nan_to_num', jnp.nan_to_num)
  add('is_finite', lambda v: jnp.isfinite(v).astype(v.dtype))
  # Activations.
  for n in ('relu', 'relu6', 'leaky_relu', 'elu', 'selu', 'celu', 'gelu',
            'hard_tanh', 'hard_sigmoid', 'hard_silu', 'soft_sign', 'log_sigmoid',
            'mish', 'squareplus'):
    if hasattr(jax.nn, n):
      add(n, getattr(jax.nn, n))
  add('softmax', lambda v: jax.nn.softmax(v, axis=-1), 1)
  add('log_softmax', lambda v: jax.nn.log_softmax(v, axis=-1), 1)
  add('logsumexp', lambda v: jax.nn.logsumexp(v, axis=-1), 1)
  add('logaddexp', lambda v: jnp.logaddexp(v, .5))
  # Transcendental.
  for n in ('sin', 'cos', 'sinh', 'cosh', 'tanh', 'arctan', 'arcsinh', 'expm1',
            'exp2', 'sinc', 'square', 'cbrt', 'deg2rad', 'positive'):
    add(n, (lambda g: lambda v: g(v))(getattr(jnp, n)))
  for n in ('tan', 'arcsin', 'arccos', 'arctanh', 'log1p'):
    add(n, (lambda g: lambda v: g(sq(v)))(getattr(jnp, n)))
  add('arccosh', lambda v: jnp.arccosh(1.5 + sq(v)))
  add('atan2', lambda v: jnp.arctan2(v, 2.))
  add('hypot', lambda v: jnp.hypot(v, 1.))
  add('erf', jax.scipy.special.erf)
  add('erfc', jax.scipy.special.erfc)
  add('erf_inv', lambda v: jax.scipy.special.erfinv(sq(v)))
  add('gammaln', lambda v: jax.scipy.special.gammaln(1 + v * v))
  add('digamma', lambda v: jax.scipy.special.digamma(1 + v * v))
  add('norm_cdf', jax.scipy.stats.norm.cdf)
  add('pow_dependent_exponent', lambda v: jnp.power(2., v))
  # Exponents that differ between elements.
  pos = lambda v: 1.5 + sq(v)
  ramp = lambda v, lo, hi: jnp.linspace(lo, hi, v.size).reshape(v.shape)
  add('pow_array', lambda v: jnp.stack([pos(v)] * 3, -1) ** jnp.array(
      [2.5, .5, -1.]))
  add('pow_two_exponents', lambda v: jnp.sum(jnp.power(
      pos(v), jnp.array([1.5, 3.]).reshape((2,) + (1,) * v.ndim)), 0))
  add('pow_equal_exponents', lambda v: jnp.sum(jnp.power(
      pos(v), jnp.full((2,) + (1,) * v.ndim, 1.5)), 0))
  add('pow_one_exponent', lambda v: jnp.power(
      pos(v), jnp.full((1,) * v.ndim, 2.5)))
  add('pow_ramp', lambda v: jnp.power(pos(v), ramp(v, .5, 2.5)), 1)
  add('pow_int_array', lambda v: jnp.power(
      v, jnp.arange(1, 3).reshape((2,) + (1,) * v.ndim)).sum(0))
  add('pow_integral_floats', lambda v: jnp.power(
      v, jnp.array([2., 3.]).reshape((2,) + (1,) * v.ndim)).sum(0))
  add('pow_both', lambda v: jnp.power(1.5 + sq(v), v))
  add('pow_self', lambda v: (1 + v * v) ** v)
  # Reductions and cumulative operations.
  add('reduce_max', lambda v: jnp.max(v, axis=-1), 1)
  add('reduce_min', lambda v: jnp.min(v, axis=0), 1)
  add('reduce_prod', lambda v: jnp.prod(v, axis=-1), 1)
  add('argmax', lambda v: f(jnp.argmax(v, axis=-1)), 1)
  add('median', lambda v: jnp.median(v), 1)
  add('var', lambda v: jnp.var(v), 1)
  add('std', lambda v: jnp.sqrt(jnp.var(v) + 1), 1)
  add('norm', lambda v: jnp.linalg.norm(v + 3), 1)
  add('cumsum', lambda v: jnp.cumsum(v, axis=-1), 1)
  add('cumprod', lambda v: jnp.cumprod(v, axis=-1), 1)
  add('cummax', lambda v: lax.cummax(v), 1)
  add('cumlogsumexp', lambda v: lax.cumlogsumexp(v), 1)
  add('sort', lambda v: jnp.sort(v, axis=-1), 1)
  add('argsort', lambda v: f(jnp.argsort(v, axis=-1)), 1)
  add('top_k', lambda v: lax.top_k(v, 1)[0], 1)
  add('ptp', lambda v: jnp.ptp(v), 1)
  add('lax_reduce', lambda v: lax.reduce(v, 0., lambda p, q: p + q * 2, (0,)), 1)
  add('max_pool', lambda v: lax.reduce_window(
      v, -1e9, lax.max, (1,) * v.ndim, (1,) * v.ndim, 'VALID'), 1)
  add('max_pool_2', lambda v: lax.reduce_window(
      jnp.concatenate([v, 1 - v]), -1e9, lax.max, (2,) + (1,) * (v.ndim - 1),
      (1,) * v.ndim, 'VALID'), 1)
  # Indexing and layout.
  add('index', lambda v: v[0], 1)
  add('index_last', lambda v: v[..., -1], 1)
  add('slice', lambda v: v[:1], 1)
  add('strided', lambda v: v[::2], 1)
  add('reverse', lambda v: v[::-1], 1)
  add('take', lambda v: jnp.take(v, jnp.array([0, 0]), axis=0), 1)
  add('gather_dependent', lambda v: v[jnp.argmax(v.ravel()) % v.shape[0]], 1)
  add('dynamic_slice', lambda v: lax.dynamic_slice_in_dim(v, 0, 1), 1)
  add('concatenate', lambda v: jnp.concatenate([v, 2 * v]), 1)
  add('concatenate_const', lambda v: jnp.concatenate([v, jnp.ones_like(v)]), 1)
  add('stack', lambda v: jnp.stack([v, -v]))
  add('pad', lambda v: jnp.pad(v, 1, constant_values=.5), 1)
  add('roll', lambda v: jnp.roll(v, 1), 1)
  add('tile', lambda v: jnp.tile(v, 2), 1)
  add('repeat', lambda v: jnp.repeat(v, 2), 1)
  add('diag', lambda v: jnp.diag(v.ravel()), 1)
  add('outer', lambda v: jnp.outer(v, v), 1)
  add('set', lambda v: v.at[0].set(.5), 1)
  add('add_at', lambda v: v.at[0].add(1.), 1)
  add('max_at', lambda v: v.at[0].max(.2), 1)
  add('mul_at', lambda v: v.at[0].multiply(2.), 1)
  add('triu', lambda v: jnp.triu(jnp.outer(v, v)), 1)
  add('segment_sum', lambda v: jax.ops.segment_sum(
      v, jnp.zeros(v.shape[0], int), 1), 1)
  add('split', lambda v: sum(jnp.split(jnp.concatenate([v, -2 * v]), 2)), 1)
  # Control flow.
  add('cond', lambda v: lax.cond(v.ravel()[0] > .1 if v.ndim else v > .1,
                                 lambda w: w, lambda w: -2 * w, v))
  add('cond_const', lambda v: lax.cond(jnp.sum(jnp.arange(3)) > 1,
                                       lambda w: 2 * w, lambda w: w, v))
  add('switch', lambda v: lax.switch(
      (jnp.sum(v) > 0).astype(int), [lambda w: w, lambda w: 3 * w], v))
  add('fori', lambda v: lax.fori_loop(0, 3, lambda i, w: w * .5 + i, v))
  add('while', lambda v: lax.while_loop(
      lambda w: jnp.sum(w) < 3., lambda w: w + 1., v))
  add('scan', lambda v: lax.scan(
      lambda c, y: (c * .5 + y, c), v, jnp.arange(3.))[0])
  add('scan_out', lambda v: lax.scan(
      lambda c, y: (c * .5 + y, c + y), v, jnp.arange(3.))[1])
  add('map', lambda v: lax.map(lambda c: c * v, jnp.arange(2.)))
  add('associative_scan', lambda v: lax.associative_scan(jnp.add, v), 1)
  # Transformations and wrappers.
  add('stop_gradient', lax.stop_gradient)
  add('checkpoint', jax.checkpoint(lambda v: v * v))
  add('optimization_barrier', lambda v: lax.optimization_barrier(v))

  @jax.custom_jvp
  def cj(v):
    return 2. * v + 1.
  cj.defjvp(lambda p, q: (cj(*p), 2. * q[0]))
  add('custom_jvp', cj)

  @jax.custom_vjp
  def cv(v):
    return 3. * v - 1.
  cv.defvjp(lambda v: (cv(v), None), lambda r, g: (3. * g,))
  add('custom_vjp', cv)
  add('vmap', lambda v: jax.vmap(lambda w: w * w + 1)(v), 1)
  add('grad_of_relu', lambda v: jax.grad(
      lambda w: jnp.sum(jax.nn.relu(w)))(v))
  add('jvp', lambda v: jax.jvp(jnp.tanh, (v,), (jnp.ones_like(v),))[1])
  add('linearize', lambda v: jax.linearize(jnp.exp, .3 * v)[1](v))
  add('pure_callback', lambda v: jax.pure_callback(
      lambda w: w * 2, jax.ShapeDtypeStruct(v.shape, v.dtype), v,
      vmap_method='sequential'))
  # Linear algebra and transforms.
  eye = lambda v: jnp.eye(v.size) * 4 + jnp.outer(sq(v), sq(v))
  add('inv', lambda v: jnp.linalg.inv(eye(v)), 1)
  add('det', lambda v: jnp.linalg.det(eye(v)), 1)
  add('solve', lambda v: jnp.linalg.solve(eye(v), v.ravel()), 1)
  add('cholesky', lambda v: jnp.linalg.cholesky(eye(v)), 1)
  add('eigh', lambda v: jnp.linalg.eigvalsh(eye(v)), 1)
  add('fft', lambda v: jnp.real(jnp.fft.fft(v)), 1)
  add('complex', lambda v: jnp.real(lax.complex(v, v) * 2))
  add('modulus_of_phase', lambda v: jnp.abs(jnp.exp(3j * v) + 1.))
  add('modulus_of_square', lambda v: jnp.abs((2j * v - 1.) ** 2 + 1.5))
  add('modulus_of_log', lambda v: jnp.abs(jnp.log(v.astype(complex)) - 1j))
  add('abs_complex', lambda v: jnp.abs(lax.complex(v, 1 + v)))
  add('trace', lambda v: jnp.trace(jnp.outer(v, v)), 1)
  add('interp', lambda v: jnp.interp(v, jnp.array([-1., 0., 2.]),
                                     jnp.array([0., 3., 1.])))
  add('polyval', lambda v: jnp.polyval(jnp.array([1., -2., .5]), v))
  add('digitize', lambda v: f(jnp.digitize(v, jnp.array([-.5, 0., .5]))))
  add('bitcast', lambda v: lax.bitcast_convert_type(
      lax.bitcast_convert_type(v, 'uint32' if v.dtype == 'float32' else 'uint64'),
      v.dtype))
  add('expand_copy', lambda v: jnp.copy(v))
  return t
