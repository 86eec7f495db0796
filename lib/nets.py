"""Random training problems: networks, losses and step directions.

Every loss is defined twice: for JAX (what is bounded) and for numpy in double
or extended precision (the truth).
"""
import numpy as np
from lib import arrprog


def _np_sig(z):
  return arrprog._np_sigmoid(z)


def _np_softplus(z):
  return np.log1p(np.exp(-np.abs(z))) + np.maximum(z, 0)


class NpLib:
  xp = np
  sigmoid = staticmethod(_np_sig)
  softplus = staticmethod(_np_softplus)
  swish = staticmethod(lambda z: z * _np_sig(z))

  @staticmethod
  def conv(x, w, strides, pad):
    return arrprog.np_conv(x, w, strides, pad, (1, 1))

  @staticmethod
  def pool(x, window):
    return arrprog.np_pool(x, (1, 1) + window, (1, 1) + window)


class JaxLib:

  def __init__(self, style=0):
    import jax
    import jax.numpy as jnp
    self.jax, self.xp, self.style = jax, jnp, style
    self.softplus, self.swish = jax.nn.softplus, jax.nn.swish
    self.sigmoid = jax.lax.logistic if style % 2 else jax.nn.sigmoid

  def conv(self, x, w, strides, pad):
    return self.jax.lax.conv_general_dilated(x, w, strides, pad)

  def pool(self, x, window):
    lax = self.jax.lax
    return lax.reduce_window(x, 0., lax.add, (1, 1) + window, (1, 1) + window,
                             'VALID')


class Problem:
  """A network with a loss: params is a list of arrays."""

  def __init__(self, layers, params, loss, x, y, l2):
    self.layers, self.params, self.loss = layers, params, loss
    self.x, self.y, self.l2 = x, y, l2

  def key(self):
    return (str(self.layers), self.loss, self.l2,
            tuple(p.tobytes() for p in self.params[:2]))

  def __repr__(self):
    return (f'{self.layers} loss={self.loss} l2={self.l2} x{self.x.shape} '
            f'params {[p.shape for p in self.params]}')

  def __call__(self, lib, params, dtype=None):
    xp = lib.xp
    cast = (lambda v: np.asarray(v, dtype)) if xp is np else (lambda v: v)
    h = cast(self.x)
    p = iter(params)
    kept = None
    for layer in self.layers:
      kind = layer[0]
      if kind == 'dense':
        w = next(p)
        h = h @ w if layer[1] != 'einsum' else xp.einsum('bi,ij->bj', h, w)
        if layer[2]:
          h = h + next(p)
      elif kind == 'conv':
        h = lib.conv(h, next(p), layer[1], layer[2])
        if layer[3]:
          h = h + xp.reshape(next(p), (1, -1, 1, 1))
      elif kind == 'pool':
        h = lib.pool(h, layer[1]) / (layer[1][0] * layer[1][1])
      elif kind == 'flatten':
        h = xp.reshape(h, (h.shape[0], -1))
      elif kind == 'keep':
        kept = h
      elif kind == 'residual':
        h = h + kept
      elif kind == 'scale':
        h = h * next(p)
      elif kind in ('sigmoid', 'softplus', 'swish'):
        h = getattr(lib, kind)(h)
      elif kind == 'square':
        h = h ** 2
      else:
        raise ValueError(kind)
    y = cast(self.y)
    n = h.shape[0]
    if self.loss == 'mse':
      r = (h - y) ** 2
      out = xp.mean(r)
    elif self.loss == 'sse':
      r = h - y
      out = .5 * xp.sum(r * r)
    elif self.loss == 'logistic':
      out = xp.sum(lib.softplus(-y * h)) / n
    elif self.loss == 'xent':
      out = xp.mean(xp.log(xp.sum(xp.exp(h), axis=-1)) - xp.sum(h * y, -1))
    elif self.loss == 'brier':
      e = xp.exp(h)
      out = xp.mean((e / xp.sum(e, axis=-1, keepdims=True) - y) ** 2)
    else:
      raise ValueError(self.loss)
    if self.l2:
      out = out + self.l2 * sum(xp.sum(v ** 2) for v in params)
    return out


def random_problem(rng, max_layers=3, conv=None):
  batch = int(rng.integers(1, 5))
  acts = ('sigmoid', 'softplus', 'swish')
  layers, params = [], []
  normal = lambda *s: rng.normal(size=s)
  if conv is None:
    conv = rng.uniform() < .3
  n_out = int(rng.integers(1, 4))
  if conv:
    c, hw = int(rng.integers(1, 3)), int(rng.integers(3, 6))
    x = normal(batch, c, hw, hw)
    for _ in range(int(rng.integers(1, 3))):
      o, k = int(rng.integers(1, 3)), int(rng.integers(1, 4))
      k = min(k, hw)
      s = int(rng.integers(1, 3))
      pad = (int(rng.integers(0, 2)), int(rng.integers(0, 2)))
      bias = bool(rng.integers(2))
      layers.append(('conv', (s, s), (pad, pad), bias))
      params.append(normal(o, c, k, k) / np.sqrt(c * k * k))
      if bias:
        params.append(.3 * normal(o))
      hw, c = (hw + sum(pad) - k) // s + 1, o
      layers.append((str(rng.choice(acts)),))
      if hw >= 2 and rng.uniform() < .5:
        layers.append(('pool', (2, 2)))
        hw = hw // 2
      if hw < 2:
        break
    layers.append(('flatten',))
    width = c * hw * hw
    n_dense = 1
  else:
    width = int(rng.integers(1, 5))
    x = normal(batch, width)
    n_dense = int(rng.integers(1, max_layers + 1))
  for i in range(n_dense):
    last = i == n_dense - 1
    out = n_out if last else int(rng.integers(1, 6))
    res = not last and rng.uniform() < .2
    if res:
      layers.append(('keep',))
      out = width
    bias = bool(rng.integers(2))
    layers.append(('dense', ('matmul', 'einsum')[int(rng.integers(2))], bias))
    params.append(normal(width, out) / np.sqrt(width))
    if bias:
      params.append(.3 * normal(out))
    if not last or rng.uniform() < .2:
      layers.append((str(rng.choice(acts + ('square',), p=[.3, .3, .3, .1])),))
    if res:
      layers.append(('residual',))
    if rng.uniform() < .1:
      layers.append(('scale',))
      params.append(1 + .2 * normal(out))
    width = out
  loss = str(rng.choice(['mse', 'mse', 'sse', 'logistic', 'xent', 'brier']))
  if loss in ('xent', 'brier') and n_out > 1:
    y = np.eye(n_out)[rng.integers(0, n_out, batch)]
  elif loss == 'logistic':
    y = rng.choice([-1., 1.], size=(batch, n_out))
  else:
    y = normal(batch, n_out)
  l2 = float(rng.choice([0., 0., .01, .1]))
  return Problem(layers, params, loss, x, y, l2)


def direction(rng, problem, params, jlib, kind):
  """A step direction: one array per parameter."""
  grad = [np.asarray(g) for g in jlib.jax.grad(
      lambda p: problem(jlib, p))([np.asarray(p) for p in params])]
  if kind == 'gradient':
    return [-g for g in grad], grad
  if kind == 'sign':
    return [-.1 * np.sign(g) for g in grad], grad
  if kind == 'momentum':
    return [-(.5 * g + .5 * rng.normal(size=g.shape) * np.sqrt(
        np.mean(g ** 2) + 1e-12)) for g in grad], grad
  if kind == 'ascent':
    return [g for g in grad], grad
  if kind == 'one':
    j = int(rng.integers(len(grad)))
    return [-g if i == j else np.zeros_like(g)
            for i, g in enumerate(grad)], grad
  return [.3 * rng.normal(size=g.shape) for g in grad], grad
