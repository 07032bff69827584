"""Small real train states, iterators and checkpointers for the checkpoint checks."""
import os

import numpy as np
import jax
import jax.numpy as jnp
from flax.core import freeze

_cache = {}


def partitioner(num_partitions=1, **kw):
  from t5x import partitioning
  k = ('part', num_partitions, str(kw))
  if k not in _cache:
    _cache[k] = partitioning.PjitPartitioner(num_partitions=num_partitions, **kw)
  return _cache[k]


def mesh_partitioner(shape, rules=None, names=('data', 'model'), **kw):
  """A real PjitPartitioner on a mesh of the first prod(shape) devices."""
  from t5x import partitioning
  k = ('mesh', shape, str(rules), names, str(kw))
  if k not in _cache:
    n = int(np.prod(shape))
    m = jax.sharding.Mesh(np.array(jax.devices()[:n]).reshape(shape), names)

    class P(partitioning.PjitPartitioner):
      mesh = property(lambda self: m)

    _cache[k] = P(num_partitions=1, logical_axis_rules=rules, **kw)
  return _cache[k]


def optimizer_def(kind='sgd'):
  from t5x import adafactor, optimizers
  import optax
  if kind == 'adafactor':
    return adafactor.Adafactor(0.1, min_dim_size_to_factor=2, logical_factor_rules={
        n: adafactor.FactorDim.NONE for n in ('a', 'b')})
  if kind == 'adam':
    return optimizers.wrap_optax_optimizer(optax.adam)(0.1)
  return optimizers.wrap_optax_optimizer(optax.sgd)(0.1)


def value(step, salt, shape, dtype=np.float32):
  """Contents that identify step and array."""
  n = int(np.prod(shape)) if shape else 1
  x = (np.arange(n) * 0.25 + step * 2 + salt * 64).reshape(shape)
  return np.asarray(x, dtype)


def train_state(step, kind='sgd', shapes=((2, 3), (4,)), mutables=False, dtype=np.float32,
                lib=jnp, salt=0):
  from t5x import train_state as ts
  from flax.linen import partitioning as fp
  params = {}
  axes = {}
  names = ('a', 'b', 'a')
  for i, s in enumerate(shapes):
    params[f'w{i}'] = lib.asarray(value(step, i + salt, s, dtype))
    axes[f'w{i}_axes'] = fp.AxisMetadata(names=tuple(names[:len(s)]))
  params = {'enc': params}
  variables = {'params': params, 'params_axes': {'enc': axes}}
  if mutables:
    variables['stats'] = {'mean': lib.asarray(value(step, 9 + salt, (3,), np.float32)),
                          'n': lib.asarray(np.int32(step + 3))}
    variables['stats_axes'] = {
        'mean_axes': fp.AxisMetadata(names=('a',)),
        'n_axes': fp.AxisMetadata(names=())}
  st = ts.FlaxOptimTrainState.create(optimizer_def(kind), freeze(variables))
  st = st.replace_step(jnp.asarray(step))

  # optimizer slots with contents that identify the step
  def bump(path_x):
    return path_x
  opt = st._optimizer  # pylint: disable=protected-access
  leaves, td = jax.tree_util.tree_flatten(opt.state.param_states)
  leaves = [x if np.ndim(x) == 0 else lib.asarray(
      value(step, 20 + i + salt, np.shape(x), x.dtype)) for i, x in enumerate(leaves)]
  opt = opt.replace(state=opt.state.replace(
      param_states=jax.tree_util.tree_unflatten(td, leaves)))
  return st.replace(_optimizer=opt)


class Iterator:
  """A dataset iterator with file-based state (position only)."""

  def __init__(self, pos=0):
    self.pos = pos

  def __next__(self):
    self.pos += 1
    return self.pos

  def save(self, filename):
    with open(os.fspath(filename), 'w') as f:
      f.write(str(self.pos))

  def load(self, filename):
    with open(os.fspath(filename)) as f:
      self.pos = int(f.read())

  restore = load

  def __bool__(self):
    return True


def flat(state_dict):
  from flax import traverse_util
  return {'/'.join(k): np.asarray(v) if v is not None else None
          for k, v in traverse_util.flatten_dict(state_dict).items()}


def flat_raw(state_dict):
  from flax import traverse_util
  return {'/'.join(k): v for k, v in traverse_util.flatten_dict(state_dict).items()}


flat_axes = flat_raw


def same_state(a, b):
  """None if two train states hold the same data, else a description."""
  fa, fb = flat(a.state_dict()), flat(b.state_dict())
  if set(fa) != set(fb):
    return f'different entries: {sorted(set(fa) ^ set(fb))}'
  for k in fa:
    x, y = fa[k], fb[k]
    if x is None or y is None:
      if x is not y:
        return f'{k}: None mismatch'
      continue
    if x.shape != y.shape:
      return f'{k}: shape {x.shape} became {y.shape}'
    if x.dtype != y.dtype:
      return f'{k}: dtype {x.dtype} became {y.dtype}'
    if not np.array_equal(x, y):
      return f'{k}: value {x.ravel()[:3]} became {y.ravel()[:3]}'
  return None
