"""Makes the t5x modules in /repo importable in this sandbox.

The sandbox lacks `airio` and `t5`, and its jestimator does not import with the
installed jax; modules that need them (checkpoints, optimizers, utils, trainer,
infer, ...) are imported here with stand-ins for those third-party packages.
Nothing of t5x itself is replaced.
"""
import importlib
import importlib.util
import os
import sys
import types
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _mod(name, **attrs):
  m = types.ModuleType(name)
  m.__dict__.update(attrs)
  m.__stub__ = True
  sys.modules[name] = m
  if '.' in name:
    parent, child = name.rsplit('.', 1)
    if parent in sys.modules:
      setattr(sys.modules[parent], child, m)
  return m


def _missing(name):
  try:
    return importlib.util.find_spec(name) is None
  except (ImportError, ValueError):
    return True


_MANUAL_GC = [False]


def manual_gc():
  """Collects cyclic garbage only where `collect` is called.

  Trainers close their thread pools when they are collected; a collection that
  starts inside the thread machinery of another thread could then wait for
  itself. Checks that leave many trainers behind collect between cases."""
  import gc
  _MANUAL_GC[0] = True
  gc.disable()


def collect(limit=20000):
  import gc
  if _MANUAL_GC[0] and gc.get_count()[0] > limit:
    gc.collect()


def options(path):
  """Number of devices a check wants, read before jax starts."""
  n = None
  with open(path) as f:
    for line in f:
      if line.startswith('N_DEVICES') and n is None:
        n = int(line.split('=')[1])
      if line.startswith('MANUAL_GC'):
        manual_gc()
  return n


def setup(n_devices=None):
  """Installs paths and stand-ins. Call before importing jax or t5x."""
  if n_devices:
    flags = os.environ.get('XLA_FLAGS', '')
    os.environ['XLA_FLAGS'] = (
        flags + f' --xla_force_host_platform_device_count={n_devices}')
  warnings.simplefilter('ignore')
  for p in (REPO,):
    if p in sys.path:
      sys.path.remove(p)
    sys.path.insert(0, p)
  if 't5x' not in sys.modules:
    # The package, without the imports of its __init__ (they need airio).
    pkg = types.ModuleType('t5x')
    pkg.__path__ = [os.path.join(REPO, 't5x')]
    pkg.__package__ = 't5x'
    pkg.__file__ = os.path.join(REPO, 't5x', '__init__.py')
    sys.modules['t5x'] = pkg
  if _missing('airio'):

    class DatasetProviderBase:
      pass

    class Task(DatasetProviderBase):
      pass

    class Mixture(DatasetProviderBase):
      pass

    class AirIODatasetIterator:
      pass

    attrs = dict(DatasetProviderBase=DatasetProviderBase, Task=Task,
                 Mixture=Mixture, AirIODatasetIterator=AirIODatasetIterator)
    pkg = _mod('airio')
    pkg.__path__ = []
    core = _mod('airio.core', **attrs)
    core.dataset_providers = types.SimpleNamespace(
        get_vocabularies=lambda m: {})
  if _missing('t5'):
    pkg = _mod('t5')
    pkg.__path__ = []
    data = _mod('t5.data')
    data.__path__ = []
    data.get_default_vocabulary = lambda: None
    _mod('t5.data.mixtures')
    _mod('t5.data.tasks')
  import jax
  import jax.experimental.pjit as _pjit
  if not hasattr(_pjit, 'PartitionSpec'):
    _pjit.PartitionSpec = jax.sharding.PartitionSpec
  logging_quiet()


def logging_quiet():
  import logging as pylog
  pylog.disable(pylog.CRITICAL)
  try:
    from absl import logging
    logging.set_verbosity(logging.FATAL)
  except Exception:  # pylint: disable=broad-except
    pass
