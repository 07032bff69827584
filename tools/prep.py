"""Makes t5x importable from the current directory (stand-ins for absent packages)."""
import importlib.util
import os
import sys
import types
import warnings


def prep(n_devices=None):
  if n_devices:
    os.environ['XLA_FLAGS'] = (
        f'--xla_force_host_platform_device_count={n_devices}')
  warnings.simplefilter('ignore')
  sys.path.insert(0, os.getcwd())
  pkg = types.ModuleType('t5x')
  pkg.__path__ = [os.path.join(os.getcwd(), 't5x')]
  sys.modules['t5x'] = pkg

  def mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    m.__path__ = []
    sys.modules[name] = m
    if '.' in name:
      setattr(sys.modules[name.rsplit('.', 1)[0]], name.rsplit('.', 1)[1], m)
    return m

  if importlib.util.find_spec('airio') is None:
    kinds = {k: type(k, (), {}) for k in (
        'DatasetProviderBase', 'Task', 'Mixture', 'AirIODatasetIterator')}
    mod('airio')
    mod('airio.core', **kinds).dataset_providers = types.SimpleNamespace(
        get_vocabularies=lambda m: {})
  if importlib.util.find_spec('t5') is None:
    mod('t5')
    mod('t5.data', get_default_vocabulary=lambda: None)
    mod('t5.data.mixtures')
    mod('t5.data.tasks')
  import jax
  import jax.experimental.pjit as pjit
  if not hasattr(pjit, 'PartitionSpec'):
    pjit.PartitionSpec = jax.sharding.PartitionSpec
