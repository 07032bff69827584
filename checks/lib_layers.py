"""The four layer libraries and networks, with small instances."""
import functools
import importlib

import numpy as np

PACKAGES = {'t5': 't5x.examples.t5', 'scalable_t5': 't5x.examples.scalable_t5',
            'decoder_only': 't5x.examples.decoder_only', 'gpu': 't5x.contrib.gpu.t5'}


def layers(name):
  return importlib.import_module(PACKAGES[name] + '.layers')


def network(name):
  return importlib.import_module(PACKAGES[name] + '.network')


def randomize(tree, seed=0, scale=0.5):
  """Generic parameters of the shapes given, nothing at a special value."""
  import jax
  rng = np.random.RandomState(seed)
  leaves, treedef = jax.tree_util.tree_flatten(tree)
  return jax.tree_util.tree_unflatten(
      treedef, [np.asarray(rng.randn(*np.shape(x)) * scale + 0.1 * (np.ndim(x) == 1), np.float32) for x in leaves])


def encdec(name, vocab=5, seed=0, **kw):
  """A small encoder-decoder network and its parameters."""
  import jax
  net = network(name)
  cfg = dict(vocab_size=vocab, dtype='float32', emb_dim=4, num_heads=2, num_encoder_layers=2, num_decoder_layers=2,
             head_dim=3, mlp_dim=5, mlp_activations=('gelu', 'linear'), dropout_rate=0.0, logits_via_embedding=False)
  cfg.update(kw)
  model = net.Transformer(net.T5Config(**cfg))
  ones = np.ones((1, 2), np.int32)
  v = model.init(jax.random.PRNGKey(0), ones, ones, ones, enable_dropout=False)
  return model, randomize(unbox(v['params']), seed)


def decoder(vocab=5, seed=0, **kw):
  """A small decoder-only network and its parameters."""
  import jax
  net = network('decoder_only')
  cfg = dict(vocab_size=vocab, dtype='float32', emb_dim=4, num_heads=2, num_layers=2, head_dim=3, mlp_dim=5,
             mlp_activations=('gelu', 'linear'), dropout_rate=0.0, logits_via_embedding=False)
  cfg.update(kw)
  model = net.DecoderWrapper(net.TransformerConfig(**cfg))
  ones = np.ones((1, 2), np.int32)
  v = model.init(jax.random.PRNGKey(0), ones, ones, enable_dropout=False)
  return model, randomize(unbox(v['params']), seed)


def unbox(tree):
  from flax.core import meta
  from flax.core.frozen_dict import unfreeze
  return unfreeze(meta.unbox(tree))


def mend_flax():
  """Lets flax's scan run with the installed jax.

  The installed flax passes tracing information to two functions of jax which
  the installed jax does not have, or has without that argument.
  """
  import types
  import jax
  import jax.api_util
  from flax.core import axes_scan
  from flax.core import partial_eval
  if hasattr(jax.api_util, 'debug_info'):
    return
  jax.api_util.debug_info = lambda *a, **kw: None
  for module in (axes_scan, partial_eval):
    lu = module.lu
    shim = types.SimpleNamespace(**{k: getattr(lu, k) for k in dir(lu) if not k.startswith('__')})
    shim.wrap_init = lambda f, params=None, debug_info=None, lu=lu: lu.wrap_init(f, params)
    module.lu = shim
