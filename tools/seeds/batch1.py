import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0])
from mkseed import seed

CKPT = '''
    import os, sys, shutil, tempfile
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import prep; prep.prep(%s)
    import numpy as np, jax, jax.numpy as jnp
    from flax.core import freeze
    from t5x import adafactor, checkpoints, partitioning, train_state as ts
    from flax.linen import partitioning as fp

    def state(step, v=1.0):
      od = adafactor.Adafactor(0.1, logical_factor_rules=adafactor.standard_logical_factor_rules())
      params = {'w': np.full((4, 2), v, np.float32)}
      axes = {'w_axes': fp.AxisMetadata(names=('embed', 'mlp'))}
      st = ts.FlaxOptimTrainState.create(od, freeze({'params': params, 'params_axes': axes}))
      return st.replace_step(jnp.array(step, jnp.int32))

    part = partitioning.PjitPartitioner(num_partitions=1)
    d = tempfile.mkdtemp()
'''

seed('c01-publish-before-index', 'C01', [('t5x/checkpoints.py', '''      # Write msgpack file in host 0 only
      msgpack_bytes = serialization.to_bytes(
          {'version': VERSION, 'optimizer': written_state_dict}
      )
      with gfile.GFile(os.path.join(tmp_dir, 'checkpoint'), 'wb') as fp:
        fp.write(msgpack_bytes)

      # Finalize checkpoint directory.
      if final_dir.startswith('gs://'):
''', '''      msgpack_bytes = serialization.to_bytes(
          {'version': VERSION, 'optimizer': written_state_dict}
      )

      # Finalize checkpoint directory.
      if final_dir.startswith('gs://'):
'''), ('t5x/checkpoints.py', '''        gfile.rename(tmp_dir, final_dir)
      logging.info('Saved checkpoint for step %d to %s', step, final_dir)

      # Remove old checkpoints, if necessary.
''', '''        gfile.rename(tmp_dir, final_dir)
      # Write msgpack file in host 0 only
      with gfile.GFile(os.path.join(final_dir, 'checkpoint'), 'wb') as fp:
        fp.write(msgpack_bytes)
      logging.info('Saved checkpoint for step %d to %s', step, final_dir)

      # Remove old checkpoints, if necessary.
''')], 'a crash between the rename that publishes the directory and the write of its index file',
     'a step is listed as available although its index file is missing, so it cannot be restored',
     CKPT % '' + '''
    class Died(Exception): pass
    real = checkpoints.gfile.rename
    def rename(a, b, *k, **kw):
      real(a, b, *k, **kw)
      raise Died()
    checkpoints.gfile.rename = rename
    c = checkpoints.Checkpointer(state(0), part, d)
    try:
      c.save(state(5, 3.0))
    except Died:
      pass
    checkpoints.gfile.rename = real
    try:
      c = checkpoints.Checkpointer(state(0), part, d)
      for s in c.all_steps():
        r = c.restore(s)
        assert np.all(np.asarray(r.params['w']) == 3.0)
      print('ok', c.all_steps())
    finally:
      shutil.rmtree(d)
''')

seed('c02-pins-not-counted', 'C02', [('t5x/checkpoints.py', '''    existing_steps = self.all_steps()
    to_remove = len(existing_steps) - self.keep
    if to_remove <= 0:
      return

    for step in existing_steps[:to_remove]:
      checkpoint_utils.remove_checkpoint_dir(self._get_checkpoint_dir(step))

  def save(''', '''    existing_steps = self.all_steps()
    to_remove = len(existing_steps) - self.keep
    if to_remove <= 0:
      return

    for step in existing_steps:
      if to_remove <= 0:
        break
      ckpt_dir = self._get_checkpoint_dir(step)
      if checkpoint_utils.is_pinned_checkpoint(ckpt_dir):
        continue
      checkpoint_utils.remove_checkpoint_dir(ckpt_dir)
      to_remove -= 1

  def save(''')], 'a pinned checkpoint older than the newest `keep`, followed by enough further saves',
     'each old pinned checkpoint makes retention delete one of the newest keep checkpoints as well',
     CKPT % '' + '''
    from t5x import checkpoint_utils
    try:
      c = checkpoints.Checkpointer(state(0), part, d, keep=2)
      c.save(state(1))
      checkpoint_utils.pin_checkpoint(os.path.join(d, 'checkpoint_1'))
      for s in (2, 3, 4):
        c.save(state(s))
      assert list(c.all_steps()) == [1, 3, 4], c.all_steps()
    finally:
      shutil.rmtree(d)
''')

seed('c08-returns-more-than-taken', 'C08', [('t5x/checkpoints.py', '''      self._num_bytes += n_bytes
      assert self._num_bytes <= self._max_bytes
      self._cv.notify_all()
''', '''      self._num_bytes += n_bytes
      self._cv.notify_all()
'''), ('t5x/checkpoints.py', '''      await bytes_cv.return_bytes(n_bytes)

      # N.B. we return the original ts_spec''', '''      await bytes_cv.return_bytes(arr.nbytes)

      # N.B. we return the original ts_spec''')],
     'one array larger than the whole budget and at least two further arrays in the same save',
     'an oversized write returns more bytes than it took, so later writes exceed the budget',
     CKPT % '' + '''
    import asyncio
    from jax.experimental.array_serialization import serialization as ser
    import tensorstore
    now, peak = {}, []
    class T:
      def __init__(self, n): self.n = n
      async def write(self, a):
        now[self.n] = a.nbytes; peak.append((len(now), sum(now.values())))
        await asyncio.sleep(0.01)
        del now[self.n]
    count = [0]
    async def op(spec, *a, **k):
      count[0] += 1
      return T(count[0])
    tensorstore.open = op
    st = ts.InferenceState.create(freeze({
        'params': {n: np.zeros((s,), np.float32) for n, s in (('a', 100), ('b', 20), ('c', 20), ('d', 20))},
        'params_axes': {n + '_axes': fp.AxisMetadata(names=('x',)) for n in 'abcd'}}))
    part = partitioning.PjitPartitioner(num_partitions=1, params_on_devices=False)
    try:
      checkpoints.Checkpointer(st, part, d).save(st, concurrent_gb=160 / 1e9)
      bad = [p for p in peak if p[0] > 1 and p[1] > 160]
      assert peak and not bad, peak
    finally:
      shutil.rmtree(d)
''')

seed('d01-log-prob-after-end', 'D01', [('t5x/decoding.py', '''    next_log_prob = state.log_prob + (
        next_log_prob * out_of_prompt
    ) * jnp.squeeze(~state.ended, axis=-1).astype(jnp.int32)
''', '''    still_running = ~jnp.squeeze(state.ended, axis=-1)
    is_sampled = jnp.logical_or(out_of_prompt, ~still_running)
    # Finished rows only emit padding, which the model is not scored on.
    next_log_prob = state.log_prob + jnp.where(
        is_sampled & (still_running | (i < jnp.max(i))), next_log_prob, 0.0
    )
''')], 'a batch whose items are at different positions: a finished item that is behind another one',
     'the log-probability of an item that has finished keeps changing while it is behind other items of its batch',
     '''
    import os, sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import prep; prep.prep()
    import numpy as np, jax, jax.numpy as jnp
    from t5x import decoding
    T = np.log(np.array([[.01, .02, .07, .9], [.1, .5, .2, .2], [.1, .6, .2, .1], [.05, .1, .05, .8]], np.float32))
    def run(inputs, start):
      def f(s):
        return jnp.asarray(T)[s.cur_token[:, 0]], s.cache
      return decoding.temperature_sample(
          jnp.array(inputs), {}, f, eos_id=1, decode_rng=jax.random.PRNGKey(0), num_decodes=1,
          temperature=0.0, topk=0, rescale_log_probs=False, initial_index=jnp.array(start))
    both = run([[0, 2, 0, 0, 0, 0, 0], [0, 3, 3, 3, 0, 0, 0]], [1, 3])
    alone = run([[0, 2, 0, 0, 0, 0, 0]], [1])
    assert np.allclose(both[1][0], alone[1][0], atol=1e-5), (both, alone)
''')

seed('d03-longest-prompt-penalty', 'D03', [('t5x/decoding.py', """    topk_lengths = jnp.repeat(initial_index[:, None], beams_to_keep, axis=1)
""", """    topk_lengths = jnp.full((batch_size, beams_to_keep), jnp.max(initial_index))
""")], 'beam search after a cache prefill with prompts of different lengths in one batch',
     'the length penalty of an item uses the longest prompt of its batch instead of its own',
     """
    import os, sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import prep; prep.prep()
    import numpy as np, jax, jax.numpy as jnp
    from t5x import decoding
    V = 5
    T = np.random.RandomState(0).randn(V, V).astype(np.float32)
    T[:, 0] = -20.
    def f(s):
      return jnp.asarray(T)[s.cur_token[:, 0]], s.cache
    def run(p):
      p = np.array(p, np.int32)
      return decoding.beam_search(jnp.array(p), {'h': jnp.zeros((len(p), 1), jnp.int32)}, f,
                                  eos_id=1, num_decodes=3, alpha=0.6, initial_index=jnp.array((p != 0).sum(1)))
    a = run([[2, 3, 4, 0, 0, 0, 0], [2, 0, 0, 0, 0, 0, 0]])
    b = run([[2, 0, 0, 0, 0, 0, 0]])
    assert np.allclose(a[1][1], b[1][0], atol=1e-5), (a, b)
""")

seed('m05-unshifted-log-z', 'M05', [('t5x/losses.py', '''  log_z = jnp.squeeze(jnp.log(sum_exp) + max_logit, axis=-1)
  total_z_loss = z_loss * jax.lax.square(log_z)
  loss += total_z_loss
  return (loss, total_z_loss), (''', '''  log_z = jnp.squeeze(jnp.log(sum_exp), axis=-1)
  total_z_loss = z_loss * jax.lax.square(
      log_z + jnp.squeeze(max_logit, axis=-1)
  )
  loss += total_z_loss
  return (loss, total_z_loss), (''')],
     'a gradient with a z-loss coefficient above zero and logits whose maximum is not zero',
     'the gradient no longer contains the penalty of the returned loss: the normalizer lacks its maximum',
     '''
    import os, sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import prep; prep.prep()
    import numpy as np, jax, jax.numpy as jnp
    from t5x import losses
    x = jnp.array([[3., -1., 0.5]]); t = jnp.array([[0., 1., 0.]])
    g = jax.grad(lambda a: losses.cross_entropy_with_logits(a, t, 0.1)[0].sum())(x)
    ref = jax.grad(lambda a: (-(t * jax.nn.log_softmax(a)).sum() + 0.1 * jax.nn.logsumexp(a) ** 2))(x)
    assert np.allclose(g, ref, atol=1e-4), (g, ref)
''')
