import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0])
from mkseed import seed

PRE = '''
    import os, sys, shutil, tempfile
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import prep; prep.prep()
    import numpy as np, jax, jax.numpy as jnp
'''
CKPT = PRE + '''
    from flax.core import freeze
    from t5x import adafactor, checkpoints, partitioning, train_state as ts
    from flax.linen import partitioning as fp

    def state(step, v=1.0):
      od = adafactor.Adafactor(0.1, logical_factor_rules=adafactor.standard_logical_factor_rules())
      params = {'w': np.full((4, 2), v, np.float32)}
      axes = {'w_axes': fp.AxisMetadata(names=('embed', 'mlp'))}
      st = ts.FlaxOptimTrainState.create(od, freeze({'params': params, 'params_axes': axes}))
      return st.replace_step(jnp.array(step, jnp.int32))

    part = partitioning.PjitPartitioner(num_partitions=1)
    d = tempfile.mkdtemp()
'''

seed('c03-metric-tag-prefix', 'C03', [('t5x/checkpoints.py', """          or event.summary.value[0].tag != metric_tag""",
"""          or not event.summary.value[0].tag.startswith(metric_tag)""")],
     'a second metric in the same event file whose tag starts with the tag of the monitored one',
     'the values of another metric (accuracy_top5) overwrite those of the monitored one (accuracy)',
     CKPT + '''
    import tensorflow as tf
    try:
      w = tf.summary.create_file_writer(os.path.join(d, 'train'))
      with w.as_default():
        for s, v in ((1, .9), (2, .5), (3, .1)):
          tf.summary.scalar('accuracy', v, step=s)
          tf.summary.scalar('accuracy_top5', 1 - v, step=s)
      w.close()
      c = checkpoints.SaveBestCheckpointer(state(0), part, d, keep=2, metric_name_to_monitor='train/accuracy')
      for s in (1, 2, 3, 4):
        c.save(state(s))
      # step 4 is the one just written (no value yet), of the others the best stays
      assert 1 in c.all_steps() and 3 not in c.all_steps(), c.all_steps()
    finally:
      shutil.rmtree(d)
''')

seed('c05-step-zero-is-none', 'C05', [('t5x/checkpoints.py', """      if step is None:
        step = self.latest_step()
""", """      if not step:
        step = self.latest_step()
""")],
     'restoring step 0 explicitly while later checkpoints exist',
     'the latest checkpoint is restored although step 0 was asked for',
     CKPT + '''
    try:
      c = checkpoints.Checkpointer(state(0), part, d)
      c.save(state(0, 1.0)); c.save(state(7, 2.0))
      r = c.restore(step=0)
      assert np.all(np.asarray(r.params['w']) == 1.0) and int(r.step) == 0, r.step
    finally:
      shutil.rmtree(d)
''')

seed('m05-z-loss-gradient-sign', 'M05', [('t5x/losses.py', """      jnp.expand_dims(1 + 2 * z_loss * log_z, -1) * exp_shifted / sum_exp""",
"""      jnp.expand_dims(1 + 2 * z_loss * jnp.abs(log_z), -1) * exp_shifted / sum_exp""")],
     'a positive z_loss and logits whose log-sum-exp is negative',
     'the gradient of the z-loss pushes the wrong way where the log normalizer is negative',
     PRE + '''
    from t5x import losses
    x = jnp.array([[-5., -6., -7.]]); t = jnp.array([[0., 1., 0.]])
    f = lambda x: losses.cross_entropy_with_logits(x, t, 0.1)[0].sum()
    def g(x):
      z = jax.nn.logsumexp(x, -1)
      return (-(jax.nn.log_softmax(x) * t).sum(-1) + 0.1 * z ** 2).sum()
    assert np.allclose(jax.grad(f)(x), jax.grad(g)(x), atol=1e-5)
''')

seed('m06-segment-end-without-weight', 'M06', [('t5x/losses.py', """  final_positions *= segment_ids != 0
""", """  final_positions *= (segment_ids != 0) & (weights != 0)
""")], 'a packed segment whose last position has weight zero',
     'the weights of a segment that ends in an unweighted position are not normalized by its own sum',
     PRE + '''
    from t5x import losses
    w = losses.get_loss_normalizing_factor_and_weights(
        losses.SpecialLossNormalizingFactor.AVERAGE_PER_SEQUENCE,
        {'decoder_target_tokens': jnp.array([[5, 6, 7, 8, 9]]),
         'decoder_loss_weights': jnp.array([[1., 1., 0., 1., 1.]]),
         'decoder_segment_ids': jnp.array([[1, 1, 1, 2, 2]]),
         'decoder_positions': jnp.array([[0, 1, 2, 0, 1]])})
    assert np.allclose(w[1], [[.5, .5, 0, .5, .5]]), w
''')

seed('d01-longest-prompt-limit', 'D01', [('t5x/decoding.py', """    max_decode_len = jnp.sum(inputs != 0, axis=1) + max_decode_steps""",
"""    max_decode_len = jnp.max(jnp.sum(inputs != 0, axis=1)) + max_decode_steps""")],
     'a decode limit together with prompts of different lengths in one batch',
     'an item with a short prompt decodes more tokens than max_decode_steps allows',
     PRE + '''
    from t5x import decoding
    def f(s):
      return jnp.zeros((s.cur_token.shape[0], 5)).at[:, 3].set(9.), s.cache
    seqs, _ = decoding.temperature_sample(
        jnp.array([[0, 2, 0, 0, 0, 0, 0, 0, 0], [0, 2, 2, 2, 2, 0, 0, 0, 0]]), {}, f, eos_id=1,
        decode_rng=jax.random.PRNGKey(0), num_decodes=1, temperature=0.0, topk=0, max_decode_steps=2)
    n = [(int((s == 3).sum())) for s in np.asarray(seqs)[:, 0]]
    assert n == [2, 2], seqs
''')

seed('d04-small-differences', 'D04', [('t5x/binary_search.py', """    count_gt = jnp.sum(x_for_loop > threshold, axis=reduce_axis)
""", """    count_gt = jnp.sum(x_for_loop - threshold > 1e-7, axis=reduce_axis)
""")], 'values whose differences are below 1e-7',
     'top-k keeps the wrong number of values where they are tiny or very close to each other',
     PRE + '''
    from t5x import binary_search
    x = jnp.array([[1e-9, 3e-9, 2e-9, 4e-9, 5e-9]], jnp.float32)
    y = np.asarray(binary_search.topk_mask(x, 2, -1.0))[0]
    assert (y > 0).tolist() == [False, False, False, True, True], y
''')

seed('t02-eval-step-cache-by-shape', 'T02', [('t5x/trainer.py', """      cache_key: BatchSpec = FrozenDict(jax.eval_shape(lambda: batch))""",
"""      cache_key: BatchSpec = FrozenDict({k: v.shape for k, v in batch.items()})""")],
     'two evaluation sets whose batches have the same shapes but another type',
     'the second evaluation set gets the step compiled for the first one and fails',
     PRE + '''
    from flax.core import FrozenDict
    from t5x import metrics as M, optimizers, partitioning, train_state as ts, trainer as tl
    class Model:
      def eval_fn(self, params, batch, flax_mutables=None):
        return 0., {'s': M.Sum.from_model_output(batch['x'].astype(jnp.float32).sum())}
    o = optimizers.sgd(0.1).create({'w': jnp.ones(2)})
    st = ts.FlaxOptimTrainState(o, flax_mutables=FrozenDict())
    axes = jax.tree.map(lambda _: partitioning.PartitionSpec(), st)
    t = tl.Trainer(model=Model(), train_state=st, partitioner=partitioning.PjitPartitioner(num_partitions=1),
                   eval_names=('a', 'b'), summary_dir=None, train_state_axes=axes, rng=jax.random.PRNGKey(0),
                   learning_rate_fn=lambda s: 0.1, num_microbatches=None)
    a, b = {'x': np.ones(3, np.float32)}, {'x': np.ones(3, np.int32)}
    t.compile_eval({'a': a, 'b': b})
    r = t.eval({'a': iter([a]), 'b': iter([b])})
    t.close()
    assert float(r['a']['s'].value) == float(r['b']['s'].value) == 3.
''')

seed('t07-shard-before-repeat', 'T07', [('t5x/utils.py', """        ds.unbatch()
        .repeat()
        .shard(num_shards, shard_id)
""", """        ds.unbatch()
        .shard(num_shards, shard_id)
        .repeat()
""")], 'a training evaluation on several data shards that needs more examples than the epochs requested from the dataset hold, with their number not divisible by the shards',
     'hosts evaluate some examples more often than others',
     PRE + '''
    import seqio, tensorflow as tf
    from t5x import utils
    def data(split, shuffle_files=False, seed=None):
      return tf.data.Dataset.from_tensor_slices({'targets': np.arange(1, 6, dtype=np.int32)[:, None]})
    seqio.TaskRegistry.add('demo', source=seqio.FunctionDataSource(data, splits=('validation',)), preprocessors=[],
        output_features={'targets': seqio.Feature(seqio.PassThroughVocabulary(100, 0), add_eos=False, dtype=tf.int32)},
        metric_fns=[])
    real = utils.get_dataset
    # one pass over the data, whatever is asked for
    cfg = utils.DatasetConfig('demo', {'targets': 1}, 'validation', 2, False, 0)
    got = {}
    utils.get_dataset = lambda c, num_epochs=None, **k: real(c, num_epochs=1, **k)
    for s in range(2):
      ds = utils.get_training_eval_datasets(cfg, s, 2, 5, seqio.LMFeatureConverter)['demo']
      got[s] = [int(b['decoder_target_tokens'][0, 0]) for b in ds.as_numpy_iterator()]
    # ten examples in all: every one of the five exactly twice
    assert sorted(got[0] + got[1]) == sorted([1, 2, 3, 4, 5] * 2), got
''')

seed('t07-batches-per-shard', 'T07', [('t5x/utils.py', """        .batch(cfg.batch_size // num_shards, drop_remainder=True)
        .take(eval_steps)
""", """        .batch(cfg.batch_size // num_shards, drop_remainder=True)
        .take(max(eval_steps // num_shards, 1))
""")], 'a training evaluation on several data shards with at least two steps',
     'every host evaluates fewer batches than requested',
     PRE + '''
    import seqio, tensorflow as tf
    from t5x import utils
    def data(split, shuffle_files=False, seed=None):
      return tf.data.Dataset.from_tensor_slices({'targets': np.arange(1, 6, dtype=np.int32)[:, None]})
    seqio.TaskRegistry.add('demo', source=seqio.FunctionDataSource(data, splits=('validation',)), preprocessors=[],
        output_features={'targets': seqio.Feature(seqio.PassThroughVocabulary(100, 0), add_eos=False, dtype=tf.int32)},
        metric_fns=[])
    cfg = utils.DatasetConfig('demo', {'targets': 1}, 'validation', 2, False, 0)
    for s in range(2):
      ds = utils.get_training_eval_datasets(cfg, s, 2, 4, seqio.LMFeatureConverter)['demo']
      assert len(list(ds)) == 4
''')

seed('t05-before-offset', 'T05', [('t5x/utils.py', """    step = jnp.maximum(0, step - step_offset)
""", """    step = jnp.abs(step - step_offset)
""")], 'a schedule with a positive step_offset evaluated before the offset',
     'before the offset the learning rate runs backwards through the schedule instead of holding its start',
     PRE + '''
    from t5x import utils
    f = utils.create_learning_rate_scheduler('constant * linear_warmup', 1.0, warmup_steps=10, step_offset=5)
    assert float(f(0)) == float(f(5)), (f(0), f(5))
    assert np.isclose(float(f(10)), 0.5)
''')

seed('t06-negative-metric-tolerance', 'T06', [('t5x/trainer.py', """    delta = self._atol + self._rtol * abs(previous)
""", """    delta = self._atol + self._rtol * previous
""")], 'a relative tolerance and a monitored metric that is negative',
     'for negative metrics the tolerance has the wrong sign, so early stopping does not stop',
     PRE + '''
    import clu.values
    from t5x import trainer
    a = trainer.EarlyStoppingAction(('t', 'm'), mode='min', patience=2, rtol=0.1)
    # -10 -> -10.5 improves by less than ten percent: stop
    r = [bool(a.run(None, {'t': {'m': clu.values.Scalar(v)}})) for v in (-10.0, -10.5)]
    assert r == [False, True], r
''')

seed('o02-last-overlap-only', 'O02', [('t5x/optimizers.py', """        overlap |= len(match._indices) > 1  # pylint: disable=protected-access""",
"""        overlap = len(match._indices) > 1  # pylint: disable=protected-access""")],
     'two traversals that share a parameter which is not the last one visited',
     'overlapping sub-optimizers are accepted and a parameter is updated twice',
     PRE + '''
    from flax import traverse_util
    from t5x import optimizers
    T = traverse_util.ModelParamTraversal
    o = optimizers.MultiOptimizer(((T(lambda p, _: 'a' in p), optimizers.sgd(0.1)), (T(lambda p, _: True), optimizers.sgd(0.1))))
    try:
      o.init_state({'a': jnp.ones(2), 'b': jnp.ones(2)})
    except ValueError:
      sys.exit(0)
    sys.exit('accepted')
''')

seed('c09-skipped-variable-restored', 'C09', [('t5x/state_utils.py', """    if key not in explicitly_skipped_keys and key not in result:
""", """    if key not in result:
""")], 'a rule with a None replacement for a variable that the checkpoint also has',
     'a variable that the mapping says to skip is restored from the checkpoint after all',
     PRE + '''
    from t5x import state_utils
    r = state_utils.apply_assignment_map(
        {'target': {'a': 1, 'b': 2}}, {'target': {'a': 10, 'b': 20}}, [(r'target/b', None)])
    assert r == {'target': {'a': 1}}, r
''')

seed('i03-keys-repeat', 'I03', [('t5x/utils.py', """        step_rng, rng = jax.random.split(rng)""",
"""        step_rng, _ = jax.random.split(rng)""")], 'an inference step that takes a random key and more than one batch',
     'every batch is sampled with the same key, so examples at the same place of different batches share their randomness',
     PRE + '''
    import types, tensorflow as tf
    from t5x import partitioning, utils
    part = partitioning.PjitPartitioner(num_partitions=1)
    S = jax.sharding.PartitionSpec()
    fn = lambda params, batch, rng: jax.random.randint(rng, batch['x'].shape, 0, 1 << 30)
    f = utils.get_infer_fn(fn, 2, types.SimpleNamespace(params={'w': S}, flax_mutables={'m': S}), part)
    st = types.SimpleNamespace(params={'w': np.ones(1)}, flax_mutables={'m': np.ones(1)})
    out = f(tf.data.Dataset.from_tensor_slices({'x': np.arange(6)}).enumerate(), st, rng=jax.random.PRNGKey(0))
    assert [i for i, _ in out] == list(range(6)) and len({v for _, v in out}) == 6, out
''')
