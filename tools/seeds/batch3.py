import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0])
from mkseed import seed

PRE = '''
    import os, sys, shutil, tempfile
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import prep; prep.prep()
    import numpy as np, jax, jax.numpy as jnp
'''

seed('i06-ten-per-chunk', 'I06', [('t5x/infer.py', """    permutation = np.argsort(indices)""",
"""    permutation = np.argsort(['%d' % i for i in indices])""")],
     'predict_with_aux with more than ten examples per chunk',
     'the predictions of a chunk are permuted as text (0, 1, 10, 11, 2) against the inputs',
     PRE + '''
    from t5x import infer
    for n in (3, 12):
      out = ([(np.int64(i), np.array([i])) for i in range(n)], {'s': [i * 2 for i in range(n)]})
      tokens, aux = infer._extract_tokens_and_aux_values(out)
      assert [int(t[0]) for t in tokens] == list(range(n)), (n, tokens)
      assert list(aux['s']) == [2 * i for i in range(n)]
''')

seed('i06-pretokenized-of-named-field', 'I06', [('t5x/infer.py', """                k.endswith('_pretokenized')
                and k[: -len('_pretokenized')] in input_fields_to_include""",
"""                k.endswith('_pretokenized')
                and any(k.startswith(f) for f in input_fields_to_include)""")],
     'a selected field whose name is a prefix of the name of another field with a pretokenized form',
     'records contain a pretokenized field that was not asked for',
     PRE + '''
    import json, tensorflow as tf
    from t5x import infer
    d = tempfile.mkdtemp()
    try:
      ds = tf.data.Dataset.from_tensor_slices({'text': [[1], [2]], 'text_pretokenized': ['a', 'b'],
                                               'text_b': [[1], [2]], 'text_b_pretokenized': ['c', 'd']})
      p = os.path.join(d, 'o')
      infer.write_inferences_to_file(p, ([np.float32(1), np.float32(2)], {}), ds, 'score',
                                     input_fields_to_include=['text'])
      recs = [json.loads(x) for x in open(p)]
      assert [set(r['inputs']) for r in recs] == [{'text', 'text_pretokenized'}] * 2, recs
    finally:
      shutil.rmtree(d)
''')

seed('p02-override-prefix', 'P02', [('t5x/utils.py', """      if pattern.fullmatch(key):""",
"""      if pattern.match(key):""")],
     'an override pattern that matches a proper prefix of the name of another parameter',
     'axis names of a parameter that the override does not fully match are replaced',
     PRE + '''
    from flax.core import freeze
    from flax.linen.partitioning import AxisMetadata
    from t5x import utils
    v = freeze({'params': {'m': {'w': np.ones((2, 2)), 'w_out': np.ones((2, 2))}},
                'params_axes': {'m': {k + '_axes': AxisMetadata(names=('embed', 'mlp')) for k in ('w', 'w_out')}}})
    got = utils.override_params_axes_names(v, [('m/w', ('a', 'b'))])['params_axes']['m']
    assert tuple(got['w_axes'].names) == ('a', 'b'), got
    assert tuple(got['w_out_axes'].names) == ('embed', 'mlp'), got
''')

seed('t07-seed-zero', 'T07', [('t5x/utils.py', """  if seed is None:
""", """  if not seed:
""")],
     'a data set configuration with seed 0',
     'seed 0 is taken for no seed: the order of a shuffled data set changes from run to run',
     PRE + '''
    import seqio, tensorflow as tf
    from unittest import mock
    from t5x import utils
    v = seqio.ByteVocabulary()
    def fn(split, shuffle_files=False, seed=None):
      return tf.data.Dataset.from_tensor_slices({'targets': [[i + 3] for i in range(60)]})
    seqio.TaskRegistry.add('demo', source=seqio.FunctionDataSource(fn, splits=['train']),
                           preprocessors=[], output_features={'targets': seqio.Feature(v, add_eos=False)})
    cfg = utils.DatasetConfig('demo', {'targets': 1}, 'train', 2, True, 0)
    runs = []
    for now in (1000.0, 2345.0):
      with mock.patch.object(utils.time, 'time', lambda now=now: now):
        ds = utils.get_dataset(cfg, 0, 1, seqio.LMFeatureConverter, num_epochs=1)
      runs.append([b['decoder_target_tokens'].ravel().tolist() for b in ds.as_numpy_iterator()])
    assert runs[0] == runs[1], runs
''')

seed('c05-latest-by-text', 'C05', [('t5x/utils.py', """          ckpt_paths = ckpt_paths[-1:]""",
"""          ckpt_paths = [max(ckpt_paths)]""")],
     'a directory whose steps have different numbers of digits (9 and 10)',
     'mode latest restores checkpoint_9 although checkpoint_10 exists',
     PRE + '''
    from t5x import utils
    d = tempfile.mkdtemp()
    try:
      for s in (8, 9, 10):
        os.mkdir(os.path.join(d, f'checkpoint_{s}'))
        open(os.path.join(d, f'checkpoint_{s}', 'checkpoint'), 'w').close()
      _, paths = utils.get_first_valid_restore_config_and_paths(
          [utils.RestoreCheckpointConfig(path=[d], mode='latest')])
      assert [os.path.basename(p) for p in paths] == ['checkpoint_10'], paths
    finally:
      shutil.rmtree(d)
''')

