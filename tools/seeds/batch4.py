import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0])
from mkseed import seed

PRE = '''
    import os, sys, shutil, tempfile
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import prep; prep.prep()
    from unittest import mock
    try:
      import tensorflow_serving
    except ImportError:
      for m in ('', '.apis', '.apis.predict_pb2', '.apis.prediction_log_pb2', '.apis.model_pb2', '.apis.logging_pb2'):
        sys.modules['tensorflow_serving' + m] = mock.MagicMock()
    import numpy as np, seqio, tensorflow as tf
    from t5x import export_lib
    vocab = seqio.ByteVocabulary()
    feats = {k: seqio.Feature(vocab, add_eos=True) for k in ('inputs', 'targets')}
'''

seed('x01-eos-of-long-text', 'X01', [('t5x/export_lib.py', """        t = tf.concat([t[: length - 1], [vocab.eos_id]], axis=0)
      allowed_lengths = bucket_keys.get(k) if bucket_keys else None
      t = truncate_and_pad_tokenized_input(
          t, max_length=length, allowed_lengths=allowed_lengths
      )
      ar_inputs""", """        t = tf.concat([t, [vocab.eos_id]], axis=0)
      allowed_lengths = bucket_keys.get(k) if bucket_keys else None
      t = truncate_and_pad_tokenized_input(
          t, max_length=length, allowed_lengths=allowed_lengths
      )
      ar_inputs""")],
     'a text with at least as many tokens as the feature length',
     'the end mark of a long text is cut off in the exported model, unlike in training',
     PRE + '''
    fn, _ = export_lib.create_preprocessor(None, feats, {'inputs': 4, 'targets': 3})
    got = fn(tf.constant(['ab', 'abcdef']))['encoder_input_tokens'].numpy().tolist()
    assert got == [[100, 101, 1, 0], [100, 101, 102, 1]], got
''')

seed('x01-length-before-eos', 'X01', [('t5x/export_lib.py', """            after_eos = tf.cumsum(
                tf.cast(tf.equal(tokens, vocab.eos_id), tf.int32),
                axis=-1,
            )
""", """            after_eos = tf.cast(tf.equal(tokens, vocab.eos_id), tf.int32)
""")],
     'decoded output with padding or further tokens behind the end mark and token lengths requested',
     'the reported number of tokens before the end mark counts what follows it',
     PRE + '''
    fn = export_lib.create_postprocessor(vocab, 'predict', True, None, True)
    out = fn((tf.constant([[100, 101, 102, 1], [100, 1, 0, 0]]), tf.constant([1., 2.])))
    assert out[3].numpy().tolist() == [3, 1], out[3]
''')

seed('x01-decoder-params-by-name', 'X01', [('t5x/export_lib.py', """    for (name, _, _), value in zip(decoder_params_spec, decoder_params_values):""",
"""    for name, value in zip(
        sorted(name for name, _, _ in decoder_params_spec),
        decoder_params_values,
    ):""")],
     'two or more decoder parameters that are not listed in alphabetical order',
     'values of the decoder parameters of a request are swapped',
     PRE + '''
    for spec in ([('a', tf.int32, []), ('b', tf.int32, [])], [('b', tf.int32, []), ('a', tf.int32, [])]):
      fn, _ = export_lib.create_preprocessor_with_decoder_params(
          None, feats, {'inputs': 4, 'targets': 3}, False,
          create_preprocessor_fn=export_lib.create_preprocessor, decoder_params_spec=spec)
      got = fn(tf.constant(['x']), tf.constant([5]), tf.constant([6]))['decoder_params']
      assert {k: int(v[0]) for k, v in got.items()} == {spec[0][0]: 5, spec[1][0]: 6}, got
''')
