"""X01: exported models."""
import functools
import itertools
import os

import lib_ckpt as lc
import lib_export
from mc import crashfs
from mc import par

TECHNIQUE = 'enum'
LEVEL = 'exploration'
RULE = ('every batch of a set of texts (and token arrays) x sequence lengths x EOS settings x separator x '
        'buckets for each preprocessor; every output shape x option for the postprocessor; every '
        'request; and for every export configuration in the grid every batch size and text, the '
        'saved model loaded again and compared with the live model; distinct = configuration and batch')
ASSUMPTIONS = ['TensorFlow Serving is not installed: its request messages are stand-ins with the same fields',
               'the model is a stand-in whose outputs encode the tokens and the parameters',
               'vocabularies (SeqIO) and jax2tf are trusted']

TEXTS = ['', 'a', 'ab|c', '|xyz', 'a|b|c', 'abcdef', 'ab']


def ids_of(text):
  return [b + 3 for b in text.encode()]


def fit(ids, length, eos, buckets=None):
  """One tokenized text as the model must see it."""
  t = ids[:length - 1] + [1] if eos else list(ids)
  if buckets:
    length = next((b for b in sorted(buckets) if b >= len(t)), max(buckets))
  return (t + [0] * length)[:length]


def rect(rows):
  w = max(map(len, rows))
  return [r + [0] * (w - len(r)) for r in rows]


def encdec_features(inputs, targets, li, lt, ei, et, buckets):
  b = buckets or {}
  enc = [fit(i, li, ei, b.get('inputs')) for i in inputs]
  dec = [fit(t, lt, et, b.get('targets')) for t in targets]
  return dict(encoder_input_tokens=rect(enc), decoder_target_tokens=rect(dec),
              decoder_input_tokens=rect([[0] + d[:-1] for d in dec]),
              decoder_loss_weights=rect([[int(x != 0) for x in d] for d in dec]))


def listed(d):
  import numpy as np
  return {k: np.asarray(v).tolist() for k, v in d.items()}


def features(ei, et):
  import seqio
  v = seqio.ByteVocabulary()
  return dict(inputs=seqio.Feature(v, add_eos=ei), targets=seqio.Feature(v, add_eos=et))


def split(text, sep):
  a, _, b = text.partition(sep)
  return a, b


def preprocessors(ck):
  import tensorflow as tf
  e = lib_export.export_lib()
  batches = [TEXTS, TEXTS[:1], ['ab'], ['a|bcd', 'x|']] + ([TEXTS[::-1], ['a', 'b', 'abc']] if ck.thorough else [])
  tok = [[[5, 6, 7, 8, 9]], [[5, 0, 0, 0, 0], [5, 6, 7, 0, 0]], [[0, 0, 0, 0, 0]], [[5, 0, 7, 0, 0], [5, 6, 7, 8, 9], [1, 1, 0, 0, 0]]]
  lengths = [(5, 4), (3, 2), (8, 3)] if not ck.thorough else [(5, 4), (3, 2), (8, 3), (4, 8), (2, 2), (7, 7)]
  for (li, lt), ei, et, sep, bk, poly in itertools.product(
      lengths, (True, False), (True, False), (None, '|', 'tokens'), (0, 1, 2), (None, 'n')):
    buckets = [None, dict(inputs=sorted({2, li - 1, li})), dict(inputs=[li], targets=sorted({1, lt}))][bk]
    if poly and (bk == 1 or sep == '|') and not ck.thorough:
      continue
    for batch in tok if sep == 'tokens' else batches:
      if sep == 'tokens' and li != 5:
        continue
      n = None if poly else len(batch)
      case = dict(lengths=(li, lt), add_eos=(ei, et), separator=sep, buckets=buckets, batch=batch, batch_size=n)
      if sep == 'tokens':
        ins, tgt = batch, [[0] * 5 for _ in batch]
      else:
        ins, tgt = zip(*[(ids_of(a), ids_of(b)) for a, b in
                         [(split(t, sep) if sep else (t, '')) for t in batch]])
      if sep == 'tokens' or sep is None:
        # no target text; token arrays have a target of zeros
        pass
      copy = {k: list(v) for k, v in buckets.items()} if buckets else None
      ck.case(str(case), sample=case if len(batch) == 2 else None)
      kw = dict(split_separator=sep if sep != 'tokens' else None, bucket_keys=copy)
      for what, make in (('encoder-decoder', e.create_preprocessor), ('dual encoder', e.create_dual_encoder_preprocessor)):
        try:
          fn, sig = make(n, features(ei, et), dict(inputs=li, targets=lt), sep == 'tokens', input_tensor_name='txt', **kw)
          got = listed(fn(tf.constant(batch)))
        except Exception as ex:  # pylint: disable=broad-except
          ck.violation(f'{what} preprocessor failed: {type(ex).__name__}: {str(ex)[:200]}', case)
          continue
        want = encdec_features(ins, tgt, li, lt, ei, et, buckets)
        if what == 'dual encoder':
          want = dict(left_encoder_input_tokens=want['encoder_input_tokens'],
                      right_encoder_input_tokens=want['decoder_target_tokens'])
        ck.expect(got == want, f'features of the {what} preprocessor', case, want, got)
        shape = (n, li) if sep == 'tokens' else (n,)
        ck.expect(len(sig) == 1 and tuple(sig[0].shape.as_list()) == shape and sig[0].name == 'txt' and
                  sig[0].dtype == (tf.int32 if sep == 'tokens' else tf.string), f'input signature of the {what} preprocessor',
                  case, shape, str(sig))
  for keys in ([2, 4], [6], [5, 7]):
    ck.case(('buckets', str(keys)))
    ck.expect_raises('buckets that do not end at the feature length', lambda: e.create_preprocessor(
        1, features(True, True), dict(inputs=5, targets=5), bucket_keys=dict(inputs=list(keys)))[0](tf.constant(['ab'])),
                     keys, ValueError)


def decoder_only(ck):
  import tensorflow as tf
  e = lib_export.export_lib()
  rows = [[5, 6, 7], [5, 0, 0], [0, 0, 0], [5, 6, 0], [5, 0, 7]]
  for li, lt in ((3, 2), (3, 5), (1, 1), (2, 2)):
    total = li + lt
    for eos, feat in itertools.product((True, False), ('inputs', 'targets')):
      for k in (1, 2, 3) if not ck.thorough else (1, 2, 3, 4, 5):
        for batch in itertools.combinations(rows, k):
          for texts in (False, True):
            if texts and (len(set(map(len, batch))) != 1 or any(0 in r for r in batch)):
              continue
            case = dict(lengths=(li, lt), add_eos=eos, feature=feat, batch=batch, texts=texts)
            ck.case(str(case))
            f = features(eos, eos)
            data = [''.join(chr(x - 3 + 96) for x in r) for r in batch] if texts else [list(r) for r in batch]
            try:
              got = listed(e.create_decoder_preprocessor(f, dict(inputs=li, targets=lt), not texts, feat)(tf.constant(data)))
            except Exception as ex:  # pylint: disable=broad-except
              ck.violation(f'the decoder preprocessor failed: {type(ex).__name__}: {str(ex)[:200]}', case)
              continue
            want = dict(decoder_target_tokens=[], decoder_input_tokens=[], decoder_loss_weights=[], decoder_causal_attention=[])
            for r in data:
              t = (ids_of(r) if texts else r) + ([1] if eos else [])
              n = max([i + 1 for i, x in enumerate(t) if x] or [0]) if feat == 'inputs' else 0
              t = (t + [0] * total)[:total]
              want['decoder_target_tokens'].append(t)
              want['decoder_input_tokens'].append([0] + t[:-1])
              want['decoder_loss_weights'].append([int((i < n) != (x != 0)) for i, x in enumerate(t)])
              want['decoder_causal_attention'].append([int(i < n + 1) if feat == 'inputs' else 0 for i in range(total)])
            ck.expect(got == want, 'features of the decoder preprocessor', case, want, got)


def from_task(ck):
  import seqio
  import tensorflow as tf
  e = lib_export.export_lib()
  v = seqio.ByteVocabulary()

  class Model:
    FEATURE_CONVERTER_CLS = seqio.EncDecFeatureConverter

  def upper(ds):
    return ds.map(lambda ex: dict(ex, inputs=tf.strings.upper(ex['inputs'])))

  def fn(split, shuffle_files=False, seed=None):
    return tf.data.Dataset.from_tensor_slices({'inputs': ['x'], 'targets': ['y'], 'number': tf.constant([3], tf.int64)})

  seqio.TaskRegistry.add(
      'exported', source=seqio.FunctionDataSource(fn, splits=['train']),
      preprocessors=[upper, seqio.CacheDatasetPlaceholder(), seqio.preprocessors.tokenize, seqio.preprocessors.append_eos_after_trim],
      output_features=dict(inputs=seqio.Feature(v), targets=seqio.Feature(v)))

  def example(i, t):
    ex = tf.train.Example()
    if i is not None:
      ex.features.feature['inputs'].bytes_list.value.append(i.encode())
    if t is not None:
      ex.features.feature['targets'].bytes_list.value.append(t.encode())
    return ex.SerializeToString()

  for batch, (li, lt), pre, serialized, fixed in itertools.product(
      ([('ab', 'c')], [('abcdef', ''), ('', 'xyz'), ('q', 'r')], [('aa', 'bb'), ('cc', 'dd')]),
      ((4, 3), (2, 6)), (False, True), (True, False), (True, False)):
    case = dict(batch=batch, lengths=(li, lt), precache=pre, serialized=serialized, fixed_batch=fixed)
    ck.case(str(case), sample=case)
    data = (tf.constant([example(i, t) for i, t in batch]) if serialized else
            dict(inputs=tf.constant([i for i, _ in batch]), targets=tf.constant([t for _, t in batch])))
    try:
      f, _ = e.create_preprocessor_from_task(len(batch) if fixed else None, None, dict(inputs=li, targets=lt), False,
                                             model=Model(), task_name='exported', serialized_examples=serialized, run_precache=pre)
      got = listed(f(data))
    except Exception as ex:  # pylint: disable=broad-except
      ck.violation(f'the preprocessor of a task failed: {type(ex).__name__}: {str(ex)[:200]}', case)
      continue
    want = encdec_features([ids_of(i.upper() if pre else i) for i, _ in batch], [ids_of(t) for _, t in batch],
                           li, lt, True, True, None)
    ck.expect(got == want, 'features of the preprocessor of a task', case, want, got)
  ck.case('missing field')
  f, _ = e.create_preprocessor_from_task(1, None, dict(inputs=3, targets=3), False, model=Model(), task_name='exported')
  got = listed(f(tf.constant([example('ab', None)])))
  want = encdec_features([ids_of('ab')], [[]], 3, 3, True, True, None)
  ck.expect(got == want, 'a missing field is not empty', 'missing targets', want, got)


def with_decoder_params(ck):
  import tensorflow as tf
  e = lib_export.export_lib()
  specs = [('temperature', tf.float32, []), ('topk', tf.int32, [2]), ('topp', tf.float32, ())]
  for k in (1, 2, 3):
    for spec in itertools.permutations(specs, k):
      for n in (None, 2):
        case = dict(decoder_params=[s[0] for s in spec], batch_size=n)
        ck.case(str(case), sample=case)
        f, sig = e.create_preprocessor_with_decoder_params(
            n, features(True, True), dict(inputs=4, targets=3), False, create_preprocessor_fn=e.create_preprocessor,
            decoder_params_spec=spec)
        ck.expect([(s.name, s.dtype, s.shape.as_list()) for s in sig[1:]] ==
                  [(s[0], s[1], [n] + list(s[2])) for s in spec] and sig[0].dtype == tf.string,
                  'signature with decoder parameters', case, None, str(sig))
        vals = [tf.fill([2] + list(s[2]), tf.cast(i + 1, s[1])) for i, s in enumerate(spec)]
        got = f(tf.constant(['ab', 'c']), *vals)
        ck.expect({k: v.numpy().tolist() for k, v in got['decoder_params'].items()} ==
                  {s[0]: v.numpy().tolist() for s, v in zip(spec, vals)}, 'decoder parameters', case, None, str(got))
        ck.expect(listed({k: v for k, v in got.items() if k != 'decoder_params'}) == encdec_features(
            [ids_of('ab'), ids_of('c')], [[], []], 4, 3, True, True, None), 'features beside decoder parameters', case)


def postprocessing(ck):
  import numpy as np
  import seqio
  import tensorflow as tf
  e = lib_export.export_lib()
  v = seqio.ByteVocabulary()
  row = [[100, 101, 1, 0], [100, 1, 101, 1], [100, 101, 102, 103], [1, 0, 0, 0], [0, 0, 0, 0]]
  shapes = [[row[0]], row, row[::-1], [[row[0], row[1]], [row[2], row[3]]]]
  for toks, decode, names, length in itertools.product(shapes, (True, False), (None, ['o', 's'], list('abcd'), ['x']), (False, True)):
    case = dict(tokens=toks, decode=decode, names=names, lengths=length)
    ck.case(str(case), sample=case)
    t, s = tf.constant(toks), tf.constant(np.arange(len(toks), dtype=np.float32))
    fn = e.create_postprocessor(v, 'predict', decode, names, length)
    flat = [r for x in toks for r in (x if isinstance(x[0], list) else [x])]
    text = [bytes(i - 3 for i in r[:r.index(1)] if i >= 3).decode() if 1 in r else bytes(i - 3 for i in r if i >= 3).decode() for r in flat]
    before = [r.index(1) if 1 in r else 4 for r in flat]
    want = [text if decode else flat, s.numpy().tolist()] + ([[4] * len(flat), before] if decode and length else [])
    if names is not None and len(names) != len(want):
      ck.expect_raises('output names that do not fit', lambda: fn((t, s)), case, ValueError)
      continue
    ok, got = ck.guarded('postprocessing', lambda: fn((t, s)), case)
    if not ok:
      continue
    vals = list(got.values()) if names else list(got)
    ck.expect(not names or list(got) == names, 'names of the outputs', case, names, str(got))
    def flatten(x):
      x = x.numpy() if hasattr(x, 'numpy') else np.asarray(x)
      return x
    out = [flatten(x) for x in vals]
    g = [([x.decode() for x in out[0].ravel()] if decode else out[0].reshape(-1, 4).tolist()), out[1].tolist()]
    g += [o.ravel().tolist() for o in out[2:]]
    ck.expect(g == want, 'postprocessed outputs', case, want, g)
  for names in (None, ['score'], ['a', 'b']):
    ck.case(('score', str(names)))
    fn = e.create_postprocessor(v, 'score', True, names)
    x = (tf.constant([1., 2.]),)
    if names == ['a', 'b']:
      ck.expect_raises('output names that do not fit', lambda: fn(x), names, ValueError)
    else:
      got = fn(x)
      got = got['score'] if names else got[0]
      ck.expect(got.numpy().tolist() == [1., 2.], 'scores are passed through', names, None, str(got))


def requests(ck):
  import numpy as np
  import seqio
  import tensorflow as tf
  e = lib_export.export_lib()
  from tensorflow_serving.apis import prediction_log_pb2
  sc = crashfs.Scratch()
  spec = [('temperature', tf.float32, ()), ('topk', tf.int32, (2,))]

  def read(root):
    out = []
    for r in tf.data.TFRecordDataset(os.path.join(root, 'assets.extra', 'tf_serving_warmup_requests')).as_numpy_iterator():
      q = prediction_log_pb2.PredictionLog.FromString(r).predict_log.request
      out.append((q.model_spec.name, q.model_spec.signature_name,
                  {k: tf.make_ndarray(x).tolist() for k, x in q.inputs.items()},
                  {k: tf.dtypes.as_dtype(x.dtype).name for k, x in q.inputs.items()}))
    return out

  for texts, sizes, params, gen in itertools.product(
      (['ab'], ['ab', 'c', 'd'], [[1, 2], [3, 4]]), ([None], [1], [2, 3], [4, None, 5]), (None, spec, spec[1:]), (False, True)):
    case = dict(examples=texts, batch_sizes=sizes, decoder_params=[s[0] for s in params or ()], generated=gen)
    ck.case(str(case), sample=case)
    root = sc.new()
    groups = [['q'], ['rr', 's']] if gen else [texts]
    ok, _ = ck.guarded('writing warmup requests', lambda: e.write_warmup_examples(
        texts, root, 'm', 'sig', batch_sizes=sizes, input_tensor_name='in', decoder_params_spec=params,
        generate_examples_fn=(lambda: groups) if gen else None), case)
    if ok:
      want = []
      for g, n in itertools.product(groups, sizes):
        b = g if n is None else [g[i % len(g)] for i in range(n)]
        text = isinstance(b[0], str)
        ins = {'in': [x.encode() for x in b] if text else b}
        typ = {'in': 'string' if text else 'int32'}
        for name, d, sh in params or ():
          ins[name] = np.zeros((len(b),) + tuple(sh)).tolist()
          typ[name] = d.name
        want.append(('m', 'sig', ins, typ))
      got = read(root)
      ck.expect(got == want, 'warmup requests', case, want, got)
    sc.clear(root)
  v = seqio.ByteVocabulary()
  for lengths, eos in itertools.product(([1], [1, 2, 5], [8, 3, 8]), (False, True)):
    ck.case(('lengths', str(lengths), eos))
    for bound in (10, 2, 1):
     ok, exs = ck.guarded('generating examples', lambda: e.generate_examples_with_sequence_lengths(
         list(lengths), vocabulary=v, leave_room_for_eos=eos, chars_per_token_upper_bound=bound), (lengths, eos, bound))
     for ex, l in zip(exs if ok else [], lengths):
      ck.expect(len(ex) == 1 and len(v.encode(ex[0])) == l - eos, 'length of a generated example', dict(length=l, eos=eos), l - eos, ex)
    got = e.generate_examples_with_sequence_lengths(list(lengths), single_token_example='Z', leave_room_for_eos=eos)
    ck.expect(got == [['Z' * (l - eos)] for l in lengths], 'examples of repeated tokens', dict(lengths=lengths, eos=eos), None, got)
  for given, want in [('/a/b/3', dict(tpu='/a/b/3', cpu='/a/b_cpu/3')), (dict(cpu='/x'), dict(cpu='/x')),
                      (dict(tpu='/a/1', cpu='/c/9'), dict(tpu='/a/1', cpu='/c/9')), (dict(tpu='/q/12'), dict(tpu='/q/12', cpu='/q_cpu/12')),
                      ('/a/b/x3', None), (dict(), None), (None, None), (dict(gpu='/a/1'), None)]:
    ck.case(('dirs', str(given)))
    if want is None:
      ck.expect_raises('an output directory without version', lambda: e._standardize_output_dirs(given), str(given), ValueError)  # pylint: disable=protected-access
    else:
      got = e._standardize_output_dirs(given)  # pylint: disable=protected-access
      ck.expect(got == want, 'output directories', given, want, got)


# -------------------------------------------------------------- whole exports


def model():
  import flax
  import flax.linen.partitioning as fp
  import jax
  import jax.numpy as jnp
  import seqio

  class Model:
    FEATURE_CONVERTER_CLS = seqio.EncDecFeatureConverter
    output_vocabulary = input_vocabulary = seqio.ByteVocabulary()

    def get_initial_variables(self, rng, input_shapes, input_types=None):
      return flax.core.freeze({'params': {'a': {'w': jax.random.normal(rng, (2,)), 'b': jnp.ones(())}},
                               'params_axes': {'a': {'w_axes': fp.AxisMetadata(names=('embed',)), 'b_axes': fp.AxisMetadata(names=())}}})

    def predict_batch_with_aux(self, params, batch, decoder_params=None, **kw):
      x = batch['encoder_input_tokens']
      y = jnp.where(x > 1, x + params['a']['b'].astype(x.dtype), x)
      if decoder_params:
        y = jnp.where(y > 1, y - decoder_params['shift'][:, None] * 2 - decoder_params['topk'].sum(-1)[:, None], y)
      return y, {'scores': (x * params['a']['w'][0]).sum(-1).astype(jnp.float32)}

    def score_batch(self, params, batch):
      return ((batch['encoder_input_tokens'].sum(-1) * params['a']['w'][1]) +
              (batch['decoder_target_tokens'] * batch['decoder_loss_weights']).sum(-1)).astype(jnp.float32)

    def other(self, params, batch, scale=1):
      return {'z': batch['encoder_input_tokens'] * scale, 'a': batch['decoder_target_tokens']}

  return Model()


def export(item):
  """Saves one export and loads it again; returns what every batch gives."""
  import logging
  import flax
  import jax.numpy as jnp
  import numpy as np
  import tensorflow as tf
  from t5x import checkpoints, partitioning, utils
  from t5x import train_state as ts
  logging.disable(logging.INFO)
  e = lib_export.export_lib()
  mode, batch_size, part, dtype, tokenized, decode, sep, extra, batches = item
  sc = crashfs.Scratch()
  root = sc.new()
  m = model()
  p = partitioning.PjitPartitioner(num_partitions=1)
  try:
    v = flax.core.unfreeze(m.get_initial_variables(lc_rng(), None))
    v['params'] = {'a': {'w': np.array([0.5, 3.0], np.float32), 'b': np.array(2.0, np.float32)}}
    st = ts.FlaxOptimTrainState.create(lc.optimizer_def('sgd'), flax.core.freeze(v)).replace_step(jnp.array(0))
    c = checkpoints.Checkpointer(st, p, root)
    c.save(st.replace_step(jnp.array(3)))
    c.save(st.replace_params({'a': {'w': np.array([1.5, 2.0], np.float32), 'b': np.array(1.0, np.float32)}}).replace_step(jnp.array(12)))
    im = mode if isinstance(mode, str) else e.CustomInferenceMode('other', fetch_output=lambda o: e.flatten(o), model_fn_const_kwargs=dict(scale=3))
    cfg = utils.RestoreCheckpointConfig(path=root, mode='latest', dtype=dtype) if part else utils.RestoreCheckpointConfig(
        path=os.path.join(root, 'checkpoint_12'), mode='specific', dtype=dtype)
    out = os.path.join(root, 'out', '7')
    warm = [[5, 6, 0, 0]] if tokenized else ['ab', 'c', 'd']
    kw = {}
    if sep:
      kw['create_preprocessor_fn'] = lambda batch_size, f, l, t: e.create_preprocessor(batch_size, f, l, t, split_separator=sep)
    cls = e.ExportableModule
    if extra == 'batching':
      cls = functools.partial(cls, use_batch_function=True, batch_timeout_micros=1000,
                              **({} if batch_size else dict(allowed_batch_sizes=[2, 3, 6])))
    elif extra == 'nojit':
      cls = functools.partial(cls, jit_compile=False)
    elif extra == 'decoder params':
      kw['create_preprocessor_fn'] = lambda batch_size, f, l, t: e.create_preprocessor_with_decoder_params(
          batch_size, f, l, t, create_preprocessor_fn=e.create_preprocessor,
          decoder_params_spec=[('shift', tf.int32, []), ('topk', tf.int32, [2])])
      kw['write_warmup_example_fn'] = functools.partial(
          e.write_warmup_examples, decoder_params_spec=[('shift', tf.int32, ()), ('topk', tf.int32, (2,))])
    e.save(model=m, inference_mode=im, restore_checkpoint_cfg=cfg, exportable_module_cls=cls,
           partitioner=p if part else None, output_features=features(True, True), task_feature_lengths=dict(inputs=4, targets=3),
           batch_size=batch_size, output_dir=out, model_name='mm', warmup_examples=warm, tokenized_inputs=tokenized,
           decode_outputs=decode, native_lowering_platforms=['cpu'], **kw)
    loaded = tf.saved_model.load(os.path.join(root, 'out_cpu', '7'))
    fn = loaded.signatures['serving_default']
    stored = tf.train.load_checkpoint(os.path.join(root, 'out_cpu', '7', 'variables', 'variables')).get_variable_to_dtype_map()
    variables = sorted(d.name for d in stored.values() if d != tf.string)
    got = []
    for b in batches:
      more = (dict(shift=tf.constant(list(range(1, len(b) + 1))), topk=tf.constant([[i, 2] for i in range(len(b))]))
              if extra == 'decoder params' else {})
      r = fn(text_batch=tf.constant(b), **more)
      got.append([r[k].numpy().tolist() for k in sorted(r)])
    from tensorflow_serving.apis import prediction_log_pb2
    reqs = []
    for r in tf.data.TFRecordDataset(os.path.join(root, 'out_cpu', '7', 'assets.extra', 'tf_serving_warmup_requests')).as_numpy_iterator():
      q = prediction_log_pb2.PredictionLog.FromString(r).predict_log.request
      ins = {k: tf.make_ndarray(x) for k, x in q.inputs.items()}
      fn(**{k: tf.constant(x) for k, x in ins.items()})  # the exported model must accept its own warmup requests
      reqs.append((q.model_spec.name, q.model_spec.signature_name, {k: x.tolist() for k, x in ins.items()}))
    return got, variables, reqs, None
  except Exception as ex:  # pylint: disable=broad-except
    return None, None, None, f'{type(ex).__name__}: {str(ex)[:400]}'
  finally:
    sc.clear(root)


def lc_rng():
  import jax
  return jax.random.PRNGKey(7)


def exports(ck):
  import numpy as np
  texts = [['ab'], ['', 'abcdef'], ['c|d', '|', 'xy|zw'], ['a', 'b', 'c', 'd', 'e']]
  toks = [[[5, 6, 7, 8]], [[5, 0, 0, 0], [0, 0, 0, 0]], [[5, 6, 0, 0]] * 3]
  items = []
  for mode, n, part in itertools.product(('predict', 'score', 1), (None, 2), (True, False)):
    if part and n is None:
      continue  # a partitioner needs a batch size
    for tokenized in (False, True):
      if tokenized and mode != 'predict' and not ck.thorough:
        continue
      bs = [b for b in (toks if tokenized else texts) if n is None or len(b) == n]
      items.append((mode, n, part, 'float32' if part else (None if mode == 'score' else 'float32'), tokenized, None,
                    '|' if mode == 'score' and not tokenized else None, None, bs))
  items.append(('predict', None, False, None, False, False, None, None, texts))
  items.append(('predict', 2, True, None, True, True, None, None, [toks[1]]))
  two = [b for b in texts if len(b) == 2]
  items.append(('predict', None, False, 'float32', False, None, None, 'decoder params', texts))
  items.append(('predict', 2, True, 'float32', False, False, None, 'decoder params', two))
  items.append(('predict', None, False, 'float32', False, None, None, 'batching', texts))
  items.append(('score', 2, False, 'float32', False, None, '|', 'batching', two))
  items.append(('score', 2, True, 'float32', False, None, '|', 'nojit', two))
  if ck.thorough:
    have = {i[:-1] for i in items}
    for mode, part, tokenized, decode, extra in itertools.product(
        ('predict', 'score'), (True, False), (True, False), (None, True, False), (None, 'nojit', 'batching', 'decoder params')):
      if extra == 'decoder params' and (mode == 'score' or tokenized):
        continue
      it = (mode, 2, part, 'float32', tokenized, decode, None, extra)
      if it not in have:
        items.append(it + ([toks[1]] if tokenized else two,))
  for item, (got, variables, reqs, err) in zip(items, par.pmap('x01', 'export', items, jobs=7)):
    mode, n, part, dtype, tokenized, decode, sep, extra, bs = item
    case = dict(mode=mode, batch_size=n, partitioner=part, dtype=dtype, tokenized=tokenized, decode=decode, separator=sep, variant=extra)
    ck.trace()
    if err:
      ck.case(str(case))
      ck.violation(f'exporting failed: {err}', case)
      continue
    w = [[5, 6, 0, 0]] if tokenized else [b'ab', b'c', b'd']
    sizes = [2, 3, 6] if extra == 'batching' and n is None else [n]
    if n is not None:
      w = (w + [[0] * 4 if tokenized else b''] * n)[:n]
    want = [('mm', 'serving_default', dict(
        {'text_batch': [w[i % len(w)] for i in range(k or len(w))]},
        **(dict(shift=[0] * (k or len(w)), topk=[[0, 0]] * (k or len(w))) if extra == 'decoder params' else {}))) for k in sizes]
    ck.expect(reqs == want, 'warmup requests of the exported model', case, want, reqs)
    ck.expect(variables == ['float32', 'float32'], 'types of the exported parameters', case, 'float32', variables)
    text_out = (not tokenized) if decode is None else decode
    for b, g in zip(bs, got):
      ck.case(str((case, b)), sample=dict(case, batch=b))
      if tokenized:
        ins, tgt = b, [[0] * 4 for _ in b]
      else:
        ins, tgt = zip(*[(ids_of(x), ids_of(y)) for x, y in [split(t, sep) if sep else (t, '') for t in b]])
      f = encdec_features(ins, tgt, 4, 3, True, True, None)
      x, y, w = (np.array(f[k]) for k in ('encoder_input_tokens', 'decoder_target_tokens', 'decoder_loss_weights'))
      if mode == 'predict':
        z = np.where(x > 1, x + 1, x)
        if extra == 'decoder params':
          z = np.where(z > 1, z - (np.arange(len(b)) * 3 + 4)[:, None], z)
        out = ([bytes(int(i) - 3 for i in (r[:list(r).index(1)] if 1 in r else r) if i >= 3) for r in z] if text_out else z.tolist())
        want = [out, (x * 1.5).sum(-1).tolist()]
      elif mode == 'score':
        want = [(x.sum(-1) * 2.0 + (y * w).sum(-1)).tolist()]
      else:
        want = [y.tolist(), (x * 3).tolist()]
      ck.expect(g == want, 'the exported model differs from the live model', dict(case, batch=b), want, g)


def check(ck):
  ck.part('preprocessors')
  preprocessors(ck)
  ck.part('decoder-only preprocessor')
  decoder_only(ck)
  ck.part('preprocessor of a task')
  from_task(ck)
  ck.part('decoder parameters')
  with_decoder_params(ck)
  ck.part('postprocessors')
  postprocessing(ck)
  ck.part('requests and directories')
  requests(ck)
  ck.part('whole exports')
  exports(ck)
