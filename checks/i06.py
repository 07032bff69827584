"""I06: the records inference writes."""
import itertools
import json
import os

from mc import crashfs
from mc import par

TECHNIQUE = 'enum'
LEVEL = 'exploration'
RULE = ('every combination of mode, selected fields, ids and auxiliary value type for every kind of '
        'prediction row; every set of chunk files up to a bound; whole inference runs for every '
        'number of examples, chunk size, shard count and vocabulary choice in the grid; tasks made '
        'from every small set of TFRecord files; distinct = combination')
ASSUMPTIONS = ['the vocabulary\'s own decoding (SeqIO) is trusted',
               'the model is a stand-in whose outputs encode the example and the random key']

L = 6


# -------------------------------------------------------------- the records


def rows():
  """Prediction rows: no padding, padding at the end, in the middle, at once."""
  return [[75, 76, 77, 78], [75, 76, 1, 0], [75, 0, 76, 0], [0, 75, 76, 77], [80, 81, 82, 0], [90, 91, 92, 93]]


def inputs(n):
  return [dict(inputs_pretokenized=f'in {i}'.encode(), targets_pretokenized=f'öut {i}'.encode(),
               inputs=[i, i + 1, 1], targets=[i + 2, 1, 0], number=i * 3, weight=i / 4, name=f'n{i}'.encode(),
               inputs_more=i, inputs_more_pretokenized=f'more {i}'.encode(), in_pretokenized=b'in', more_inputs_pretokenized=b'm')
          for i in range(n)]


def plain(v):
  """The value as a JSON reader sees it."""
  import numpy as np
  if isinstance(v, bytes):
    return v.decode()
  if isinstance(v, dict):
    return {k: plain(x) for k, x in v.items()}
  if isinstance(v, (list, tuple)):
    return [plain(x) for x in v]
  if hasattr(v, 'dtype'):
    return np.asarray(v).astype(np.float64).tolist()
  return v


def aux_kinds(n):
  import jax.numpy as jnp
  import numpy as np
  return {
      'none': {},
      'list of numbers': dict(s=[i + 0.5 for i in range(n)]),
      'numpy': dict(s=np.arange(n) * 2, v=np.arange(3.0 * n).reshape(n, 3)),
      'numpy scalars': dict(s=[np.float32(i / 2) for i in range(n)], k=[np.int32(i) for i in range(n)]),
      'jax': dict(s=[jnp.float32(i) for i in range(n)], b=[jnp.bfloat16(i * 2) for i in range(n)]),
      'nested': dict(a=dict(b=[i for i in range(n)], c=np.eye(n)), d=[[i, [i]] for i in range(n)][:n]),
      'text': dict(t=[f'x{i}'.encode() for i in range(n)]),
  }


def aux_of(aux, i):
  """Values of example i."""
  return {k: aux_of(v, i) if isinstance(v, dict) else plain(v[i]) for k, v in aux.items()}


FIELDS = [None, [], ['inputs'], ['targets', 'number'], ['inputs_pretokenized'], ['name', 'weight', 'absent']]


def wanted(inp, everything, fields):
  out = {}
  for k, v in inp.items():
    stem = k[:-len('_pretokenized')] if k.endswith('_pretokenized') else None
    if everything or (stem is not None if fields is None else k in fields or stem in fields):
      out[k] = plain(v)
  return out


def numbers_equal(a, b):
  """JSON equality up to 1 == 1.0."""
  if isinstance(a, dict) and isinstance(b, dict):
    return a.keys() == b.keys() and all(numbers_equal(a[k], b[k]) for k in a)
  if isinstance(a, list) and isinstance(b, list):
    return len(a) == len(b) and all(numbers_equal(x, y) for x, y in zip(a, b))
  return a == b


def records(ck):
  import numpy as np
  import seqio
  import tensorflow as tf
  from t5x import infer as infer_lib

  voc = seqio.ByteVocabulary()
  root = crashfs.Scratch().new()
  path = os.path.join(root, 'out.jsonl')
  for n in (1, 6) if not ck.thorough else (1, 2, 3, 6):
    inp = inputs(n)
    ds = tf.data.Dataset.from_tensor_slices({k: [x[k] for x in inp] for k in inp[0]})
    decoded = [voc.decode_tf(tf.constant(r)).numpy().decode() for r in rows()]
    for mode, (kind, aux), (everything, fields), ids in itertools.product(
        ('predict', 'score', 'predict_with_aux'), aux_kinds(n).items(),
        [(True, None)] + [(False, f) for f in FIELDS], (False, True)):
      if (mode == 'predict') != (kind == 'none') and mode != 'score':
        continue
      scores = [np.float32(i - 0.25) for i in range(n)]
      preds = scores if mode == 'score' else [np.array(r, np.int32) for r in rows()[:n]]
      case = dict(mode=mode, aux=kind, all_inputs=everything, fields=fields, output_ids=ids, examples=n)
      try:
        infer_lib.write_inferences_to_file(
            path, (preds, aux), ds, mode, None if mode == 'score' else voc,
            include_all_inputs=everything, input_fields_to_include=fields, output_ids=ids)
        got = [json.loads(x) for x in open(path, encoding='utf-8').read().splitlines()]
      except Exception as e:  # pylint: disable=broad-except
        ck.violation(f'writing the records failed: {type(e).__name__}: {str(e)[:200]}', case)
        continue
      want = []
      for i in range(n):
        r = dict(inputs=wanted(inp[i], everything, fields))
        if mode == 'score':
          r['score'] = float(scores[i])
          if aux:
            r['aux'] = aux_of(aux, i)
        else:
          r['prediction'] = decoded[i]
          if ids:
            row = rows()[i]
            r['prediction_tokens'] = row[:row.index(0)] if 0 in row else row
          if mode == 'predict_with_aux':
            r['aux'] = aux_of(aux, i)
        want.append(r)
      ck.case((n, mode, kind, everything, str(fields), ids), sample=case)
      if not numbers_equal(got, want):
        bad = next((i for i, (a, b) in enumerate(zip(got, want)) if not numbers_equal(a, b)), None)
        ck.violation('the records are not what was asked for', dict(case, record=bad),
                     want[bad] if bad is not None else len(want), got[bad] if bad is not None else len(got))
    # What cannot be written is refused.
    one = [np.array(r, np.int32) for r in rows()[:n]]
    for what, args, kw in [
        ('all inputs and selected fields', ('predict', voc), dict(include_all_inputs=True, input_fields_to_include=['inputs'])),
        ('no vocabulary', ('predict', None), {}), ('no vocabulary', ('predict_with_aux', None), {}),
        ('an unknown mode', ('guess', voc), {})]:
      ck.case((n, what, args[0]))
      try:
        infer_lib.write_inferences_to_file(path, (one, {}), ds, *args, **kw)
        ck.violation(f'{what} was accepted', dict(mode=args[0], examples=n))
      except ValueError:
        pass


# ------------------------------------------------------------------ merging


def merging(ck):
  from t5x import infer as infer_lib
  sc = crashfs.Scratch()
  name = 't-predict.jsonl-00000-of-00002'
  numbers = [0, 1, 2, 9, 10, 11] if not ck.thorough else [0, 1, 2, 3, 8, 9, 10, 11, 12]
  sets = [c for k in range(len(numbers) + 1) for c in itertools.combinations(numbers, k)]
  sets += [tuple(range(k)) for k in (4, 10, 11, 12, 13, 101)]
  for chunks in sets:
    for decoys in (False, True):
      out = sc.new()
      tmp = os.path.join(out, 'tmp')
      os.makedirs(tmp)
      want = b''
      for c in sorted(chunks):
        data = b'' if c == 1 else b''.join(b'%d.%d\n' % (c, i) for i in range(c % 3 + 1))
        open(os.path.join(tmp, f'{name}-chunk{c:05}'), 'wb').write(data)
        want += data
      if decoys:
        for x in [f'{name}-chunk00000.COMPLETED', f'{name}-chunk00003.COMPLETED', 'input.ckpt', '2.ckpt.index',
                  name.replace('00000-of', '00001-of') + '-chunk00000', f'other-{name}-chunk00003']:
          open(os.path.join(tmp, x), 'w').write('decoy\n')
        open(os.path.join(out, name), 'w').write('what an interrupted merge left behind\n' * 40)
      case = dict(chunks=chunks, decoys=decoys)
      ck.case((chunks, decoys), sample=case if len(chunks) < 4 else None)
      complete = bool(chunks) and sorted(chunks) == list(range(len(chunks)))
      try:
        infer_lib.merge_chunks_to_file(out, name, tmp, None)
        if not complete:
          ck.violation('chunks were merged although one is missing', case)
        elif open(os.path.join(out, name), 'rb').read() != want:
          ck.violation('the merged file is not the concatenation of the chunks', case)
      except Exception as e:  # pylint: disable=broad-except
        if complete:
          ck.violation(f'merging failed: {type(e).__name__}: {str(e)[:200]}', case)
      sc.clear(out)


# --------------------------------------------------------------- whole runs


def vocabs():
  import i01
  import seqio
  import tensorflow as tf
  global _V
  if '_V' not in globals():

    class Marked(seqio.ByteVocabulary):
      """Decodes differently from the input vocabulary."""

      def _decode_tf(self, ids):
        return tf.strings.join(['<', super()._decode_tf(ids), '>'])

      def __eq__(self, other):
        return type(self) is type(other)

      def __hash__(self):
        return 1

    _V = (i01.vocab(), Marked())
  return _V


def task(name, n):
  import seqio
  import tensorflow as tf
  full = f'rec_{name}_{n}'
  if full not in seqio.TaskRegistry.names():

    def fn(split, shuffle_files=False, seed=None):
      return tf.data.Dataset.from_tensor_slices(
          {'inputs': [f'{name}{i}' for i in range(n)], 'targets': [f'{name}{i}' for i in range(n)]})

    vi, vo = vocabs()
    seqio.TaskRegistry.add(
        full, source=seqio.FunctionDataSource(fn, splits=['infer']),
        preprocessors=[seqio.preprocessors.tokenize, seqio.preprocessors.append_eos],
        output_features=dict(inputs=seqio.Feature(vi), targets=seqio.Feature(vo)))
  return full


def run(item):
  """One whole run; returns the records of every output file."""
  import i01
  import seqio
  from t5x import infer as infer_lib
  from t5x import utils
  tasks, batch, period, shards, mode, feature, numpy_aux, extension, slashes = item
  w = i01.world()
  names = [task(*t) for t in tasks]
  if len(names) > 1:
    mix = 'recmix_' + '_'.join(names)
    if mix not in seqio.MixtureRegistry.names():
      seqio.MixtureRegistry.add(mix, list(names), default_rate=1.0)
  m = i01.model()
  m.input_vocabulary, m.output_vocabulary = vocabs()
  out = w['scratch'].new()
  try:
    for s in range(shards):
      infer_lib.infer(
          mode=mode, model=m,
          dataset_cfg=utils.DatasetConfig(
              mixture_or_task_name=names[0] if len(names) == 1 else mix,
              task_feature_lengths=dict(inputs=L, targets=L), split='infer', batch_size=batch,
              shuffle=False, seed=0),
          restore_checkpoint_cfg=utils.RestoreCheckpointConfig(path=w['ckpt'], mode='specific'),
          partitioner=w['part'], output_dir=out.replace('/', '//') + '/' if slashes else out,
          checkpoint_period=period, shard_id=s, num_shards=shards, output_vocab_feature_name=feature,
          file_extension=extension, keep_aux_as_numpy=numpy_aux, summarize_config_fn=lambda **k: None,
          use_orbax=False)
    return {f: open(os.path.join(out, f)).read().splitlines() for f in sorted(os.listdir(out))
            if not os.path.isdir(os.path.join(out, f))}, None
  except Exception as e:  # pylint: disable=broad-except
    return None, f'{type(e).__name__}: {str(e)[:300]}'
  finally:
    w['scratch'].clear(out)


def plans(thorough):
  sizes = [1, 2, 5, 12, 13] if not thorough else [1, 2, 3, 4, 5, 7, 8, 11, 12, 13, 25]
  grid = [(1, 1), (2, 2), (6, 2), (4, 3)] if not thorough else [(1, 1), (1, 3), (2, 1), (2, 2), (3, 2), (6, 2), (4, 3), (5, 5)]
  modes = itertools.cycle(('predict_with_aux', 'predict', 'score', 'predict_with_aux'))
  shards = itertools.cycle((1, 2, 3, 1, 2))
  feature = itertools.cycle(('targets', 'targets', 'inputs'))
  out = []
  for n, (b, p) in itertools.product(sizes, grid):
    for _ in range(2 if not thorough else 6):
      s = min(next(shards), n)
      out.append((((('a', n),)), b, p, s, next(modes), next(feature), len(out) % 2 == 0,
                  'jsonl' if len(out) % 3 else 'txt', len(out) % 5 == 4))
  for mode in ('predict', 'score', 'predict_with_aux'):
    out.append(((('a', 3), ('b', 13)), 6, 2, 2, mode, 'targets', True, 'jsonl', False))
  return list(dict.fromkeys(out))


def whole_runs(ck):
  items = plans(ck.thorough)
  for item, (files, err) in zip(items, par.pmap('i06', 'run', items, jobs=7)):
    tasks, batch, period, shards, mode, feature, _, ext, slashes = item
    case = dict(tasks=tasks, batch=batch, period=period, shards=shards, mode=mode, vocabulary=feature,
                extension=ext, numpy_aux=item[6], slashes=slashes)
    ck.case(item, sample=case)
    ck.trace()
    if err:
      ck.violation(f'inference failed: {err}', case)
      continue
    want_files = {f'rec_{t}_{n}-{mode}.{ext}-{s:05}-of-{shards:05}': [f'{t}{i}' for i in range(n)][s::shards]
                  for t, n in tasks for s in range(shards)}
    outs = {f for f in files if not f.endswith('.COMPLETED') and f != 'model-info.txt'}
    if outs != set(want_files):
      ck.violation('the output files are not one per task and shard', case, sorted(want_files), sorted(outs))
      continue
    for f, texts in want_files.items():
      recs = [json.loads(x) for x in files[f]]
      drawn = []
      bad = None
      if f + '.COMPLETED' not in files:
        bad = 'is not marked as completed'
      if len(recs) != len(texts):
        bad = f'has {len(recs)} records for {len(texts)} examples'
      for r, t in zip(recs, texts):
        total = sum(b + 3 for b in t[:L].encode()) + (1 if len(t) < L else 0)
        mark = ('<{}>' if feature == 'targets' else '{}').format(''.join(chr(ord(c) + 1) for c in t))
        keys = {'inputs', 'score'} if mode == 'score' else {'inputs', 'prediction'}
        if mode == 'predict_with_aux':
          keys.add('aux')
        if set(r) != keys:
          bad = f'has a record with {sorted(r)}, expected {sorted(keys)}'
        elif r['inputs'] != dict(inputs_pretokenized=t, targets_pretokenized=t):
          bad = f'has the record of {r["inputs"]} where {t} belongs'
        elif mode == 'score' and r['score'] != total:
          bad = f'gives score {r["score"]} for {t}, not {total}'
        elif mode != 'score' and r['prediction'] != mark:
          bad = f'gives prediction {r["prediction"]} for {t}, not {mark}'
        elif mode == 'predict_with_aux' and r['aux']['s'] != total:
          bad = f'gives auxiliary value {r["aux"]["s"]} for {t}, not {total}'
        if mode == 'predict_with_aux' and 'aux' in r:
          drawn.append(r['aux']['r'])
      if not bad and len(set(drawn)) != len(drawn):
        bad = 'has examples that were given the same random numbers'
      if bad:
        ck.violation(f'{f} {bad}', case)
        break


# --------------------------------------------------------- tasks from files


def file_tasks(ck):
  import seqio
  import tensorflow as tf
  from t5x import infer as infer_lib
  sc = crashfs.Scratch()
  voc = seqio.ByteVocabulary()
  feats = dict(inputs=seqio.Feature(voc), targets=seqio.Feature(voc))
  made = {}
  for counts in itertools.product((0, 1, 3), repeat=2) if ck.thorough else [(0, 0), (0, 3), (1, 0), (3, 1)]:
    root = sc.new()
    paths, want = [], []
    for k, n in enumerate(counts):
      p = os.path.join(root, f'f{k}.tfrecord')
      paths.append(p)
      with tf.io.TFRecordWriter(p) as w:
        for i in range(n):
          q, a = f'q{k}{i}'.encode(), f'a{k}{i}'.encode()
          want.append((q, a))
          ex = tf.train.Example()
          ex.features.feature['question'].bytes_list.value.append(q)
          ex.features.feature['answer'].bytes_list.value.append(a)
          ex.features.feature['other'].int64_list.value.append(i)
          w.write(ex.SerializeToString())
    for target, task_id in itertools.product(('answer', None), (None, 'given')):
      case = dict(examples_per_file=counts, targets_key=target, task_id=task_id)
      ck.case((counts, target, task_id), sample=case)
      if task_id:
        task_id = f'given{len(made)}'
      try:
        name = infer_lib.create_task_from_tfexample_file(paths, 'tfrecord', 'question', target, feats, task_id)
      except Exception as e:  # pylint: disable=broad-except
        ck.violation(f'no task could be made: {type(e).__name__}: {str(e)[:200]}', case)
        continue
      if name in made:
        ck.violation('two different tasks have the same name', case, None, made[name])
      made[name] = case
      if task_id and task_id not in name:
        ck.violation('the given task id was not used', case, task_id, name)
      got = [(x['inputs_pretokenized'], x.get('targets_pretokenized', b''), x['inputs'].tolist())
             for x in seqio.get_mixture_or_task(name).get_dataset(
                 sequence_length=dict(inputs=8, targets=8), split='infer', shuffle=False).as_numpy_iterator()]
      ref = [(q, a if target else b'', [c + 3 for c in q] + [1]) for q, a in want]
      if got != ref:
        ck.violation('the task does not hold the examples of the files in order', case, ref, got)
    sc.clear(root)
  for paths in ([], [os.path.join(sc.new(), 'absent')]):
    ck.case(('absent', len(paths)))
    try:
      infer_lib.create_task_from_tfexample_file(paths, 'tfrecord', 'question', None, feats, f'absent{len(paths)}')
      ck.violation('files that do not exist were accepted', dict(paths=len(paths)))
    except ValueError:
      pass


def check(ck):
  ck.part('records of one chunk')
  records(ck)
  ck.part('merging chunks')
  merging(ck)
  ck.part('tasks made from files')
  file_tasks(ck)
  ck.part('whole runs')
  whole_runs(ck)
