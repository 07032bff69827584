"""I01: batch inference across crashes."""
import json
import os

import lib_ckpt as lc
from mc import crashfs
from mc import par

CRASHFS = True
TECHNIQUE = 'crash'
LEVEL = 'fault_enumeration'
RULE = ('every directory image between two consecutive mutating libc calls, and half-done '
        'versions of every write, of real inference runs (both restart modes, with and without '
        'merging, several shards, several tasks, all modes); each image is restarted with the '
        'same arguments and, at the thorough tier, the restarted run is crashed again at every '
        'point; every write of every run failing, leaving nothing, a part or all of its chunk; distinct = image')
ASSUMPTIONS = [
    'a crash loses no completed libc call (process death, not power loss)',
    'a restart uses the same arguments as the first run',
    'the model is a stand-in whose outputs encode the example and the random key']

L = 8


def text(name, i):
  return f'{name}{i}'


def vocab():
  import seqio
  global _V
  if '_V' not in globals():
    _V = seqio.ByteVocabulary()
  return _V


def task(name, n):
  import seqio
  import tensorflow as tf
  full = f'{name}_{n}'
  if full in seqio.TaskRegistry.names():
    return full

  def fn(split, shuffle_files=False, seed=None):
    t = [text(name, i) for i in range(n)]
    return tf.data.Dataset.from_tensor_slices({'inputs': t, 'targets': t})

  seqio.TaskRegistry.add(
      full, source=seqio.FunctionDataSource(fn, splits=['infer']),
      preprocessors=[seqio.preprocessors.tokenize, seqio.preprocessors.append_eos],
      output_features={k: seqio.Feature(vocab()) for k in ('inputs', 'targets')})
  return full


def mixture(tasks):
  import seqio
  name = 'mix_' + '_'.join(tasks)
  if name not in seqio.MixtureRegistry.names():
    seqio.MixtureRegistry.add(name, list(tasks), default_rate=1.0)
  return name


def model():
  import flax.linen.partitioning as fp
  import jax
  import jax.numpy as jnp
  import seqio

  class Model:
    FEATURE_CONVERTER_CLS = seqio.EncDecFeatureConverter
    input_vocabulary = output_vocabulary = vocab()

    def get_initial_variables(self, rng, input_shapes, input_types=None):
      return {'params': {'w': jnp.ones((2,))},
              'params_axes': {'w_axes': fp.AxisMetadata(names=('embed',))}}

    def predict_batch(self, params, batch, rng=None):
      x = batch['encoder_input_tokens']  # every byte of the text, plus one
      return jnp.where(x > 1, x + jnp.int32(params['w'][0]), x)

    def predict_batch_with_aux(self, params, batch, rng=None):
      n = batch['encoder_input_tokens'].shape[0]
      return self.predict_batch(params, batch), dict(
          s=batch['encoder_input_tokens'].sum(-1), r=jax.random.uniform(rng, (n,)))

    def score_batch(self, params, batch):
      return batch['decoder_target_tokens'].sum(-1) * params['w'][0]

  return Model()


_ENV = {}


def world():
  """A restored checkpoint to infer with, and a partitioner."""
  if not _ENV:
    import jax
    from t5x import checkpoints
    from t5x import utils
    _ENV['scratch'] = sc = crashfs.Scratch()
    _ENV['part'] = part = lc.partitioner()
    d = sc.new()
    ini = utils.TrainStateInitializer(
        optimizer_def=lc.optimizer_def('sgd'), init_fn=model().get_initial_variables,
        input_shapes={'encoder_input_tokens': (2, L)}, partitioner=part)
    st = ini.from_scratch(jax.random.PRNGKey(0))
    checkpoints.Checkpointer(st, part, d).save(st)
    _ENV['ckpt'] = os.path.join(d, 'checkpoint_0')
  return _ENV


def infer(plan, out, writes=None, fail=None):
  """All shards of one plan; one restart = one call.

  fail: (number of the write that fails, what it leaves behind).
  """
  from t5x import infer as infer_lib
  from t5x import utils
  w = world()
  names = [task(*t) for t in plan['tasks']]
  name = names[0] if len(names) == 1 else mixture(names)

  def write(path, *a, **k):
    if writes is not None:
      writes.append(os.path.basename(path))
      if fail is not None and len(writes) == fail[0]:
        if fail[1] != 'nothing':
          infer_lib.write_inferences_to_file(path, *a, **k)
        if fail[1] == 'a part':
          os.truncate(path, os.path.getsize(path) // 2)
        raise OSError('planned failure of a write')
    return infer_lib.write_inferences_to_file(path, *a, **k)

  for shard in plan.get('order', range(plan.get('shards', 1))):
    infer_lib.infer(
        mode=plan.get('mode', 'predict'), model=model(),
        dataset_cfg=utils.DatasetConfig(
            mixture_or_task_name=name, task_feature_lengths=dict(inputs=L, targets=L),
            split='infer', batch_size=plan['batch'], shuffle=False, seed=0),
        restore_checkpoint_cfg=utils.RestoreCheckpointConfig(path=w['ckpt'], mode='specific'),
        partitioner=w['part'], output_dir=out, checkpoint_period=plan['period'],
        shard_id=shard, num_shards=plan.get('shards', 1),
        merge_chunked_results=plan.get('merge', True), write_fn=write,
        checkpoint_ds_iter=plan.get('iter', True), summarize_config_fn=lambda **k: None,
        use_orbax=False)


def outputs(plan):
  """{(task, shard): (final file, tmp dir, examples)}"""
  out = {}
  k = plan.get('shards', 1)
  for t in plan['tasks']:
    name = task(*t)
    for s in range(k):
      f = f"{name}-{plan.get('mode', 'predict')}.jsonl-{s:05}-of-{k:05}"
      out[name, s] = (f, f'tmp-{name}-{s:05}-of-{k:05}', [text(t[0], i) for i in range(t[1])][s::k])
  return out


def records_wrong(plan, data, texts):
  """None, or what is wrong with the bytes of a finished output."""
  import numpy as np
  try:
    recs = [json.loads(x) for x in data.decode().splitlines()]
  except ValueError:
    return 'not JSON lines'
  if len(recs) != len(texts):
    return f'{len(recs)} records for {len(texts)} examples'
  mode = plan.get('mode', 'predict')
  for r, t in zip(recs, texts):
    if r['inputs'] != dict(inputs_pretokenized=t, targets_pretokenized=t):
      return f'record of {r["inputs"]} where {t} belongs'
    ids = [b + 3 for b in t.encode()] + [1]
    if mode != 'score' and r['prediction'] != ''.join(chr(ord(c) + 1) for c in t):
      return f'prediction {r["prediction"]} for {t}'
    if mode == 'score' and not np.isclose(r['score'], sum(ids)):
      return f'score {r["score"]} for {t}'
    if mode == 'predict_with_aux' and r['aux']['s'] != sum(ids):
      return f'auxiliary value {r["aux"]} for {t}'
  return None


def read(root, f):
  with open(os.path.join(root, f), 'rb') as h:
    return h.read()


def result(plan, root, f, tmp):
  """Bytes of the finished output of one shard, merged or in chunks."""
  if plan.get('merge', True):
    return read(root, f)
  d = os.path.join(root, tmp)
  c = sorted(x for x in os.listdir(d) if x.startswith(f + '-chunk') and not x.endswith('COMPLETED'))
  return b''.join(read(d, x) for x in c)


def finished_wrong(plan, root, ref, cleaning=()):
  """Problems of a directory after inference reported completion."""
  bad = []
  for key, (f, tmp, texts) in outputs(plan).items():
    if not os.path.exists(os.path.join(root, f + '.COMPLETED')):
      bad.append(f'{f} has no completion marker')
      continue
    try:
      data = result(plan, root, f, tmp)
    except OSError as e:
      bad.append(f'no result of {key}: {e}')
      continue
    w = records_wrong(plan, data, texts)
    if w:
      bad.append(f'{f}: {w}')
    elif ref is not None and data != ref[key]:
      bad.append(f'{f} differs from the output of an uninterrupted run')
    # Cleaning up may be what the crash interrupted.
    if plan.get('merge', True) and f not in cleaning and os.path.exists(os.path.join(root, tmp)):
      if any(x.startswith(f) for x in os.listdir(os.path.join(root, tmp))):
        bad.append(f'temporary chunks of {f} left behind')
  return bad


def reference(plan):
  """Records an uninterrupted run."""
  root = world()['scratch'].new()
  writes = []
  with crashfs.Recorder(root) as r:
    infer(plan, root, writes)
  ref = {k: result(plan, root, f, tmp) for k, (f, tmp, _) in outputs(plan).items()}
  bad = finished_wrong(plan, root, None)
  world()['scratch'].clear(root)
  return dict(plan=plan, ref=ref, bad=bad, images=r.crash_points(), writes=len(writes),
              recorded=len(r.images))


def restart(item):
  """Restarts from one image; returns problems and, if asked, the new images."""
  plan, im, ref, again = item
  sc = world()['scratch']
  root = sc.new()
  im.write(root)
  bad = []
  chunks_done = 0
  closed = {}
  for key, (f, tmp, texts) in outputs(plan).items():
    if f + '.COMPLETED' in im.files:
      chunks_done += -(-len(texts) // (plan['batch'] * plan['period']))
      try:
        data = closed[f] = result(plan, root, f, tmp)
      except OSError as e:
        bad.append(f'completion of {key} reported without its result: {e}')
        continue
      w = records_wrong(plan, data, texts)
      if w:
        bad.append(f'completion reported too early: {f}: {w}')
    else:
      chunks_done += sum(p.startswith(f'{tmp}/{f}-chunk') and p.endswith('.COMPLETED')
                         for p in im.files)
  inodes = {f: os.stat(os.path.join(root, f)).st_ino for f in closed if plan.get('merge', True)}
  writes, images = [], []
  try:
    if again:
      with crashfs.Recorder(root) as r:
        infer(plan, root, writes)
      images = r.crash_points()
    else:
      infer(plan, root, writes)
  except Exception as e:  # pylint: disable=broad-except
    bad.append(f'restart fails: {type(e).__name__}: {str(e)[:200]}')
  else:
    bad += finished_wrong(plan, root, ref, closed)
    total = sum(-(-len(t) // (plan['batch'] * plan['period'])) for _, _, t in outputs(plan).values())
    if len(writes) > total - chunks_done + 1:
      bad.append(f'{len(writes)} of {total} chunks computed again although {chunks_done} were done')
    for f, d in closed.items():
      if plan.get('merge', True) and (read(root, f) != d or os.stat(os.path.join(root, f)).st_ino != inodes[f]):
        bad.append(f'{f} was complete and was written again')
  sc.clear(root)
  return bad, images, len(writes)


def failing(item):
  """A write fails; then the same run again without the failure."""
  plan, ref, k, left = item
  sc = world()['scratch']
  root = sc.new()
  bad = []
  try:
    infer(plan, root, [], (k, left))
    bad.append('a write failed and inference reported success')
  except OSError as e:
    if 'planned failure' not in str(e):
      raise
  for key, (f, tmp, texts) in outputs(plan).items():
    if os.path.exists(os.path.join(root, f + '.COMPLETED')):
      try:
        if result(plan, root, f, tmp) != ref[key]:
          bad.append(f'{f} is marked as completed but not the whole output')
      except OSError as e:
        bad.append(f'{f} is marked as completed but absent: {e}')
  writes = []
  try:
    infer(plan, root, writes)
    bad += finished_wrong(plan, root, ref)
  except Exception as e:  # pylint: disable=broad-except
    bad.append(f'restart fails: {type(e).__name__}: {str(e)[:200]}')
  sc.clear(root)
  return bad, len(writes)


PLANS = [
    dict(tasks=[('a', 5)], batch=2, period=1, mode='predict_with_aux'),
    dict(tasks=[('a', 5)], batch=2, period=1, iter=False, mode='predict_with_aux'),
    dict(tasks=[('a', 3)], batch=1, period=2, merge=False),
    dict(tasks=[('a', 3), ('b', 2)], batch=2, period=1, iter=False, mode='score'),
    dict(tasks=[('a', 3)], batch=1, period=1, shards=2, iter=False, merge=False, order=(1, 0)),
]
MORE = [
    dict(tasks=[('a', 3), ('b', 2)], batch=2, period=1, mode='score'),
    dict(tasks=[('a', 12)], batch=1, period=1, iter=False),
    dict(tasks=[('a', 4)], batch=2, period=2, mode='score'),
    dict(tasks=[('a', 4)], batch=2, period=1, shards=2),
    dict(tasks=[('a', 3)], batch=2, period=1, iter=False, merge=False, mode='score'),
]


def plan_name(p):
  return ', '.join(f'{k}={v}' for k, v in p.items())


def check(ck):
  plans = PLANS + (MORE if ck.thorough else [])

  ck.part('crash at every point, restart')
  recs = par.pmap('i01', 'reference', plans, jobs=len(plans))
  items, seen = [], set()
  for r in recs:
    for b in r['bad']:
      ck.violation(b, dict(plan=plan_name(r['plan']), crash='none'))
    ck.transition(r['recorded'])
    for n, im in enumerate(r['images']):
      k = (plan_name(r['plan']), im.key())
      if k in seen:
        continue
      seen.add(k)
      items.append((r['plan'], im, r['ref'], ck.thorough))
  if ck.violations:
    return

  def judge(items, results, crash):
    for (plan, im, ref, _), (bad, images, writes) in zip(items, results):
      op = f'{im.op.split(" ")[0]} {os.path.basename(im.op)}'
      ck.case((plan_name(plan), hash(im.key())), sample=dict(plan=plan_name(plan), crash=op, written_again=writes))
      ck.state((plan_name(plan), hash(im.key())))
      ck.trace()
      for b in bad:
        ck.violation(b, dict(plan=plan_name(plan), crash=crash + op,
                             files=sorted(f'{p} ({len(x)})' for p, x in im.files.items())))

  results = par.pmap('i01', 'restart', items, jobs=7)
  judge(items, results, 'after ')

  ck.part('a write fails, restart')
  items2 = [(r['plan'], r['ref'], k, left) for r in recs for k in range(1, r['writes'] + 1)
            for left in (('nothing', 'a part', 'all') if ck.thorough or r is recs[0] else ('a part',))]
  for (plan, _, k, left), (bad, writes) in zip(items2, par.pmap('i01', 'failing', items2, jobs=7)):
    case = dict(plan=plan_name(plan), failing_write=k, leaves=left)
    ck.case((plan_name(plan), k, left), sample=dict(case, written_again=writes))
    ck.trace()
    for b in bad:
      ck.violation(b, case)

  if ck.thorough:
    ck.part('a second crash in the restarted run')
    more = []
    for (plan, im, ref, _), (bad, images, _) in zip(items, results):
      ck.transition(len(images))
      for im2 in images:
        k = (plan_name(plan), im2.key())
        if k not in seen:
          seen.add(k)
          more.append((plan, im2, ref, False))
    if len(more) > 6000:
      more = more[:6000]
      ck.exhaustive = False
    judge(more, par.pmap('i01', 'restart', more, jobs=8), 'second crash after ')
