"""T08: interrupted training ends where uninterrupted training ends."""
import contextlib
import logging
import os

import lib_ckpt as lc
from mc import crashfs
from mc import par

CRASHFS = True
TECHNIQUE = 'crash'
LEVEL = 'fault_enumeration'
MANUAL_GC = True  # trainers close threads when collected
RULE = ('every directory image between two consecutive mutating libc calls of real training runs '
        '(both checkpoint systems; plain, pretrained, remapped and reduced-precision starts), '
        'every prefix of the batches, and a preemption before every call that trains; each is '
        'continued with the same arguments, crashed again where the tier allows, and compared '
        'with the uninterrupted run; distinct = image or (plan, position)')
ASSUMPTIONS = ['a crash loses no completed libc call (process death, not power loss)',
               'a restart uses the same arguments as the first run, and the state of the dataset is saved',
               'checkpoints older than the newest one at the time of the crash are left to C01',
               'quick tier: images in which every checkpoint directory is equally far (absent, empty, partial, complete) are represented by one of them']

L = 4
N = 7  # examples of the task; batches of two, so epochs end inside a batch


class World:
  scratch = None
  pre = {}


def model(kind):
  import clu.metrics as cm
  import flax
  import flax.linen.partitioning as fp
  import jax
  import jax.numpy as jnp
  import seqio
  from t5x import metrics as M
  from t5x import models

  mutable = kind.get('mutable', False)

  class Model(models.BaseModel):
    FEATURE_CONVERTER_CLS = seqio.LMFeatureConverter

    def get_initial_variables(self, rng, input_shapes, input_types=None):
      a = lambda n: fp.AxisMetadata(names=('embed',))
      p = {n: jax.random.normal(jax.random.fold_in(rng, i), (3,)) for i, n in enumerate(('u', 'v', 'w'))}
      v = {'params': p, 'params_axes': {n + '_axes': a(n) for n in p}}
      if mutable:
        v['seen'] = {'n': jnp.zeros((3,))}
        v['seen_axes'] = {'n_axes': a('n')}
      return flax.core.freeze(v)

    def loss_fn(self, params, batch, rng, flax_mutables=None):
      t = batch['decoder_target_tokens']
      noise = jax.random.uniform(rng, (3,)) if rng is not None else 0.
      x = jnp.stack([t.sum(-1), (t * t).sum(-1), t[:, 0]], -1).astype(jnp.float32) / 8 + noise
      per = ((x * params['u'] + params['v']) ** 2).sum(-1) + (params['w'] * x).sum(-1)
      loss = per.mean()
      m = {'loss': M.AveragePerStep.from_model_output(loss), 'n': cm.Average.from_model_output(per)}
      if flax_mutables is None:
        return loss, m
      new = flax.core.freeze({'seen': {'n': flax_mutables['seen']['n'] * .5 + x.sum(0)}})
      return loss, (m, new)

    def eval_fn(self, params, batch, flax_mutables=None):
      loss, aux = self.loss_fn(params, batch, None, flax_mutables)
      return loss, aux if flax_mutables is None else aux[0]

    def predict_batch(self, *a, **k):
      raise NotImplementedError

    predict_batch_with_aux = predict_batch

    def score_batch(self, *a, **k):
      raise NotImplementedError

  return Model(optimizer_def=lc.optimizer_def(kind.get('optimizer', 'adam')))


def task():
  import seqio
  import tensorflow as tf
  if 'verif_t08' not in seqio.TaskRegistry.names():
    def fn(split, shuffle_files=False, seed=None):
      return tf.data.Dataset.from_tensor_slices({'targets': [[i + 1, 2 * i + 1] for i in range(N)]})
    seqio.TaskRegistry.add(
        'verif_t08', source=seqio.FunctionDataSource(fn, splits=['train', 'validation']),
        preprocessors=[], metric_fns=[],
        output_features={'targets': seqio.Feature(seqio.PassThroughVocabulary(100, 0), add_eos=False)})
  return 'verif_t08'


class Cut(Exception):
  """The process dies before this batch."""


def pretrained(system, optimizer, mutable):
  """A checkpoint of another training, under other names."""
  from t5x import checkpoints, train_state as ts
  import flax
  import flax.linen.partitioning as fp
  import numpy as np
  k = system, optimizer, mutable
  if k not in World.pre:
    part = lc.partitioner()
    d = World.scratch.new()
    p = {n: np.arange(3, dtype=np.float32) + i for i, n in enumerate(('u', 'v', 'old'))}
    v = {'params': p, 'params_axes': {n + '_axes': fp.AxisMetadata(names=('embed',)) for n in p}}
    if mutable:
      v['seen'] = {'n': np.full((3,), 5., np.float32)}
      v['seen_axes'] = {'n_axes': fp.AxisMetadata(names=('embed',))}
    st = ts.FlaxOptimTrainState.create(lc.optimizer_def(optimizer), flax.core.freeze(v))
    st = st.replace_step(np.int32(11))
    if system == 'orbax':
      m = checkpoints.OrbaxCheckpointManagerInterface(d, st, part)
      m.save(st)
      m.wait_until_finished()
      m.close()
    else:
      checkpoints.Checkpointer(st, part, d).save(st)
    World.pre[k] = os.path.join(d, 'checkpoint_11')
  return World.pre[k]


def train(plan, root, cut=None, preempt=None, log=None):
  """One run of the real training loop."""
  import clu.data.dataset_iterator as cdi
  import functools
  from unittest import mock
  from t5x import checkpoints
  from t5x import train as train_lib
  from t5x import trainer as trainer_lib
  from t5x import utils
  kind = plan.get('model', {})
  calls = [0]

  class Trainer(trainer_lib.Trainer):
    def train(self, it, n, start_step=None):
      calls[0] += 1
      if preempt == calls[0]:
        raise trainer_lib.PreemptionError('now')
      return super().train(it, n, start_step=start_step)

  def dataset(*a, **k):
    ds = utils.get_dataset(*a, **k)
    if cut is None:
      return ds
    class It(cdi.TfDatasetIterator):
      left = cut
      def __next__(self):
        if self.left == 0:
          raise Cut()
        self.left -= 1
        return super().__next__()
    return It(ds, checkpoint=True)

  # What a dead process was still writing in the background is left to the images.
  managers = []
  class Manager(checkpoints.OrbaxCheckpointManagerInterface):
    def __init__(self, *a, **k):
      super().__init__(*a, **k)
      managers.append(self)

  restore = None
  start = plan.get('start')
  if start:
    restore = utils.RestoreCheckpointConfig(
        path=pretrained(start, kind.get('optimizer', 'adam'), kind.get('mutable', False)), mode='specific',
        assignment_map=plan.get('map') or [(r'(.*)/w((?:/.*)?)', r'\1/old\2')],
        fallback_to_scratch=True, checkpoint_manager_cls=Manager)
    if plan.get('reset'):
      restore.assignment_map = [(r'.*/w(/.*)?', None), ('state/step', None)]
      restore.__post_init__()
  dcfg = lambda split, bs=2: utils.DatasetConfig(
      mixture_or_task_name=task(), task_feature_lengths=dict(targets=L), split=split, batch_size=bs,
      shuffle=plan.get('shuffle', False), seed=3, trim_output_features=False)
  # what the event files hold is left to T03
  with contextlib.ExitStack() as stack, mock.patch.object(trainer_lib, 'MetricsManager', functools.partial(_metrics, trainer_lib.MetricsManager)):
    stack.callback(lambda: [m.close() for m in managers])
    return train_lib.train(
        model=model(kind), train_dataset_cfg=dcfg('train'),
        train_eval_dataset_cfg=dcfg('validation') if plan.get('E') else None, infer_eval_dataset_cfg=None,
        checkpoint_cfg=utils.CheckpointConfig(
            save=utils.SaveCheckpointConfig(
                period=plan['C'], keep=plan.get('keep'), save_dataset=True, dtype=plan.get('dtype', 'float32'),
                checkpoint_steps=plan.get('steps'), checkpoint_manager_cls=Manager),
            restore=restore),
        partitioner=lc.partitioner(),
        trainer_cls=functools.partial(Trainer, num_microbatches=plan.get('micro'),
                                      learning_rate_fn=utils.create_learning_rate_scheduler(
                                          'constant * rsqrt_decay', base_learning_rate=.1, warmup_steps=2)),
        model_dir=root, total_steps=plan['T'], eval_steps=1, eval_period=plan.get('E', 0),
        stats_period=plan.get('S'), random_seed=0, summarize_config_fn=lambda *a: None,
        get_dataset_fn=dataset, use_orbax=plan['orbax'], verify_matching_vocabs_fn=None)


def _metrics(cls, name, summary_dir=None):
  return cls(name, summary_dir=None)


def quiet():
  from absl import logging as alog
  alog.set_verbosity(alog.FATAL)
  logging.getLogger('absl').setLevel(logging.FATAL)
  if World.scratch is None:
    World.scratch = crashfs.Scratch()


def ckpt_steps(root):
  from t5x import checkpoints
  return sorted(checkpoints.all_steps(root))


def contents(plan, root, first=0):
  """{step: {name: bytes and type}} of the checkpoints, read with the system under test."""
  import jax
  from t5x import checkpoints
  from t5x import utils
  m = model(plan.get('model', {}))
  ini = utils.TrainStateInitializer(m.optimizer_def, m.get_initial_variables,
                                    {'decoder_target_tokens': (2, L)}, lc.partitioner())
  out = {}
  for s in ckpt_steps(root):
    if s < first:
      continue
    if plan['orbax']:
      mgr = checkpoints.OrbaxCheckpointManagerInterface(root, ini.global_train_state_shape, lc.partitioner())
      try:
        st = mgr.restore(step=s)
      finally:
        mgr.close()
    else:
      st = checkpoints.Checkpointer(ini.global_train_state_shape, lc.partitioner(), root).restore(step=s)
    out[s] = digest(st)
  return out


def digest(st):
  return {k: None if v is None else (str(v.dtype), v.shape, v.tobytes())
          for k, v in lc.flat(st.state_dict()).items()}


def diff(a, b):
  import numpy as np
  if set(a) != set(b):
    return f'other entries: {sorted(set(a) ^ set(b))}'
  for k in a:
    if a[k] != b[k]:
      show = lambda x: x and (x[0], np.frombuffer(x[2], x[0] if x[0] != 'bfloat16' else 'uint16').tolist()[:3])
      return f'{k}: {show(a[k])} became {show(b[k])}'
  return None


def reference(plan):
  """The state after every step, from runs that save nothing on the way."""
  quiet()
  root = World.scratch.new()
  with crashfs.Recorder(root) as r:
    _, st = train(plan, root)
  final = digest(st)
  saved = contents(plan, root)
  World.scratch.clear(root)
  # an independent trajectory: a run to every step, without intermediate checkpoints
  traj = {}
  first = 11 if plan.get('start') and not plan.get('reset') else 0
  for t in range(first, plan['T'] + 1):
    root = World.scratch.new()
    p = dict(plan, T=t, C=None, steps=None, E=0)
    _, st = train(p, root)
    traj[t] = digest(st)
    World.scratch.clear(root)
  return dict(plan=plan, final=final, saved=saved, traj=traj, images=r.crash_points(), recorded=len(r.images),
              first=first)


def ended(plan, ref, root, out, had, again=True):
  """Problems of a directory after training reported its end."""
  bad = []
  if out[0] != plan['T']:
    bad.append(f'ended at step {out[0]} instead of {plan["T"]}')
  d = diff(ref['final'], digest(out[1]))
  if d:
    bad.append(f'another result than without interruption: {d}')
  # Older checkpoints may be what the crash left half-deleted (C01).
  have = contents(plan, root, max(had or [0]))
  if not have or max(have) != plan['T']:
    bad.append(f'no checkpoint of the last step: {sorted(have)}')
  for s, c in have.items():
    d = diff(ref['traj'][s], c) if s in ref['traj'] else 'unexpected step'
    if d:
      bad.append(f'checkpoint {s} differs: {d}')
  left = [n for n in os.listdir(root) if 'tmp' in n]
  if left and plan['orbax']:
    bad.append(f'left behind: {left}')
  if again:  # starting a finished training again does nothing
    before = ckpt_steps(root)
    n, st = train(plan, root)
    d = diff(ref['final'], digest(st))
    if d or n != plan['T'] or ckpt_steps(root) != before:
      bad.append(f'running a finished training again changed it: {d or (n, ckpt_steps(root), before)}')
  return bad


def restart(item):
  """item: (plan, ref, what) with what = ('image', im) | ('cut', n...) | ('preempt', k, ...)"""
  plan, ref, what = item
  quiet()
  from t5x import trainer as trainer_lib
  root = World.scratch.new()
  bad = []
  images = []
  past = False
  try:
    if what[0] == 'image':
      what[1].write(root)
      had = ckpt_steps(root)
    else:
      out = None
      for i, n in enumerate(what[1:]):
        try:
          out = train(plan, root, **{('cut' if what[0] == 'cut' else 'preempt'): n})
          past = i == 0  # was not interrupted at all
          break
        except (Cut, trainer_lib.PreemptionError):
          pass
      had = ckpt_steps(root) if out is None else []
    if what[0] == 'image' or out is None:
      out = train(plan, root)
    bad += ended(plan, ref, root, out, had, again=(
        max(had or [0]) % 2 == 0 if what[0] == 'image' else len(what) == 2))
  except Exception as e:  # pylint: disable=broad-except
    import traceback
    bad.append(f'restart fails: {type(e).__name__}: {str(e)[:200]} '
               + ' '.join(traceback.format_exc().split()[-40:])[:300])
  World.scratch.clear(root)
  return bad, past


PLANS = [
    dict(T=4, C=2, orbax=False, shuffle=True),
    dict(T=4, C=2, orbax=True, shuffle=True),
    dict(T=5, C=2, E=2, S=1, keep=1, orbax=True, model=dict(mutable=True)),
    dict(T=13, C=1, keep=2, orbax=False, start='classic'),
    dict(T=13, C=1, orbax=True, start='orbax'),
    dict(T=3, C=2, orbax=True, start='orbax', reset=True, micro=2),
]


def top(im):
  """{entry of the model directory: number of files below it}"""
  out = {d: 0 for d in im.dirs if '/' not in d}
  for p in im.files:
    t = p.split('/')[0]
    if '/' in p:
      out[t] = out.get(t, 0) + 1
  return out


def plan_name(p):
  return ', '.join(f'{k}={v}' for k, v in p.items())


def check(ck):
  quiet()
  ck.part('uninterrupted')
  refs = par.pmap('t08', 'reference', PLANS, jobs=len(PLANS))
  items = []
  for r in refs:
    plan = r['plan']
    ck.transition(r['recorded'])
    case = dict(plan=plan_name(plan))
    ck.case(plan_name(plan), sample=case)
    d = diff(r['traj'][plan['T']], r['final'])
    ck.expect(d is None, f'saving checkpoints changes the training: {d}', case)
    for s, c in r['saved'].items():
      d = diff(r['traj'][s], c)
      ck.expect(d is None, f'a checkpoint is not the state of its step: {d}', dict(case, step=s))
    seen = set()
    full = {}
    for im in r['images']:
      for t, n in top(im).items():
        full[t] = max(full.get(t, 0), n)
    for im in r['images']:
      if im.torn and not ck.thorough:
        continue
      k = im.key() if ck.thorough else frozenset(
          (t, 'empty' if n == 0 else 'complete' if n == full[t] else 'partial') for t, n in top(im).items())
      if k not in seen:
        seen.add(k)
        items.append((plan, r, ('image', im)))
    slim = {k: v for k, v in r.items() if k != 'images'}
    items = [(p, slim if x is r else x, w) for p, x, w in items]
    steps = plan['T'] - r['first']
    for n in range(steps):
      items.append((plan, slim, ('cut', n)))
      for n2 in range(n % 2 if not ck.thorough else 0, steps + 1, 1 if ck.thorough else 2):
        items.append((plan, slim, ('cut', n, n2)))
    for k in range(1, 1 + steps):
      items.append((plan, slim, ('preempt', k)))
      for k2 in (1, 2) if ck.thorough else (1 + k % 2,):
        items.append((plan, slim, ('preempt', k, k2)))

  ck.part('interrupted anywhere, continued')
  for it, (bad, past) in zip(items, par.pmap('t08', 'restart', items, jobs=8)):
    plan, _, what = it
    if past:
      continue
    im = what[1] if what[0] == 'image' else None
    label = f'{im.op.split(" ")[0]} {os.path.basename(im.op)}' if im else str(what)
    key = (plan_name(plan), hash(im.key()) if im else what)
    case = dict(plan=plan_name(plan), interrupted=label)
    ck.case(key, sample=case)
    ck.state(key)
    ck.trace()
    for b in bad:
      ck.violation(b, dict(case, files=sorted(im.files)[:40] if im else None))
