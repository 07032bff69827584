"""I03: batched inference."""
import itertools
import types

import numpy as np

from mc import par
from mc import procs

N_DEVICES = 8
TECHNIQUE = 'enum'
LEVEL = 'model_checking'
RULE = ('every dataset size and batch size within the bound, on every mesh of eight devices in one '
        'process and of groups of two and four real jax processes, for every kind of inference '
        'step (with and without random key, mutables, auxiliary values, nested results); the '
        'whole evaluator for every dataset and batch size')
ASSUMPTIONS = ['batch sizes divide over the data axis', 'datasets have at least one example']

L = 3


def partitioner(shape, order):
  """A real partitioner on all devices, in the given order."""
  import jax
  from t5x import partitioning
  d = np.array(jax.devices())
  if order == 'reversed':
    d = d[::-1]
  elif order == 'interleaved':
    d = np.concatenate([d[i::2] for i in range(2)])
  m = jax.sharding.Mesh(d.reshape(shape), ('data', 'model'))

  class P(partitioning.PjitPartitioner):
    mesh = property(lambda self: m)

  return P(num_partitions=1)


def steps():
  """name -> (infer step, expected value of example i, expected auxiliary values)."""
  import jax
  import jax.numpy as jnp

  def plain(params, batch):
    return batch['x'] * params['w'][0] + 1

  def with_rng(params, batch, rng):
    n = batch['x'].shape[0]
    return {'v': batch['x'][:, 0] * params['w'][0], 'r': jax.random.randint(rng, (n,), 0, 1 << 30)}

  def with_mut(params, batch, flax_mutables):
    return batch['x'] * params['w'][0] + flax_mutables['m'][0]

  def with_both(params, batch, rng, flax_mutables):
    del rng
    return batch['x'][:, 0] * params['w'][0] + flax_mutables['m'][0]

  def aux(params, batch, rng=None):
    return batch['x'] * params['w'][0], {
        's': batch['x'].sum(-1), 'b': batch['x'].astype(jnp.bfloat16) / 2}

  def pair(params, batch):
    return (batch['x'][:, 0], batch['x'] + 7)

  def scalar_aux(params, batch):
    return batch['x'].sum(-1).astype(jnp.float32) / 4, {'deep': {'t': batch['x'][:, 1]}}

  x = lambda i: np.arange(L) + 10 * i
  return {
      'plain': (plain, lambda i: (x(i) * 3 + 1).tolist(), None),
      'rng': (with_rng, None, None),
      'mutables': (with_mut, lambda i: (x(i) * 3 + 5).tolist(), None),
      'rng and mutables': (with_both, lambda i: int(x(i)[0] * 3 + 5), None),
      'aux': (aux, lambda i: (x(i) * 3).tolist(), {
          's': lambda i: int(x(i).sum()), 'b': lambda i: (x(i) / 2).tolist()}),
      'pair': (pair, lambda i: (int(x(i)[0]), (x(i) + 7).tolist()), None),
      'score and aux': (scalar_aux, lambda i: float(x(i).sum() / 4), {
          'deep': {'t': lambda i: int(x(i)[1])}}),
  }


def run(item):
  """All dataset sizes for one mesh, batch size and kind of step; returns problems."""
  import jax
  import tensorflow as tf
  from t5x import utils
  shape, order, batch, kind, sizes, as_numpy = item
  part = partitioner(shape, order)
  fn, want, want_aux = steps()[kind]
  spec = jax.sharding.PartitionSpec()
  axes = types.SimpleNamespace(params={'w': spec}, flax_mutables={'m': spec})
  state = types.SimpleNamespace(params={'w': np.full((1,), 3)}, flax_mutables={'m': np.full((1,), 5)})
  infer = utils.get_infer_fn(fn, batch, axes, part, keep_aux_as_numpy=as_numpy)
  bad, digest = [], []
  for n in sizes:
    ds = tf.data.Dataset.from_tensor_slices({'x': np.arange(L) + 10 * np.arange(n)[:, None]})
    kw = {} if kind in ('plain', 'mutables') else dict(rng=jax.random.PRNGKey(n))
    out = infer(ds.enumerate(), state, **kw)
    a = None
    if want_aux is not None:
      out, a = out
    idx = [i for i, _ in out]
    vals = [v for _, v in out]
    if idx != list(range(n)):
      bad.append((n, 'indices', list(range(n)), idx))
      continue
    if kind == 'rng':
      if [v['v'] for v in vals] != [int(30 * i) for i in range(n)]:
        bad.append((n, 'values', None, vals))
      if len({v['r'] for v in vals}) != n:
        bad.append((n, 'random numbers repeat', None, [v['r'] for v in vals]))
    else:
      w = [want(i) for i in range(n)]
      got = [tuple(v) if isinstance(v, tuple) else v for v in vals]
      if got != w:
        bad.append((n, 'values', w, got))
    if want_aux is not None:
      flat = lambda d, p='': {k2: v2 for k, v in d.items() for k2, v2 in (
          flat(v, f'{p}{k}/').items() if isinstance(v, dict) else [(p + k, v)])}
      wa, ga = flat(want_aux), flat(dict(a))
      if set(wa) != set(ga):
        bad.append((n, 'auxiliary keys', sorted(wa), sorted(ga)))
        continue
      for k, f in wa.items():
        if not isinstance(ga[k], list):
          bad.append((n, f'auxiliary {k} is no list', None, str(type(ga[k]))))
          continue
        if as_numpy and not all(isinstance(v, (np.ndarray, np.generic)) for v in ga[k]):
          bad.append((n, f'auxiliary {k} not kept as arrays', None, str(type(ga[k][0]))))
        g = [np.asarray(v).astype(np.float64).tolist() for v in ga[k]]
        w = [np.asarray(f(i), np.float64).tolist() for i in range(n)]
        if g != w:
          bad.append((n, f'auxiliary {k}', w, g))
    digest.append(repr(vals))
  return bad, digest


def guarded_run(item):
  try:
    return 'ok', run(item)
  except Exception as e:  # pylint: disable=broad-except
    return 'raised', f'{type(e).__name__}: {e}'


def check(ck):
  from t5x import utils
  import jax
  import tensorflow as tf
  kinds = list(steps())

  def items(shapes, batches, kinds, sizes, orders=('given',)):
    for shape in shapes:
      for order in orders:
        for b in batches:
          if b % shape[0]:
            continue
          for k in kinds:
            for as_numpy in ((False, True) if 'aux' in k else (False,)):
              yield (shape, order, b, k, list(sizes), as_numpy)

  top = ck.pick(9, 17)
  few = ck.pick((1, 3, 4, 5, 8), range(1, 13))
  many = ck.pick((1, 2, 5, 7, 8, 9), range(1, 18))
  # One device per process: gloo, which carries the collectives here, mixes up
  # messages when several devices of a process talk at once.
  two = list(items([(2, 1), (1, 2)], (2, 4), kinds, few))
  four = list(items([(4, 1), (2, 2), (1, 4)], (4,), ('aux', 'rng', 'pair'), few))
  four += list(items([(4, 1), (2, 2)], (8,), ('score and aux',), many, ck.pick(
      ('given', 'interleaved'), ('given', 'reversed', 'interleaved'))))
  three = list(items([(3, 1), (1, 3)], (3, 9), ('score and aux',), many))
  if ck.thorough:
    four += list(items([(4, 1), (2, 2), (1, 4)], (4, 8, 12), kinds, many))
  groups = [(f'{p} processes', procs.Group('i03', 'run', its, p, 1), its)
            for p, its in ((2, two), (3, three), (4, four))]

  def report(item, res, where):
    shape, order, b, k, sizes, as_numpy = item
    case = dict(where=where, mesh=shape, order=order, batch_size=b, step=k, keep_aux_as_numpy=as_numpy)
    if res[0] != 'ok':
      ck.violation('inference fails', case, 'results', res[1])
      return
    for n, what, w, g in res[1][0]:
      ck.violation(what, dict(case, examples=n), w, g)
    for n in sizes:
      ck.case((where, shape, order, b, k, as_numpy, n), sample=dict(case, examples=n))
      ck.state((where, shape, order, b, k, as_numpy, n))
      ck.transition(-(-n // b))

  # ---- one process
  ck.part('one process, eight devices')
  one = list(items([(8, 1), (4, 2), (2, 4), (1, 8)], ck.pick((2, 8), (1, 2, 4, 8, 16)), kinds, range(1, top + 1)))
  one += list(items([(1, 8)], (1, 3, 5), ('aux', 'rng', 'plain'), range(1, top + 1)))
  for it, r in zip(one, par.pmap('i03', 'guarded_run', one, jobs=4)):
    report(it, r, 'one process')

  # ---- what a step may see
  ck.part('the evaluator')
  evaluator(ck)

  # ---- real process groups
  for where, g, its in groups:
    ck.part(where)
    try:
      res = g.results()
    except procs.Hung as e:
      ck.violation(f'processes wait for each other: {e}', dict(where=where))
      continue
    for i, it in enumerate(its):
      for p, r in enumerate(res):
        if i >= len(r):
          ck.violation('a process died', dict(where=where, item=it, process=p))
          return
        report(it, r[i], where)
      if all(r[i][0] == 'ok' for r in res):
        # Only the content of the key may differ between processes; it must not.
        ck.expect(len({repr(r[i][1][1]) for r in res}) == 1, 'processes disagree',
                  dict(where=where, item=it), None, None)
        ck.trace()

  del utils, jax, tf


def evaluator(ck):
  """InferenceEvaluator with the real seqio evaluator."""
  import flax.linen.partitioning as fp
  import jax
  import jax.numpy as jnp
  import seqio
  import tensorflow as tf
  from t5x import eval as eval_lib
  from t5x import train_state as ts_lib
  from t5x import utils
  voc = seqio.PassThroughVocabulary(1000)
  seen = {}

  def predict_metric(targets, predictions, aux_values):
    seen['predict'] = ([t.tolist() for t in targets], [np.asarray(p).tolist() for p in predictions],
                       {k: np.asarray(v).tolist() for k, v in aux_values.items()})
    return {}

  def plain_metric(targets, predictions):
    seen['plain'] = ([t.tolist() for t in targets], [np.asarray(p).tolist() for p in predictions])
    return {}

  def score_metric(targets, scores):
    seen['score'] = ([t.tolist() for t in targets], list(scores))
    return {}

  def task(n):
    name = f'i03_{n}'
    if name not in seqio.TaskRegistry.names():
      data = {'inputs': [[10 * i + 2, 10 * i + 3] for i in range(n)],
              'targets': [[10 * i + 4, 10 * i + 5] for i in range(n)]}
      seqio.TaskRegistry.add(
          name, source=seqio.FunctionDataSource(
              lambda split, shuffle_files=False, seed=None: tf.data.Dataset.from_tensor_slices(
                  {k: np.array(v, np.int32) for k, v in data.items()}), splits=['v']),
          preprocessors=[], postprocess_fn=lambda t, example, is_target: (
              example['targets'] if is_target else np.asarray(t)),
          metric_fns=[predict_metric, plain_metric, score_metric],
          output_features={k: seqio.Feature(voc, add_eos=False) for k in ('inputs', 'targets')})
    return name

  class Model:
    FEATURE_CONVERTER_CLS = seqio.EncDecFeatureConverter
    output_vocabulary = input_vocabulary = voc

    def predict_batch(self, params, batch, rng=None):
      return batch['encoder_input_tokens'] + params['w'].astype(jnp.int32)

    def predict_batch_with_aux(self, params, batch, rng=None):
      return self.predict_batch(params, batch), {'scores': batch['encoder_input_tokens'].sum(-1)}

    def score_batch(self, params, batch):
      return batch['decoder_target_tokens'].sum(-1) + params['w']

  spec = jax.sharding.PartitionSpec()
  axes = ts_lib.InferenceState(step=None, params={'w': spec}, params_axes=None)
  del fp
  for n in range(1, ck.pick(6, 12)):
    for batch in ck.pick((2, 4), (1, 2, 4, 8)):
      for shape in ((2, 4), (1, 8)):
        if batch % shape[0]:
          continue
        seen.clear()
        case = dict(examples=n, batch_size=batch, mesh=shape)
        ev = eval_lib.InferenceEvaluator(
            utils.DatasetConfig(mixture_or_task_name=task(n), task_feature_lengths=dict(inputs=3, targets=3),
                                split='v', batch_size=batch, shuffle=False, seed=0),
            seqio.Evaluator, Model(), partitioner(shape, 'given'))
        for turn, w in enumerate((1.0, 2.0)):
          st = ts_lib.InferenceState(step=jnp.asarray(turn), params={'w': jnp.asarray(w)}, params_axes=None)
          ok, _ = ck.guarded('evaluate', lambda: ev.evaluate(st, axes).result(), case)
          if not ok:
            continue
          t = [[10 * i + 4, 10 * i + 5] for i in range(n)]
          p = [[10 * i + 2 + int(w), 10 * i + 3 + int(w), int(w)] for i in range(n)]
          ck.expect(seen.get('plain') == (t, p), 'targets and predictions of the metric', case, (t, p), seen.get('plain'))
          a = {'scores': [20 * i + 5 for i in range(n)]}
          ck.expect(seen.get('predict') == (t, p, a), 'targets, predictions and auxiliary values of the metric',
                    case, (t, p, a), seen.get('predict'))
          s = [20 * i + 9 + w for i in range(n)]
          got = seen.get('score')
          ck.expect(got is not None and got[0] == t and np.allclose(got[1], s), 'targets and scores of the metric',
                    case, (t, s), got)
          ck.case((n, batch, shape, turn))
        ev.close()
