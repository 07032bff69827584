"""I05: an interactive session computes what the programs compute."""
import itertools
import os
import re
import shutil
import tempfile

import lib_ckpt as lc
from mc import par

TECHNIQUE = 'hist'
LEVEL = 'model_checking'
MANUAL_GC = True  # trainers close threads when collected
RULE = ('every history of session operations (train on more or fewer examples, predict, score, '
        'evaluate, start a new session on the same directory) up to a depth, and every combination of '
        'example counts and forms, metric functions, loop lengths, batch lists, checkpoint sources '
        'and restore modes, run on the real InteractiveModel next to integer bookkeeping; '
        'distinct = history or combination')
ASSUMPTIONS = ['the network is a stand-in whose weights count the tokens it was trained on, so that every '
               'result names the examples and the steps it came from',
               'one process; the directory of the session is not shared']
N_DEVICES = 2

B = 2
LEN = dict(inputs=6, targets=5)
NV = 260


def vocab():
  import seqio
  global _V
  if '_V' not in globals():
    _V = seqio.ByteVocabulary()
  return _V


def model():
  import clu.metrics as cm
  import flax.linen.partitioning as fp
  import jax.numpy as jnp
  import seqio
  from t5x import models
  from t5x import optimizers
  import optax

  class Model(models.BaseModel):
    FEATURE_CONVERTER_CLS = seqio.EncDecFeatureConverter
    input_vocabulary = output_vocabulary = vocab()

    def get_initial_variables(self, rng, input_shapes, input_types=None):
      return {'params': {'w': jnp.zeros((NV,))},
              'params_axes': {'w_axes': fp.AxisMetadata(names=('vocab',))}}

    def _compute_logits(self, *a, **k):
      raise NotImplementedError

    def loss_fn(self, params, batch, dropout_rng):
      # the gradient is minus the number of times each token occurs
      both = jnp.concatenate([batch['encoder_input_tokens'], batch['decoder_target_tokens']], -1)
      loss = -params['w'][both].sum()
      return loss, {'tokens': cm.Average.from_model_output(both.sum(-1))}

    def eval_fn(self, params, batch):
      return self.loss_fn(params, batch, None)

    def predict_batch_with_aux(self, params, batch, rng=None, shift=0):
      x = batch['encoder_input_tokens']
      return jnp.where(x > 1, x + 1 + shift, x), {'seen': params['w'][x].sum(-1), 'first': x[:, 0]}

    def score_batch(self, params, batch, return_intermediates=False):
      return params['w'][batch['decoder_target_tokens']].sum(-1) + 1000 * batch['decoder_target_tokens'][:, 0]

    predict_batch = predict_batch_with_aux

  return Model(optimizer_def=optimizers.wrap_optax_optimizer(optax.sgd)(1.0))


def tokens(text, feature, eos=True):
  t = [b + 3 for b in text.encode()]
  t = t[:LEN[feature]] if not eos else t + [1]
  return t[:LEN[feature]]


class Ref:
  """What a session must have done."""

  def __init__(self):
    self.w = [0] * NV
    self.step = 0

  def train(self, exs, eos=True):
    for a, b in exs[:B]:
      for f, t in (('inputs', a), ('targets', b)):
        x = tokens(t, f, eos)
        for i in x + [0] * (LEN[f] - len(x)):
          self.w[i] += 1
    self.step += 1

  def predict(self, exs, eos=True):
    out, seen, first = [], [], []
    for a, _ in exs:
      x = tokens(a, 'inputs', eos)
      out.append(bytes(i + 1 - 3 for i in x if i > 1))
      seen.append(sum(self.w[i] for i in x + [0] * (LEN['inputs'] - len(x))))
      first.append(x[0] if x else 0)
    return out, dict(seen=seen, first=first)

  def score(self, exs, eos=True):
    res = []
    for _, b in exs:
      x = tokens(b, 'targets', eos)
      res.append(sum(self.w[i] for i in x + [0] * (LEN['targets'] - len(x))) + 1000 * (x[0] if x else 0))
    return res


def session(root, **kw):
  from t5x import interactive_model
  k = dict(batch_size=B, task_feature_lengths=LEN, output_dir=root, partitioner=lc.partitioner(),
           model=model(), dtype='float32', restore_mode='latest', checkpoint_path='',
           input_shapes={'encoder_input_tokens': (B, LEN['inputs']), 'decoder_target_tokens': (B, LEN['targets']),
                         'decoder_input_tokens': (B, LEN['targets']), 'decoder_loss_weights': (B, LEN['targets'])})
  k.update(kw)
  return interactive_model.InteractiveModel(**k)


POOL = [('ab', 'c'), ('d', 'ef'), ('ghij', 'kl'), ('mnopqrs', 'tuvwxy'), ('z', ''), ('A', 'BC'), ('', 'D')]


def pick(i, n):
  return [POOL[(i + j) % len(POOL)] for j in range(n)]


def given(exs):
  return [{'input': a, 'target': b} for a, b in exs]


def weights(m):
  import numpy as np
  return np.asarray(m.train_state.params['w']).astype(int).tolist()


def state_wrong(m, ref, root, trained):
  from t5x import checkpoints
  bad = []
  if m.step != ref.step:
    bad.append(f'step {m.step}, expected {ref.step}')
  if weights(m) != ref.w:
    bad.append('the parameters are not those of the examples trained on')
  if m.trainer.train_state is not m.train_state and int(m.trainer.train_state.step) != ref.step:
    bad.append(f'the trainer is at step {int(m.trainer.train_state.step)}, expected {ref.step}')
  if trained:
    latest = checkpoints.latest_step(root)
    if latest != ref.step:
      bad.append(f'newest checkpoint {latest} after training to step {ref.step}')
  return bad


def inferences_wrong(got, exs, want, aux=None, want_aux=None, texts=True):
  bad = []
  if len(got) != len(exs):
    return [f'{len(got)} results for {len(exs)} examples']
  for (inp, out), (a, b), w in zip(got, exs, want):
    if texts and (inp['inputs_pretokenized'] != a.encode() or inp['targets_pretokenized'] != b.encode()):
      bad.append(f'a result is attached to {inp["inputs_pretokenized"]}, expected {a!r}')
    if (out if isinstance(w, bytes) else float(out)) != w:
      bad.append(f'result {out!r} for {a!r}, expected {w!r}')
  if want_aux is not None:
    if set(aux) != set(want_aux):
      bad.append(f'auxiliary values {sorted(aux)}')
    else:
      for k, v in want_aux.items():
        if [float(x) for x in aux[k]] != [float(x) for x in v]:
          bad.append(f'auxiliary value {k}: {[float(x) for x in aux[k]]}, expected {v}')
  return bad


def metric_fns(log):
  def pm(targets, predictions):
    log.append(('p', list(targets), list(predictions)))
    return {'p': len(predictions)}

  def am(targets, predictions, aux_values):
    log.append(('a', list(targets), list(predictions), {k: [float(x) for x in v] for k, v in aux_values.items()}))
    return {'a': len(predictions)}

  def sm(targets, scores):
    log.append(('s', list(targets), [float(x) for x in scores]))
    return {'s': len(scores)}

  return dict(p=pm, a=am, s=sm)


def evaluation_wrong(m, ref, exs, kinds, post=None):
  import seqio
  log = []
  fns = metric_fns(log)
  if post:
    got = m.evaluate_with_preprocessors(
        given(exs), [seqio.preprocessors.tokenize, seqio.preprocessors.append_eos], [fns[k] for k in kinds], post)
  else:
    got = m.evaluate(given(exs), [fns[k] for k in kinds])
  bad = []
  if dict(got) != {k: len(exs) for k in kinds}:
    bad.append(f'metrics {got}')
  ts = [b.encode() for _, b in exs]
  if post:
    ts = [post(t) for t in ts]
  ps, aux = ref.predict(exs)
  ps = [p.decode() for p in ps]
  want = {'p': ('p', ts, ps), 'a': ('a', ts, ps, {k: [float(x) for x in v] for k, v in aux.items()}),
          's': ('s', ts, [float(x) for x in ref.score(exs)])}
  for k in kinds:
    g = [x for x in log if x[0] == k]
    if g != [want[k]]:
      bad.append(f'the metric function of kind {k} was called with {g}, expected {want[k]}')
  return bad


def quiet():
  import logging
  from absl import logging as alog
  alog.set_verbosity(alog.FATAL)
  logging.getLogger('absl').setLevel(logging.FATAL)


OPS = ['T2', 'T3', 'T5', 'P1', 'P3', 'S3', 'E', 'R']
QUICK_OPS = ['T3', 'P3', 'E', 'R']


def history(ops):
  """Runs one history; the list of what went wrong."""
  quiet()
  root = tempfile.mkdtemp(prefix='verif_i05_')
  import jax
  try:
    ref = Ref()
    m = session(root)
    bad = []
    trained = False
    for k, op in enumerate(ops):
      exs = pick(2 * k, int(op[1:])) if op[1:] else pick(2 * k + 1, 3)
      if op[0] == 'T':
        m.train_step(given(exs))
        ref.train(exs)
        trained = True
      elif op[0] == 'P':
        got, aux = m.predict_with_aux(given(exs))
        bad += inferences_wrong(got, exs, *(lambda r: (r[0], aux, r[1]))(ref.predict(exs)))
      elif op[0] == 'S':
        bad += inferences_wrong(m.score(given(exs)), exs, ref.score(exs))
      elif op[0] == 'E':
        bad += evaluation_wrong(m, ref, exs, 'pas')
      else:
        m = session(root)
      bad += state_wrong(m, ref, root, trained)
      if bad:
        return [f'after {" ".join(ops[:k + 1])}: {b}' for b in bad]
    return []
  except Exception as e:  # pylint: disable=broad-except
    import traceback
    return [f'{" ".join(ops)}: raised {type(e).__name__}: {str(e)[:300]} {traceback.format_exc()[-700:]}']
  finally:
    jax.clear_caches()
    shutil.rmtree(root, ignore_errors=True)


class Log:
  """What a part found, handed back to the check."""

  def __init__(self, thorough):
    self.thorough, self.cases, self.bad = thorough, [], []

  def pick(self, quick, thorough):
    return thorough if self.thorough else quick

  def case(self, key):
    self.cases.append(key)

  def violation(self, what, case=None, expected=None, got=None):
    self.bad.append((what, repr(case)[:600], repr(expected)[:600], repr(got)[:600]))

  def expect(self, cond, what, case=None, expected=None, got=None):
    if not cond:
      self.violation(what, case, expected, got)
    return bool(cond)

  def guarded(self, what, fn, case=None):
    try:
      return True, fn()
    except Exception as e:  # pylint: disable=broad-except
      import traceback
      self.violation(f'{what}: raised {type(e).__name__}: {str(e)[:300]}', case, None, traceback.format_exc()[-900:])
      return False, None

  def expect_raises(self, what, fn, case, exc):
    try:
      fn()
    except exc:
      return
    except Exception as e:  # pylint: disable=broad-except
      self.violation(f'{what}: wrong exception {type(e).__name__}: {e}', case)
      return
    self.violation(f'{what}: accepted', case)


def work(item):
  kind, arg, thorough = item
  if kind == 'history':
    return [history(h) for h in arg]
  quiet()
  log = Log(thorough)
  log.guarded(kind, lambda: globals()[kind](log, arg), arg)
  return log.cases, log.bad


TITLES = dict(forms='examples and options', metrics='metric functions', loops='whole loops',
              sources='where a session starts', batches='batches of a task')


def check(ck):
  hs = list(itertools.product(OPS if ck.thorough else QUICK_OPS, repeat=ck.pick(3, 4)))
  # inference leaves no trace, so a history of inference only adds little
  hs = [h for h in hs if sum(o[0] == 'T' for o in h) >= ck.pick(1, 2)]
  n = ck.pick(8, 32)
  items = [('history', hs[i::n], ck.thorough) for i in range(n)]
  items += [('forms', (eos, k), ck.thorough) for eos in (True, False) for k in range(2)]
  items += [('metrics', k, ck.thorough) for k in range(4)]
  items += [('loops', None, ck.thorough), ('batches', None, ck.thorough)]
  items += [('sources', k, ck.thorough) for k in range(2)]
  res = par.pmap('i05', 'work', items, jobs=8)
  ck.part('histories of a session')
  for (kind, arg, _), r in zip(items, res):
    if kind == 'history':
      for h, bad in zip(arg, r):
        ck.case(h, sample=' '.join(h))
        ck.state(h)
        ck.transition(len(h))
        ck.trace()
        for b in bad:
          ck.violation(b, dict(history=h))
  for (kind, arg, _), r in zip(items, res):
    if kind != 'history':
      ck.part(TITLES[kind])
      for c in r[0]:
        ck.case(c, sample=c)
        ck.state(c)
        ck.transition()
        ck.trace()
      for what, case, want, got in r[1]:
        ck.violation(what, case, want, got)


def scratch():
  return tempfile.mkdtemp(prefix='verif_i05_')


def forms(ck, part):
  """Number and form of examples, options of inference."""
  import seqio
  from t5x import interactive_model as im
  root = scratch()
  try:
    for eos in (part[0],):
      d = os.path.join(root, str(eos))
      m = session(d, add_eos=eos)
      ref = Ref()
      tr = pick(3, 2)
      m.train_step(given(tr))
      ref.train(tr, eos)
      for start, n in list(itertools.product(range(ck.pick(2, 7)), range(1, ck.pick(6, 8))))[part[1]::2]:
        exs = pick(start, n)
        for strings in (False, True):
          case = dict(eos=eos, examples=exs, strings=strings)
          ck.case(str(case))
          if strings:
            exs2 = [(a, '') for a, _ in exs]
            arg = [a for a, _ in exs]
          else:
            exs2, arg = exs, given(exs)
          ok, r = ck.guarded('predicting', lambda: m.predict_with_aux(arg), case)
          if ok:
            want = ref.predict(exs2, eos)
            for b in inferences_wrong(r[0], exs2, want[0], r[1], want[1]):
              ck.violation('predicting: ' + b, case)
          ok, r = ck.guarded('scoring', lambda: m.score(arg), case)
          if ok:
            for b in inferences_wrong(r, exs2, ref.score(exs2, eos)):
              ck.violation('scoring: ' + b, case)
      # too few examples for a step
      ck.expect_raises('training on less than a batch', lambda: m.train_step(given(pick(0, 1))), dict(eos=eos), ValueError)
      for b in state_wrong(m, ref, d, True):
        ck.violation('after a refused step: ' + b, dict(eos=eos))
      # options that differ between calls
      for order in list(itertools.product((0, 1), repeat=2))[part[1]::2]:
        for s in order:
          case = dict(eos=eos, shifts=order)
          ck.case(str(case) + str(s))
          exs = pick(1, 3)
          ok, r = ck.guarded('predicting with an option', lambda: m.infer_with_preprocessors(
              im.InferenceType.PREDICT_WITH_AUX, given(exs),
              [seqio.preprocessors.tokenize, seqio.preprocessors.append_eos], shift=s), case)
          if ok:
            want = [bytes(c + s for c in x) for x in ref.predict(exs, eos)[0]]
            for b in inferences_wrong(r[0], exs, want):
              ck.violation('predicting with an option: ' + b, case)
  finally:
    shutil.rmtree(root, ignore_errors=True)


def metrics(ck, part):
  root = scratch()
  try:
    m = session(root)
    ref = Ref()
    m.train_step(given(pick(0, 2)))
    ref.train(pick(0, 2))
    up = lambda x, **kw: x.upper() if isinstance(x, bytes) else x
    orders = [k for r in range(1, 4) for k in itertools.permutations('pas', r)]
    for i, kinds in enumerate(orders):
      if i % 4 == part:
        for n in ck.pick((1, 3), (1, 2, 3, 5)):
          for post in ck.pick(((None, up)[(i // 4 + n // 2) % 2],), (None, up)):
            case = dict(metrics=kinds, examples=n, postprocessed=bool(post))
            ck.case(str(case))
            ok, bad = ck.guarded('evaluating', lambda: evaluation_wrong(m, ref, pick(n, n), kinds, post), case)
            for b in bad or ():
              ck.violation('evaluating: ' + b, case)
    fns = metric_fns([])
    ck.expect_raises('two metrics of one name', lambda: m.evaluate(given(pick(0, 2)), [fns['p'], fns['p']]), None, ValueError)
    ck.expect_raises('a metric function of another form', lambda: m.evaluate(
        given(pick(0, 2)), [lambda targets, other: {}]), None, ValueError)
  finally:
    shutil.rmtree(root, ignore_errors=True)


def loops(ck, part):
  """train_loop: how many steps, on which batches, evaluated when."""
  root = scratch()
  try:
    m = session(os.path.join(root, 'r'))
    ref = Ref()
    single = given(pick(0, 2))
    lists = {n: [given(pick(2 * i, 2)) for i in range(n)] for n in (1, 2, 3)}
    from unittest import mock
    for steps, nb, period in itertools.product(range(1, ck.pick(6, 8)), ('none', 'single', 1, 2, 3), (1, 2, 3)):
      for inf in ('none', 'single', 2):
        case = dict(steps=steps, train_batches=nb, eval_period=period, other_batches=inf)
        ck.case(str(case))
        tb = None if nb == 'none' else single if nb == 'single' else lists[nb]
        ob = None if inf == 'none' else given(pick(4, 2)) if inf == 'single' else [given(pick(4, 2)), given(pick(5, 3))]
        obl = [] if inf == 'none' else [ob] if inf == 'single' else ob
        log = []
        wrap = lambda n: mock.patch.object(m, n, side_effect=lambda b, *a: log.append((n, b)) or (
            (f'{n}{len(log)}', {}) if n == 'predict_with_aux' else f'{n}{len(log)}'))
        with wrap('train_step'), wrap('predict_with_aux'), wrap('score'), wrap('evaluate'):
          ok, got = ck.guarded('train_loop', lambda: m.train_loop(
              steps, period, tb, ob, ob, ob, [] if inf == 'none' else [lambda targets, scores: {}]), case)
        if not ok:
          continue
        want = []
        for s in range(steps):
          if tb:
            want.append(('train_step', single if nb == 'single' else lists[nb][s % nb]))
          if s % period == 0:
            for n in ('predict_with_aux', 'score', 'evaluate'):
              want += [(n, b) for b in obl]
        ck.expect(log == want, 'train_loop does not run the calls asked for', case,
                  [(n, str(b)[:60]) for n, b in want], [(n, str(b)[:60]) for n, b in log])
        last = tuple(next((f'{n}{i + 1}' for i in reversed(range(len(want))) if want[i][0] == n), None)
                     for n in ('predict_with_aux', 'score', 'evaluate'))
        if log == want:
          ck.expect(tuple(got) == last, 'train_loop does not return its last results', case, last, got)
    # and once for real
    fns = metric_fns([])
    for steps, nb in ((3, 2), (2, 3), (2, 'single')):
      tb = single if nb == 'single' else lists[nb]
      case = dict(steps=steps, train_batches=nb, real=True)
      ck.case(str(case))
      ok, got = ck.guarded('train_loop', lambda: m.train_loop(
          steps, 1, tb, [given(pick(3, 3))], [given(pick(3, 3))], [given(pick(3, 3))], [fns['s'], fns['p']]), case)
      if ok:
        for s in range(steps):
          ref.train(pick(0, 2) if nb == 'single' else pick(2 * (s % nb), 2))
        bad = state_wrong(m, ref, os.path.join(root, 'r'), True)
        bad += inferences_wrong(got[0], pick(3, 3), ref.predict(pick(3, 3))[0])
        bad += inferences_wrong(got[1], pick(3, 3), ref.score(pick(3, 3)))
        if dict(got[2]) != dict(s=3, p=3):
          bad.append(f'metrics {got[2]}')
        for b in bad:
          ck.violation('train_loop: ' + b, case)
  finally:
    shutil.rmtree(root, ignore_errors=True)


def sources(ck, part):
  """Where a session starts from."""
  from t5x import checkpoints
  root = scratch()
  try:
    other = os.path.join(root, 'other')
    m = session(other)
    refs = {}
    ref = Ref()
    for s in range(2):
      m.train_step(given(pick(s, 2)))
      ref.train(pick(s, 2))
      refs[ref.step] = list(ref.w)
    own = os.path.join(root, 'own')
    m = session(own)
    ref = Ref()
    for s in range(ck.pick(7, 8)):
      m.train_step(given(pick(s + 3, 2)))
      ref.train(pick(s + 3, 2))
    got = checkpoints.all_steps(own)
    want = list(range(max(1, ref.step - 4), ref.step + 1))
    ck.case('kept')
    ck.expect(list(got) == want, 'the session keeps the newest five checkpoints', None, want, got)
    for n, (have, mode, path, dtype) in enumerate(itertools.product(
        (False, True), ('none', 'latest', 'specific'), (1, 2), ('float32', 'bfloat16', None))):
      if n % 2 != part:
        continue
      if mode != 'specific' and path == 2:
        continue
      d = os.path.join(root, f'd{n}')
      if have:
        shutil.copytree(own, d)
      case = dict(own_checkpoints=have, restore=mode, path=path, dtype=dtype)
      ck.case(str(case))
      kw = {}
      if mode == 'latest':
        kw = dict(checkpoint_path=other, restore_mode='latest')
        want = 2, refs[2]
      elif mode == 'specific':
        kw = dict(checkpoint_path=os.path.join(other, f'checkpoint_{path}'), restore_mode='specific')
        want = path, refs[path]
      else:
        want = (ref.step, ref.w) if have else (0, [0] * NV)
      ok, m = ck.guarded('starting a session', lambda: session(d, dtype=dtype, **kw), case)
      if ok:
        ck.expect((m.step, weights(m)) == (want[0], list(want[1])), 'the session starts from another state', case,
                  want[0], m.step)
        if dtype and (have or mode != 'none'):
          ck.expect(str(m.train_state.params['w'].dtype) == dtype, 'the session starts with another type', case,
                    dtype, m.train_state.params['w'].dtype)
        if dtype != 'bfloat16':
          r = Ref()
          r.step, r.w = want[0], list(want[1])
          ok, _ = ck.guarded('training on', lambda: m.train_step(given(pick(2, 2))), case)
          r.train(pick(2, 2))
          if ok:
            bad = state_wrong(m, r, d, False)
            m2 = session(d, dtype=dtype)
            bad += ['a new session: ' + b for b in state_wrong(m2, r, d, False)] if r.step > (ref.step if have else 0) else []
            for b in bad:
              ck.violation('training on: ' + b, case)
  finally:
    shutil.rmtree(root, ignore_errors=True)


def batches(ck, part):
  """Batches out of a registered task."""
  import seqio
  import tensorflow as tf
  from t5x import interactive_model as im
  root = scratch()
  try:
    texts = [(f'i{k}', f't{k}') for k in range(7)]

    def fn(split, shuffle_files=False, seed=None):
      return tf.data.Dataset.from_tensor_slices(dict(inputs=[a for a, _ in texts], targets=[b for _, b in texts]))

    if 'verif_i05' not in seqio.TaskRegistry.names():
      seqio.TaskRegistry.add('verif_i05', source=seqio.FunctionDataSource(fn, splits=['train']),
                             preprocessors=[seqio.preprocessors.tokenize, seqio.preprocessors.append_eos],
                             output_features={k: seqio.Feature(vocab()) for k in ('inputs', 'targets')})
    for bs, nb, text in itertools.product(range(1, 8), range(1, 8), (True, False)):
      case = dict(batch_size=bs, batches=nb, text=text)
      ck.case(str(case))
      call = lambda: im.get_batches_from_seqio('verif_i05', 'train', bs, nb, text, sequence_length=dict(inputs=9, targets=9), shuffle=False)
      if bs * nb > len(texts):
        ck.expect_raises('more batches than examples', call, case, ValueError)
        continue
      ok, got = ck.guarded('get_batches_from_seqio', call, case)
      if ok:
        enc = (lambda t: t.encode()) if text else (lambda t: [b + 3 for b in t.encode()] + [1])
        want = [[{'input': enc(a), 'target': enc(b)} for a, b in texts[i * bs:(i + 1) * bs]] for i in range(nb)]
        ck.expect([list(b) for b in got] == want, 'other batches than those of the task', case, want[:2], got[:2])
    # a task made of examples holds exactly these
    m = session(os.path.join(root, 's'))
    for n in range(1, 5):
      exs = pick(n, n)
      ck.case(('task', n))
      name = f'verif_i05_made_{n}_{os.getpid()}'
      ok, t = ck.guarded('get_seqio_task_from_examples', lambda: im.get_seqio_task_from_examples(
          name, m, given(exs), [seqio.preprocessors.tokenize, seqio.preprocessors.append_eos]), exs)
      if ok:
        got = [(list(map(int, e['inputs'])), list(map(int, e['targets']))) for e in t.get_dataset(
            sequence_length=LEN, split='train', shuffle=False).as_numpy_iterator()]
        want = [(tokens(a, 'inputs'), tokens(b, 'targets')) for a, b in exs]
        ck.expect(got == want, 'the task holds other examples', exs, want, got)
  finally:
    shutil.rmtree(root, ignore_errors=True)
