"""I02: continuous evaluation across restarts."""
import itertools
import os

import lib_ckpt as lc
from mc import crashfs

CRASHFS = True
TECHNIQUE = 'crash'
LEVEL = 'fault_enumeration'
MANUAL_GC = True  # trainers close threads when collected
RULE = ('every directory image between two consecutive mutating libc calls, and half-done '
        'versions of every write, of evaluation runs over every checkpoint set of the alphabet '
        '(T5X and TensorFlow layouts); each image is restarted, with and without new '
        'checkpoints, and (thorough) crashed again at every point; every restore mode over '
        'every directory content; distinct = (checkpoints, image, position)')
ASSUMPTIONS = [
    'a crash loses no completed libc call (process death, not power loss)',
    'the evaluator and the restoring of parameters are stand-ins in the crash part; a '
    'checkpoint counts as evaluated once its metrics are finished',
    'one checkpoint directory per evaluation job']

NAME = 'task'


class Future:

  def __init__(self, fn):
    self.fn = fn

  def result(self):
    self.fn()
    return {}


class Evaluators:
  """The log of evaluations, and the stand-ins writing to it."""

  def __init__(self):
    self.started, self.done, self.trained, self.recorder, self.fail_at = [], [], [], None, None
    log = self

    class Seqio:
      eval_tasks = [NAME]
      model_feature_shapes = {'encoder_input_tokens': (4,)}

      def __init__(self, **kw):
        log.kw = kw

      def evaluate(self, compute_metrics, step, predict_fn, score_fn, predict_with_aux_fn):
        log.started.append(step)
        if log.fail_at is not None and len(log.started) > log.fail_at:
          raise KeyboardInterrupt()

        def finish():
          log.done.append(step)
          if log.recorder:
            log.recorder.mark(len(log.done))

        return Future(finish), None

      def close(self):
        pass

    class Train:

      def __init__(self, **kw):
        log.train_kw = kw
        self.train_state = kw['train_state']

      def eval(self, iters):
        log.trained.append((int(self.train_state.step), {k: list(v) for k, v in iters.items()}))

    self.seqio, self.train = Seqio, Train


def model():
  import flax.linen.partitioning as fp
  import jax.numpy as jnp

  class Model:

    def FEATURE_CONVERTER_CLS(self, pack):  # pylint: disable=invalid-name
      return None

    def get_initial_variables(self, rng, input_shapes, input_types=None):
      return {'params': {'w': jnp.ones((2,))},
              'params_axes': {'w_axes': fp.AxisMetadata(names=('embed',))}}

    def predict_batch(self, params, batch):
      raise NotImplementedError

    predict_batch_with_aux = score_batch = predict_batch

  return Model()


def check(ck):
  import jax
  import jax.numpy as jnp
  from t5x import checkpoints
  from t5x import eval as eval_lib
  from t5x import train_state as ts_lib
  from t5x import utils
  part = lc.partitioner()
  sc = crashfs.Scratch()

  import re

  class Reader:
    """Stand-in checkpointer: the state of step n."""

    def __init__(self, train_state, partitioner, checkpoints_dir, **kw):
      self.shape = train_state

    def _load(self, path):
      step = int(re.search(r'(\d+)/?$', path).group(1))
      return ts_lib.InferenceState(step=jnp.asarray(step), params={'w': jnp.full((2,), step)},
                                   params_axes=self.shape.params_axes)

    def restore(self, path=None, **kw):
      if not os.path.exists(path):
        raise FileNotFoundError(path)
      return self._load(path)

    def restore_from_tf_checkpoint(self, path, strict=True):
      if not os.path.exists(path + '.index'):
        raise FileNotFoundError(path)
      return self._load(path)

  def run(ckpts, out, ev, mode='all', reader=Reader, model_=None, **kw):
    eval_lib.evaluate(
        model=model_ or model(),
        dataset_cfg=utils.DatasetConfig(
            mixture_or_task_name=NAME, task_feature_lengths={}, split='v', batch_size=2,
            shuffle=False, seed=0),
        restore_checkpoint_cfg=(
            ckpts if isinstance(ckpts, utils.RestoreCheckpointConfig) else
            utils.RestoreCheckpointConfig(path=ckpts, mode=mode, checkpointer_cls=reader)),
        partitioner=part, output_dir=out, inference_evaluator_cls=ev.seqio,
        summarize_config_fn=lambda **k: None, use_orbax=kw.pop('use_orbax', False), **kw)

  def t5x_ckpt(d, step):
    p = os.path.join(d, f'checkpoint_{step}')
    os.makedirs(p)
    with open(os.path.join(p, 'checkpoint'), 'wb') as f:
      f.write(b'\x80')

  def tf_ckpts(d, steps):
    for s in steps:
      for ext in ('.index', '.data-00000-of-00001'):
        open(os.path.join(d, f'model.ckpt-{s}{ext}'), 'wb').close()
    paths = [os.path.join(d, f'model.ckpt-{s}') for s in steps]
    with open(os.path.join(d, 'checkpoint'), 'w') as f:
      f.write(f'model_checkpoint_path: "{paths[-1]}"\n')
      for p in paths:
        f.write(f'all_model_checkpoint_paths: "{p}"\n')

  # ---- every crash point
  ck.part('crash at every point, restart')
  alphabet = (0, 2, 10, 9, 100)
  sets = [c for n in (1, 2, 3) for c in itertools.combinations(sorted(alphabet), n)]
  sets += [tuple(sorted(alphabet))]
  seen = set()

  def one(layout, steps, new, crashes, out_files, dirs, evaluated, tag, dirname='ckpts'):
    """Restart from an image; returns the images of the restarted run."""
    root = sc.new()
    d = os.path.join(root, dirname)
    os.makedirs(d)
    out = os.path.join(root, 'out')
    os.makedirs(out)
    crashfs.Image(out_files, dirs, '', 0).write(out)
    if layout == 't5x':
      for s in sorted(steps + new):
        t5x_ckpt(d, s)
    else:
      tf_ckpts(d, sorted(steps + new))
    ev = Evaluators()
    images = []
    what = dict(layout=layout, checkpoints=sorted(steps + new), crash=tag, directory=dirname,
                evaluated_before=sorted(evaluated),
                record=out_files.get(f'eval.{NAME}.ckpt', b'(none)'))
    with crashfs.Recorder(out) as r:
      ev.recorder = r
      ok, _ = ck.guarded('restarting evaluation', lambda: run(d, out, ev), what)
    # Images name the scratch directory; keep them relocatable.
    images = r.crash_points()
    if ok:
      missing = set(steps + new) - set(evaluated) - set(ev.done)
      ck.expect(not missing, 'checkpoints skipped', what, [], sorted(missing))
      again = [s for s in ev.done if s in evaluated]
      ck.expect(len(again) <= 1 and set(again) <= set(evaluated[-1:]),
                'checkpoints evaluated again', what, evaluated[-1:], again)
      ck.expect(list(ev.done) == sorted(set(ev.done)), 'order of evaluation', what,
                sorted(set(ev.done)), ev.done)
      ck.expect(ev.started == ev.done, 'unfinished evaluation', what, ev.started, ev.done)
      ev2 = Evaluators()
      ok, _ = ck.guarded('evaluating again when done', lambda: run(d, out, ev2), what)
      if ok:
        ck.expect(not ev2.done, 'evaluated again when all were done', what, [], ev2.done)
    rel = [(im, {p: b.replace(root.encode(), b'@ROOT@') for p, b in im.files.items()})
           for im in images]
    ck.case((layout, steps, new, crashes, tag, hash(frozenset(out_files.items())), tuple(evaluated), dirname))
    ck.state((layout, steps, new, hash(frozenset(out_files.items())), tuple(evaluated), dirname))
    ck.transition(len(images))
    ck.trace()
    done = list(ev.done)
    sc.clear(root)
    return rel, done

  def place(files):
    # Where the next scratch directory will be.
    root = os.path.join(sc.path, f'd{sc.n + 1}').encode()
    return {p: b.replace(b'@ROOT@', root) for p, b in files.items()}

  def explore(layout, steps, new, depth, files, dirs, evaluated, tag, dirname='ckpts'):
    rel, done = one(layout, steps, new if depth < top else (), depth, place(files), dirs,
                    evaluated, tag, dirname)
    if depth == 0:
      return
    order = evaluated + [s for s in done]
    for im, f in rel:
      ev = order[:len(evaluated) + im.mark]
      # A checkpoint evaluated twice counts at its last evaluation.
      ev = [s for i, s in enumerate(ev) if s not in ev[i + 1:]]
      k = (layout, steps, new, depth, dirname, hash(frozenset(f.items())), tuple(ev))
      if k in seen:
        continue
      seen.add(k)
      explore(layout, steps, new, depth - 1, f, im.dirs, ev,
              f'{tag} / {"half of " if im.torn else ""}{im.op.split(" ")[0]} '
              f'{os.path.basename(im.op)} after {im.mark} evaluations', dirname)

  top = 1
  for steps in sets:
    for layout in ('t5x', 'tf'):
      for new in ((), (11,)) if len(steps) < 3 else ((),):
        explore(layout, steps, new, 1, {}, frozenset(), [], 'start')
  for dirname in ('with space', 'x/y', '1', 'checkpoint_7'):
    explore('t5x', (2, 9, 10), (), 1, {}, frozenset(), [], 'start', dirname)
  if ck.thorough:
    top = 2
    for steps in [s for s in sets if len(s) < 4]:
      for new in ((), (11,)):
        explore('t5x', steps, new, 2, {}, frozenset(), [], 'start')
  ck.sample(dict(sets=sets))

  # ---- evaluation itself dies
  ck.part('failing evaluation, restart')
  for steps in sets:
    for at in range(len(steps)):
      for at2 in range(len(steps) - at):
        root = sc.new()
        d, out = os.path.join(root, 'c'), os.path.join(root, 'o')
        os.makedirs(d)
        os.makedirs(out)
        for s in steps:
          t5x_ckpt(d, s)
        total = []
        for f in (at, at2, None):
          ev = Evaluators()
          ev.fail_at = f
          try:
            run(d, out, ev)
          except KeyboardInterrupt:
            pass
          total += ev.done
        ck.expect(total == sorted(steps), 'evaluations over three runs', dict(
            checkpoints=steps, dies_during=(at, at2)), sorted(steps), total)
        ck.case((steps, at, at2))
        sc.clear(root)

  # ---- restore modes
  ck.part('restore modes')
  junk = [(), ('checkpoint_7.tmp-12', 'checkpoint_', 'checkpoint_x', 'other_3', 'checkpoint_4_5')]
  for n in range(4):
    for steps in itertools.combinations(alphabet, n):
      for extra in junk:
        d = sc.new()
        for s in steps:
          t5x_ckpt(d, s)
        for j in extra:
          os.makedirs(os.path.join(d, j))
        want = sorted(steps)
        path = {s: os.path.join(d, f'checkpoint_{s}') for s in steps}
        for mode in ('all', 'latest', 'specific'):
          for form in ('str', 'list'):
            cases = [(d, want if mode == 'all' else want[-1:])] if mode != 'specific' else [
                (path[s], [s]) for s in steps]
            if mode == 'specific' and form == 'list' and len(steps) > 1:
              cases.append(([path[s] for s in steps], list(steps)))
            for p, w in cases:
              p = p if form == 'str' or isinstance(p, list) else [p]
              case = dict(mode=mode, path=p if isinstance(p, list) else os.path.basename(p), steps=steps, junk=extra)
              cfg = utils.RestoreCheckpointConfig(path=p, mode=mode)
              ok, got = ck.guarded('restore paths', lambda: utils.get_first_valid_restore_config_and_paths([cfg]), case)
              if not ok:
                continue
              cfg2, paths = got
              if w:
                ck.expect(cfg2 is cfg and list(paths) == [path[s] for s in w], 'paths of the mode',
                          case, w, list(paths))
              else:
                ck.expect(cfg2 is None and not paths, 'nothing to restore', case, None, list(paths))
              ck.case((steps, extra, mode, form, str(case['path'])))
        sc.clear(d)

  # Several configurations: the first with checkpoints wins.
  dirs = []
  for steps in ((), (3,), (1, 4)):
    d = sc.new()
    for s in steps:
      t5x_ckpt(d, s)
    dirs.append((d, steps))
  for n in (0, 1, 2, 3):
    for combo in itertools.product(dirs, repeat=n):
      for modes in itertools.product(('all', 'latest'), repeat=n):
        for merged in (False, True):
          if merged and (n < 1 or len(set(modes)) > 1):
            continue
          cfgs = ([utils.RestoreCheckpointConfig(path=[d for d, _ in combo], mode=modes[0])] if merged else
                  [utils.RestoreCheckpointConfig(path=d, mode=m) for (d, _), m in zip(combo, modes)])
          first = next((i for i, (_, s) in enumerate(combo) if s), None)
          case = dict(directories=[s for _, s in combo], modes=modes, one_config=merged)
          ok, got = ck.guarded('restore paths', lambda: utils.get_first_valid_restore_config_and_paths(cfgs), case)
          if not ok:
            continue
          if first is None:
            ck.expect(got[0] is None and not got[1], 'nothing to restore', case, None, list(got[1]))
          else:
            d, s = combo[first]
            w = [os.path.join(d, f'checkpoint_{x}') for x in (s if modes[first] == 'all' else s[-1:])]
            ck.expect(got[0] is cfgs[0 if merged else first] and list(got[1]) == w, 'first valid configuration', case, w, list(got[1]))
          ck.case((tuple(s for _, s in combo), modes, merged))
  missing = os.path.join(sc.path, 'no-such-directory')
  for mode in ('all', 'latest'):
    ck.expect_raises('missing directory', lambda: utils.get_first_valid_restore_config_and_paths(
        [utils.RestoreCheckpointConfig(path=missing, mode=mode)]), dict(mode=mode), ValueError)
    ck.case((mode, 'missing'))
  ck.expect_raises('unknown mode', lambda: utils.RestoreCheckpointConfig(path='x', mode='first'), None, ValueError)

  # ---- modes through evaluate, twice with one configuration
  ck.part('modes through evaluation')
  for steps in [s for s in sets if len(s) <= 3]:
    for mode in ('all', 'latest', 'specific'):
      root = sc.new()
      d, out = os.path.join(root, 'c'), os.path.join(root, 'o')
      os.makedirs(d)
      os.makedirs(out)
      for s in steps:
        t5x_ckpt(d, s)
      p = d if mode != 'specific' else [os.path.join(d, f'checkpoint_{s}') for s in steps]
      cfg = utils.RestoreCheckpointConfig(path=p, mode=mode, checkpointer_cls=Reader)
      w = {'all': list(steps), 'latest': list(steps[-1:]), 'specific': list(steps)}[mode]
      for turn in range(3):
        ev = Evaluators()
        case = dict(mode=mode, steps=steps, turn=turn)
        data = [{'x': 1}, {'x': 2}]
        ok, _ = ck.guarded('evaluate', lambda: run(
            cfg, out, ev, training_evaluator_cls=ev.train,
            train_eval_get_dataset_fn=lambda *a, **k: {'t': list(data)}), case)
        if ok:
          # Only the mode for all checkpoints keeps a record to skip by.
          ww = [] if mode == 'all' and turn else w
          ck.expect(ev.done == ww, 'evaluated', case, ww, ev.done)
          ck.expect([s for s, _ in ev.trained] == ww, 'training evaluation', case, ww, ev.trained)
          ck.expect(all(x == {'t': data} for _, x in ev.trained), 'training evaluation data', case, data, ev.trained)
          ck.expect(cfg.mode == mode and cfg.path == p, 'the configuration is left alone', case,
                    (mode, p), (cfg.mode, cfg.path))
        ck.case((steps, mode, turn))
      sc.clear(root)

  # ---- real checkpoints
  ck.part('real checkpoints')
  ini = utils.TrainStateInitializer(
      optimizer_def=lc.optimizer_def('sgd'), init_fn=model().get_initial_variables,
      input_shapes={'encoder_input_tokens': (2, 4)}, partitioner=part)
  st = ini.from_scratch(jax.random.PRNGKey(0))

  def state(n):
    s = st.replace_step(jnp.asarray(n, jnp.int32))
    return s.replace_params({'w': jnp.full((2,), n + 0.5)})

  for orbax in (False, True):
    for steps in ((3,), (9, 10), (0, 2, 11)):
      root = sc.new()
      d, out = os.path.join(root, 'c'), os.path.join(root, 'o')
      os.makedirs(d)
      os.makedirs(out)
      for s in steps:
        if orbax:
          m = checkpoints.OrbaxCheckpointManagerInterface(d, state(s), part)
          m.save(state(s))
          m.close()
        else:
          checkpoints.Checkpointer(state(s), part, d).save(state(s))
      for split in range(len(steps) + 1):
        out = sc.new()
        case = dict(orbax=orbax, steps=steps, dies_after=split)
        ev = Evaluators()
        params = []

        class Seqio(ev.seqio):

          def evaluate(self, compute_metrics, step, predict_fn, **kw):
            ts = predict_fn.keywords['train_state']
            params.append((int(ts.step), float(ts.params['w'][0])))
            return super().evaluate(compute_metrics, step, predict_fn, **kw)

        ev.seqio = Seqio
        ev.fail_at = split

        def twice():
          for _ in range(2):
            try:
              run(d, out, ev, reader=checkpoints.Checkpointer, use_orbax=orbax)
            except KeyboardInterrupt:
              pass
            ev.fail_at = None

        ok, _ = ck.guarded('evaluate', twice, case)
        if ok:
          ck.expect(ev.done == list(steps), 'evaluated', case, steps, ev.done)
          ck.expect(all(p == s + 0.5 for s, p in params), 'parameters evaluated', case, None, params)
        ck.case((orbax, steps, split))
        sc.clear(out)
      sc.clear(root)

  # ---- what a configuration does to the parameters it does in every run
  ck.part('remapped parameters across restarts')

  class Two:
    FEATURE_CONVERTER_CLS = model().FEATURE_CONVERTER_CLS  # pylint: disable=invalid-name
    predict_batch = predict_batch_with_aux = score_batch = None

    def get_initial_variables(self, rng, input_shapes, input_types=None):
      import flax.linen.partitioning as fp
      return {'params': {k: jnp.ones((2,)) for k in 'abc'},
              'params_axes': {f'{k}_axes': fp.AxisMetadata(names=('embed',)) for k in 'abc'}}

  ini3 = utils.TrainStateInitializer(
      optimizer_def=lc.optimizer_def('sgd'), init_fn=Two().get_initial_variables,
      input_shapes={'encoder_input_tokens': (2, 4)}, partitioner=part)
  st3 = ini3.from_scratch(jax.random.PRNGKey(0))
  steps = (2, 9, 10)
  BASE = dict(a=1000.0, b=2000.0, c=3000.0)
  made = {}
  for orbax in (False, True):
    d = sc.new()
    for n in steps:
      s = st3.replace_step(jnp.asarray(n, jnp.int32)).replace_params({k: jnp.full((2,), v + n) for k, v in BASE.items()})
      if orbax:
        m = checkpoints.OrbaxCheckpointManagerInterface(d, s, part)
        m.save(s)
        m.close()
      else:
        checkpoints.Checkpointer(s, part, d).save(s)
    made[orbax] = d

  def renamed(sd, target, is_resuming=False):
    """A user's transformation: rotates the values of the parameters."""
    t = sd['target']
    return dict(sd, target=dict(t, a=t['b'], b=t['c'], c=t['a']))

  for choice in itertools.product('abc', repeat=3):
    rules = [(f'target/{k}', f'target/{c}') for k, c in zip('abc', choice) if k != c]
    for extra in ((), (renamed,)):
      if extra and (not ck.thorough and len(set(choice)) < 3):
        continue
      for orbax in ((False, True) if ck.thorough or len(set(choice)) == 3 else (False,)):
        want = dict(zip('abc', choice))
        if extra:
          want = dict(a=want['b'], b=want['c'], c=want['a'])
        for split in ((0, 1, 3) if ck.thorough or len(set(choice)) == 3 else (1,)):
          out = sc.new()
          case = dict(map=rules, extra=bool(extra), orbax=orbax, dies_after=split)
          got = []
          ev = Evaluators()

          class Seqio(ev.seqio):

            def evaluate(self, compute_metrics, step, predict_fn, **kw):
              ts = predict_fn.keywords['train_state']
              got.append((int(ts.step), {k: float(ts.params[k][0]) for k in 'abc'}))
              return super().evaluate(compute_metrics, step, predict_fn, **kw)

          ev.seqio = Seqio
          ev.fail_at = split

          def runs():
            for _ in range(3):
              try:
                run(utils.RestoreCheckpointConfig(
                    path=made[orbax], mode='all', checkpointer_cls=checkpoints.Checkpointer,
                    assignment_map=rules or None, state_transformation_fns=extra),
                    out, ev, use_orbax=orbax, model_=Two())
              except KeyboardInterrupt:
                pass
              ev.fail_at = None

          ok, _ = ck.guarded('evaluate', runs, case)
          if ok:
            ck.expect(ev.done == list(steps), 'evaluated', case, steps, ev.done)
            for n, p in got:
              w = {k: BASE[v] + n for k, v in want.items()}
              ck.expect(p == w, 'parameters evaluated', dict(case, checkpoint=n, evaluation=got.index((n, p))), w, p)
          ck.case((choice, bool(extra), orbax, split), sample=case if split == 1 and rules else None)
          sc.clear(out)
