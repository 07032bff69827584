"""T04: schedule of the training loop, over the real train.train with recording stand-ins."""
import gc
import itertools
import os
import types

import numpy as np

TECHNIQUE = 'hist'
LEVEL = 'exploration'
RULE = ('every combination of first step, total steps, checkpoint/evaluation/collection/statistics period, '
        'checkpoint_steps and manager kind within the bounds, and every kill, preemption and stop point of '
        'the histories; distinct = configuration plus fault point')
ASSUMPTIONS = ['checkpoint_steps is sorted in increasing order',
               'actions are used with concurrent_metrics off, as their documentation requires']


class Kill(Exception):
  pass


def check(ck):
  import clu.data.dataset_iterator as cdi
  from unittest import mock
  from mc import crashfs
  from t5x import checkpoints, partitioning, train as train_lib, trainer as trainer_lib, utils

  part = partitioning.PjitPartitioner(num_partitions=1)
  scratch = crashfs.Scratch()

  class State:
    def __init__(self, step):
      self.step = step

    def state_dict(self):
      return {'target': {'w': np.zeros(2)}, 'state': {'step': np.int32(self.step)}}

  class Axes:
    def state_dict(self):
      return {'target': {'w': None}, 'state': {'step': None}}

  class Part:
    mesh = part.mesh
    data_partition_spec = part.data_partition_spec
    get_data_layout = lambda self, n: part.get_data_layout(n)
    get_logical_axes = lambda self, s: Axes()
    get_mesh_axes = lambda self, s: Axes()

  class Data(cdi.DatasetIterator):
    def __init__(self):
      self.i = 0

    def __next__(self):
      self.i += 1
      return {'x': np.full((1, 1), self.i - 1, np.int32)}

    @property
    def element_spec(self):
      return {'x': cdi.ArraySpec(np.dtype('int32'), (1, 1))}

    def reset(self):
      self.i = 0

    def save(self, f):
      pass

    def restore(self, f):
      pass

  class Fut:
    def __init__(self, v):
      self.v = v

    def result(self):
      return self.v

  class Env:
    """One model directory; `run` performs one training run in it."""

    def __init__(self):
      self.dir = scratch.new()

    def steps(self):
      return sorted(checkpoints.all_steps(self.dir))

    def put(self, step):
      d = os.path.join(self.dir, 'checkpoint_%d' % step)
      os.makedirs(d)
      for n in ('checkpoint', ):
        with open(os.path.join(d, n), 'w') as f:
          f.write('x')

    def run(self, T, C=None, E=0, G=0, S=None, steps=(), orbax=False, fault=None, stop=None, infer=False,
            evals=True, rel=None, before=False, preempt=None):
      env, ev = self, []

      def note(*e):
        if fault is not None and len(ev) == fault:
          raise Kill(e)
        ev.append(e)

      class Mgr:  # the Orbax-style manager
        def __init__(self, **k):
          ev_kind.append('orbax')
          assert k['directory'] == env.dir

        def all_steps(self):
          return env.steps()

        def save(self, state, fns=(), force=True):
          s = int(state.step)
          if s in env.steps():
            raise ValueError('Checkpoint for step %d already exists.' % s)
          note('save', s)
          env.put(s)

        def restore(self, path, fallback_state=None, state_transformation_fns=(), lazy_parameters=False, **k):
          return State(int(path.rsplit('_', 1)[1]))

        def wait_until_finished(self):
          note('wait')

        def close(self):
          note('close')

      class Ckpt:  # the legacy checkpointer
        def __init__(self, **k):
          self.d = k['checkpoints_dir']

        def save(self, state, state_transformation_fns=(), *, concurrent_gb=128):
          assert self.d == env.dir
          s = int(state.step)
          note('save', s)
          if s not in env.steps():
            env.put(s)

        def restore(self, path=None, step=None, fallback_state=None, state_transformation_fns=(), lazy_parameters=False, **k):
          return State(int(path.rsplit('_', 1)[1]))

      class Init:
        def __init__(self, **k):
          self.global_train_state_shape = State(0)
          self.train_state_axes = None

        def from_scratch(self, rng):
          return State(0)

      class MM:
        summary_writer = None

        def write_scalar(self, *a):
          pass

      class Trainer:
        def __init__(self, **k):
          self.train_state = k['train_state']
          self.stop_training = False
          self.train_metrics_manager = MM()
          self.n = 0

        def train(self, it, n, start_step=None):
          self.n += 1
          if preempt is not None and self.n == preempt:
            note('preempted', self.train_state.step)
            raise trainer_lib.PreemptionError('now')
          note('train', int(start_step), int(n), gc.isenabled())
          for i in range(n):
            data.append(int(next(it)['x'][0, 0]))
          self.train_state = State(self.train_state.step + n)
          return Fut({'loss': 0.})

        def eval(self, iters):
          note('eval', self.train_state.step)
          return {'t': {}}

        def compile_train(self, batch):
          note('compile')

        def compile_eval(self, batches):
          note('compile_eval')

        def close(self):
          note('trainer closed')

      class Evaluator:
        eval_tasks = ['t']

        def __init__(self, **k):
          pass

        def evaluate(self, state, axes):
          note('infer', state.step)
          return Fut({'t': {}})

        def close(self):
          note('evaluator closed')

      class Stop(trainer_lib.BaseAction):
        def __init__(self, mode):
          self.mode, self.k = mode, 0

        def run(self, train_state, metrics_by_task):
          self.k += 1
          return stop is not None and stop == (self.mode, self.k)

      class Never(trainer_lib.BaseAction):
        def run(self, train_state, metrics_by_task):
          return False

      ev_kind, data = [], []
      dcfg = types.SimpleNamespace(seed=None, batch_size=1)
      cfg = utils.CheckpointConfig(save=utils.SaveCheckpointConfig(
          period=C, checkpoint_steps=list(steps) or None, checkpointer_cls=Ckpt, checkpoint_manager_cls=Mgr))
      model = types.SimpleNamespace(FEATURE_CONVERTER_CLS=None, optimizer_def=None, get_initial_variables=None)
      was = gc.isenabled()
      err = None
      out = None
      try:
        with mock.patch.object(train_lib.eval_lib, 'InferenceEvaluator', Evaluator), \
            mock.patch.object(utils, 'log_model_info', lambda *a, **k: None), \
            mock.patch.object(utils, 'get_zeros_batch_like_dataset', lambda *a, **k: None), \
            mock.patch.object(gc, 'collect', lambda *a: note('gc')):
          out = train_lib.train(
              model=model, train_dataset_cfg=dcfg, train_eval_dataset_cfg=dcfg if evals else None,
              infer_eval_dataset_cfg=dcfg if infer else None, checkpoint_cfg=cfg, partitioner=Part(),
              trainer_cls=Trainer, model_dir=self.dir, total_steps=T, eval_steps=1, eval_period=E,
              relative_steps=rel, stats_period=S, random_seed=0, summarize_config_fn=lambda *a: None,
              get_dataset_fn=lambda *a: Data(), concurrent_metrics=stop is None,
              actions={m: [Stop(m), Never()] for m in ('TRAIN', 'TRAIN_EVAL', 'INFER_EVAL')} if stop else None,
              train_eval_get_dataset_fn=lambda *a: {'t': [1]}, run_eval_before_training=before,
              train_state_initializer_cls=Init, use_orbax=orbax, verify_matching_vocabs_fn=None, gc_period=G)
      except BaseException as e:  # pylint: disable=broad-except
        err = e
        if not isinstance(e, (Exception,)):
          raise
      finally:
        on = gc.isenabled()
        (gc.enable if was else gc.disable)()
      return types.SimpleNamespace(ev=ev, data=data, err=err, out=out, gc_on=on)

  def aligned(E, C, G, evals):
    ps = [p for p in (E if evals else 0, C, G) if p]
    return not ps or all(p % min(ps) == 0 for p in ps)

  def audit(env, r, case, f, T, C=None, E=0, G=0, S=None, steps=(), orbax=False, infer=False, evals=True,
            before=False, had=(), until=None, stopped=False, **_):
    """Compares one finished run with the schedule. `until`: step at which it stopped early."""
    end = T if until is None else until
    ev = r.ev
    E = E if evals or infer else 0
    runs = [e for e in ev if e[0] == 'train']
    got = [s for _, a, n, _ in runs for s in range(a, a + n)]
    ck.expect(got == list(range(f, end)), 'steps trained', case, list(range(f, end)), got)
    ck.expect(r.data == list(range(end - f)), 'batches consumed in order', case, list(range(end - f)), r.data)
    chunk = S or min([p for p in (E, C, G) if p] or [T])
    ck.expect(all(0 < n <= chunk for _, _, n, _ in runs), 'steps between two summaries', case, '1..%d' % chunk, runs)
    ck.expect(all(on == (not G) for *_, on in runs), 'garbage collection handling during training', case,
              'enabled' if not G else 'disabled', runs)
    ck.expect(r.gc_on, 'garbage collection left disabled', case)
    ck.expect(r.out is not None and r.out[0] == end and r.out[1].step == end, 'result of train', case, end,
              r.out and (r.out[0], r.out[1].step))
    # checkpoints
    want = set()
    if C:
      want |= {s for s in range(f + 1, end + 1) if (s - f) % C == 0 or s == end}
      want.add(f)
    want |= {s for s in steps if f < s <= end}
    saves = [e[1] for e in ev if e[0] == 'save']
    again = [f] if C and not orbax and f in had else []  # the legacy checkpointer skips these itself
    if orbax:
      want -= set(had)
    ck.expect(sorted(saves) == sorted(want), 'checkpoints saved', case, sorted(want), saves)
    ck.expect(env.steps() == sorted(want | set(had)), 'checkpoints in the directory', case, sorted(want | set(had)),
              env.steps())
    pos = f
    for e in ev:
      if e[0] == 'train':
        pos = e[1] + e[2]
      elif e[0] in ('save', 'eval', 'infer'):
        ck.expect(e[1] == pos, 'a %s at another step than the one reached' % e[0], case, pos, e)
    # evaluations
    for kind, on in (('eval', evals), ('infer', infer)):
      got = [e[1] for e in ev if e[0] == kind]
      want_e = [f] if before and on else []
      if on and E:
        want_e += [s for s in range(f + 1, end + 1) if (s - f) % E == 0 or (s == T)]
      if stopped and got and got[-1] == end and end not in want_e:
        want_e.append(end)  # an evaluation of the final state is fine
      ck.expect(got == want_e, '%s steps' % kind, case, want_e, got)
    if C:
      seen = set(had)
      for i, e in enumerate(ev):
        if e[0] == 'save':
          seen.add(e[1])
        if e[0] in ('eval', 'infer') and e[1] > f and ((e[1] - f) % C == 0 or e[1] == T):
          ck.expect(e[1] in seen and (not orbax or _waited(ev[:i])), 'evaluation before its checkpoint', case)
    if G and not stopped:
      pos, got = f, []
      for e in ev:
        pos = e[1] + e[2] if e[0] == 'train' else pos
        if e[0] == 'gc':
          got.append(pos)
      want_g = [s for s in range(f + 1, T + 1) if (s - f) % G == 0 or s == T]
      ck.expect(got == want_g, 'garbage collections', case, want_g, got)
    kinds = [e[0] for e in ev]
    ck.expect(kinds.count('trainer closed') == 1 and (not infer or 'evaluator closed' in kinds), 'not closed', case,
              None, kinds)
    if orbax and (C or steps or had):
      ck.expect(kinds.count('close') == 1 and kinds.index('close') > max(
          [i for i, k in enumerate(kinds) if k in ('save', 'train')] or [-1]), 'checkpoint manager closed last', case,
                None, kinds)

  def _waited(prefix):
    for e in reversed(prefix):
      if e[0] == 'wait':
        return True
      if e[0] == 'save':
        return False
    return True

  def one(cfg, f, had=None, label=None):
    env = Env()
    had = ([f] if f else []) if had is None else had
    for s in had:
      env.put(s)
    case = dict(cfg, f=f, had=had)
    r = env.run(**cfg)
    return env, r, case, had

  def do(cfg, f, sample=False):
    full = {k: v for k, v in cfg.items()}
    env, r, case, had = one(cfg, f)
    key = tuple(sorted((k, str(v)) for k, v in case.items()))
    ck.case(key, sample=case if sample else None)
    T = f + cfg['rel'] if cfg.get('rel') else cfg['T']
    evald = cfg.get('evals', True) or cfg.get('infer')
    if not aligned(cfg.get('E', 0), cfg.get('C'), cfg.get('G', 0), evald) or T < f:
      ck.expect(isinstance(r.err, ValueError) and not any(e[0] in ('train', 'compile') for e in r.ev),
                'periods that cannot be aligned, or a passed end, not refused before training', case, 'ValueError',
                repr(r.err))
    elif r.err is not None:
      ck.violation('training failed', case, 'no error', repr(r.err))
    else:
      audit(env, r, case, f, **{**cfg, 'T': T}, had=had)
    scratch.clear(env.dir)

  # ---- every period combination
  ck.part('periods')
  per = (0, 1, 2, 3, 4, 6)
  n = 0
  for f in (0, 3):
    for T in range(f, f + ck.pick(7, 9)):
      for C, E, G in itertools.product((None,) + per[1:ck.pick(5, 6)], per[:ck.pick(5, 6)], (0, 1, 2, 4)):
        if not aligned(E, C, G, True) and T != f + 4:
          continue
        for S in (None, 1, 2) if not ck.thorough else (None, 1, 2, 3):
          if S == 2 and (G or f) and not ck.thorough:
            continue
          do(dict(T=T, C=C, E=E, G=G, S=S, orbax=bool(n % 2)), f, sample=n % 900 == 7)
          if ck.thorough:
            do(dict(T=T, C=C, E=E, G=G, S=S, orbax=not n % 2, infer=True, evals=bool(n % 3)), f)
          n += 1

  # ---- listed checkpoint steps
  ck.part('checkpoint steps')
  for f in (0, 2):
    for T in (f + 1, f + 3, f + 5) if not ck.thorough else range(f, f + 7):
      univ = range(max(0, f - 1), T + 2)
      for k in (1, 2, 3):
        for steps in itertools.combinations(univ, k):
          for C, E, S in ((None, 0, None), (2, 0, None), (3, 0, 2), (None, 2, 1), (4, 2, None)) + (
              ((None, 3, 2), (1, 0, None), (6, 3, 2), (2, 4, 3)) if ck.thorough else ()):
            for orbax in (False, True) if k < 3 or ck.thorough else (bool(sum(steps) % 2),):
              do(dict(T=T, C=C, E=E, S=S, steps=steps, orbax=orbax), f,
                 sample=steps == (2, 3) and S == 2 and orbax)

  # ---- other inputs
  ck.part('relative steps, evaluation kinds, evaluation before training')
  for f, rel, C, E in itertools.product((0, 3), (None, 1, 4), (None, 2), (0, 2, 4)):
    for infer, evals, before, orbax in itertools.product((False, True), repeat=4):
      cfg = dict(T=5, C=C, E=E, infer=infer, evals=evals, before=before, orbax=orbax)
      if rel:
        cfg.update(rel=rel, T=1 if evals else 20)
      do(cfg, f)
  for f, T in ((3, 0), (3, 2), (1, 0)):
    for C, G, orbax in itertools.product((None, 2), (0, 2), (False, True)):
      do(dict(T=T, C=C, G=G, orbax=orbax), f)

  # ---- stop requests
  ck.part('stop requests')
  for f, T, C, E, S in itertools.product((0, 2), (5, 6), (None, 1, 2, 4), (1, 2, 4), (None, 1)):
    if not aligned(E, C, 0, True):
      continue
    for mode, orbax, before, infer in itertools.product(('TRAIN', 'TRAIN_EVAL', 'INFER_EVAL'), (False, True),
                                                        (False, True), (False, True)):
      if mode == 'INFER_EVAL' and not infer or (before and mode == 'TRAIN') or (
          not ck.thorough and (infer and mode != 'INFER_EVAL' and (f or C not in (None, 2) or E == 4) or before and (S or f or orbax) or T + f == 7 or
                               mode != 'TRAIN' and S)):
        continue
      for k in range(1, 8):
        cfg = dict(T=T, C=C, E=E, S=S, orbax=orbax, before=before, infer=infer, steps=(3,) if orbax else ())
        env, r, case, had = one(dict(cfg, stop=(mode, k)), f)
        ck.case(('stop', f, mode, k) + tuple(sorted((a, str(b)) for a, b in cfg.items())),
                sample=case if (k, C, E, T) == (2, 4, 2, 6) and orbax else None)
        if r.err is not None:
          ck.violation('training failed', case, 'no error', repr(r.err))
          break
        # when was the stop requested?
        seen, pos, at = 0, f, None
        for e in r.ev:
          pos = e[1] + e[2] if e[0] == 'train' else pos
          seen += e[0] == {'TRAIN': 'train', 'TRAIN_EVAL': 'eval', 'INFER_EVAL': 'infer'}[mode]
          if seen == k and at is None:
            at = pos
        if at is None:
          audit(env, r, case, f, **cfg, had=had)
          scratch.clear(env.dir)
          break
        audit(env, r, case, f, **cfg, had=had, until=at, stopped=True)
        scratch.clear(env.dir)

  # ---- kills and preemptions at every point, then resuming
  ck.part('kill and resume')
  for T, C, E, S, steps, G in ((6, 2, 4, 1, (), 0), (5, 2, 2, None, (3,), 0), (4, None, 2, 1, (1, 3), 2),
                               (6, 3, 3, 2, (1, 2), 3), (3, 1, 0, None, (), 0)) + (
                                   ((9, 4, 2, 1, (3, 5), 2), (8, 2, 6, 3, (1, 7), 2)) if ck.thorough else ()):
    for orbax, infer in itertools.product((False, True), repeat=2):
      for depth in (1, 2) if not ck.thorough else (1, 2, 3):
        cfg = dict(T=T, C=C, E=E, S=S, steps=steps, G=G, orbax=orbax, infer=infer)

        def resume(points, cfg=cfg, T=T):
          """Runs with the given kill points, then to the end; returns None when a point is past the end."""
          env = Env()
          case = dict(cfg, kills=points)
          trained = set()
          for p in points:
            f = max(env.steps() or [0])
            r = env.run(**cfg, fault=p)
            if r.err is None:
              scratch.clear(env.dir)
              return False
            if not isinstance(r.err, Kill):
              ck.violation('training failed', case, 'Kill', repr(r.err))
            first = [e for e in r.ev if e[0] == 'train'][:1]
            ck.expect(not first or first[0][1] == f, 'resumed at another step than the newest checkpoint', case, f, first)
          had = env.steps()
          f = max(had or [0])
          r = env.run(**cfg)
          ck.case(('kill', str(cfg), points), sample=case if points == (9, 3) else None)
          if r.err is not None:
            ck.violation('resumed training failed', case, 'no error', repr(r.err))
          else:
            audit(env, r, case, f, **cfg, had=had)
          scratch.clear(env.dir)
          return True

        if depth == 1:
          k = 0
          while resume((k,)):
            k += 1
        else:
          for points in itertools.product(range(1, ck.pick(12, 24), 1 if depth == 2 and ck.thorough else 3), repeat=depth):
            resume(points)

      k = 1
      while True:
        env = Env()
        case = dict(cfg, preempt=k)
        r = env.run(**cfg, preempt=k)
        ck.case(('preempt', str(cfg), k))
        if r.err is None:
          break
        at = [e[1] for e in r.ev if e[0] == 'preempted'][0]
        ck.expect(isinstance(r.err, trainer_lib.PreemptionError), 'preemption not passed on', case, 'PreemptionError',
                  repr(r.err))
        if C:
          ck.expect(at in env.steps(), 'no emergency checkpoint', case, at, env.steps())
          ck.expect(_waited(r.ev) or not orbax, 'emergency checkpoint not waited for', case)
        had = env.steps()
        r = env.run(**cfg)
        f = max(had or [0])
        if r.err is not None:
          ck.violation('resumed training failed', case, 'no error', repr(r.err))
        else:
          audit(env, r, case, f, **cfg, had=had)
        scratch.clear(env.dir)
        k += 1
