"""C05: restore picks the checkpoint that was asked for."""
import itertools
import os
import shutil

import numpy as np
import jax

import lib_ckpt as lc
from mc import crashfs

N_DEVICES = 1
TECHNIQUE = 'enum'
LEVEL = 'exploration'
RULE = ('every directory made of a subset of steps and up to two foreign entries; every '
        'restore request (none, each step, each missing step, by directory or file path) '
        'on every subset of real checkpoints through every restore entry point; every '
        'sequence of up to three restore configurations; distinct = directory content x '
        'request')
ASSUMPTIONS = ['local file system; default checkpoint prefix; steps written without padding']

STEPS = (0, 7, 9, 10, 100)
# (name, kind): entries that are no checkpoints
JUNK = [(n, k) for n in (
    'checkpoint_12.tmp-1700000000', 'checkpoint_7.tmp-1', 'checkpoint_200.orbax-checkpoint-tmp-3',
    'checkpoint_', 'checkpoint_x', 'checkpoint_-5', 'checkpoint_9.5', 'checkpoint_300_', 'checkpoint_1e3',
    'checkpoint_400 ', 'checkpoint_500-old', 'checkpoint_600.bak', 'checkpoint_0x10',
) for k in ('dir', 'file')] + [(n, 'dir') for n in (
    'tmp_checkpoint_700', 'Checkpoint_800', 'checkpoint-900', 'checkpoints_901', 'acheckpoint_902',
    'checkpoint_tmp/checkpoint_903', 'backup/checkpoint_904', 'tmp/checkpoint_905/checkpoint_906',
    '905', 'step_907', 'checkpoint_x_908', 'checkpoint_909checkpoint_')]


def put(d, name, kind):
  p = os.path.join(d, name)
  if kind == 'dir':
    os.makedirs(p, exist_ok=True)
    with open(os.path.join(p, 'checkpoint'), 'w') as f:
      f.write('junk')
  else:
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
      f.write('junk')


def step_of(st):
  return int(np.asarray(st.step))


def check(ck):
  from t5x import checkpoints, utils
  import tensorflow as tf
  part = lc.partitioner()
  states = {s: lc.train_state(s, 'sgd', ((2, 3),)) for s in STEPS}
  blank = lc.train_state(1, 'sgd', ((2, 3),), salt=7)

  with crashfs.Scratch() as scratch:
    ck.part('listing')
    for n in range(0, ck.pick(3, 4)):
      for junk in itertools.combinations(JUNK, n):
        if n == 3 and len({j[0] for j in junk}) < 3:
          continue
        if len({j[0] for j in junk}) < len(junk):
          continue
        for steps in [(), STEPS, (9, 10)] if n > 1 else list(
            itertools.chain.from_iterable(itertools.combinations(STEPS, k) for k in range(6))):
          d = scratch.new()
          for j in junk:
            put(d, *j)
          for s in steps[::-1]:
            os.mkdir(os.path.join(d, f'checkpoint_{s}'))
          case = dict(steps=steps, junk=junk)
          ck.case((steps, junk), sample=case)
          for dd in (d, d + '/'):
            ok, got = ck.guarded('list', lambda: (list(checkpoints.all_steps(dd)),
                                                  checkpoints.latest_step(dd)), case)
            if ok:
              want = (list(steps), steps[-1] if steps else None)
              ck.expect(got == want, 'wrong steps listed', case, want, got)
          scratch.clear(d)

    # one real checkpoint per step
    src = scratch.new()
    for s in STEPS:
      checkpoints.Checkpointer(states[s], part, src).save(states[s])

    def right(st, s):
      return st is not None and lc.same_state(states[s], st) is None

    ck.part('restore')
    subsets = list(itertools.chain.from_iterable(
        itertools.combinations(STEPS, k) for k in range(6)))
    for steps, junk in itertools.product(subsets, ((), JUNK)):
      d = scratch.new()
      for s in steps:
        shutil.copytree(os.path.join(src, f'checkpoint_{s}'), os.path.join(d, f'checkpoint_{s}'))
      for j in junk:
        if not os.path.exists(os.path.join(d, j[0])):
          put(d, *j)
      other = scratch.new()
      c = checkpoints.Checkpointer(blank, part, d)
      elsewhere = checkpoints.Checkpointer(blank, part, other)
      cd = lambda s: os.path.join(d, f'checkpoint_{s}')
      loaders = {
          'restore(step)': lambda s: c.restore(step=s),
          'restore(dir)': lambda s: elsewhere.restore(path=cd(s)),
          'restore(dir/)': lambda s: c.restore(path=cd(s) + '/'),
          'restore(file)': lambda s: elsewhere.restore(path=os.path.join(cd(s), 'checkpoint')),
          'load_t5x(step)': lambda s: blank.restore_state(checkpoints.load_t5x_checkpoint(d, s)),
          'load_t5x(dir)': lambda s: blank.restore_state(checkpoints.load_t5x_checkpoint(cd(s))),
          'manager': lambda s: utils.LegacyCheckpointManager(
              save_cfg=None, restore_cfg=utils.RestoreCheckpointConfig(
                  path='', checkpointer_cls=checkpoints.Checkpointer),
              train_state_shape=blank, partitioner=part).restore(
                  [cd(s)], utils.RestoreCheckpointConfig(path='')),
      }
      if not ck.thorough and junk:
        loaders = {k: loaders[k] for k in ('restore(step)', 'load_t5x(step)')}
      if not ck.thorough and len(steps) not in (0, 1, 5):
        loaders.pop('restore(dir/)', None)
        loaders.pop('manager', None)
        loaders.pop('load_t5x(dir)', None)
      for name, fn in loaders.items():
        for s in STEPS + (1, 12, 70, 1000):
          case = dict(steps=steps, junk=bool(junk), how=name, asked=s)
          ck.case((steps, bool(junk), name, s), sample=case)
          if s in steps:
            ok, got = ck.guarded(name, lambda: fn(s), case)
            if ok:
              ck.expect(right(got, s), 'restored another checkpoint', case, s, step_of(got))
          else:
            ck.expect_raises('restoring a step that does not exist', lambda: fn(s), case)
      nones = {'restore()': lambda: c.restore(),
               'load_t5x()': lambda: blank.restore_state(checkpoints.load_t5x_checkpoint(d))}
      for name, fn in nones.items():
        case = dict(steps=steps, junk=bool(junk), how=name)
        ck.case((steps, bool(junk), name))
        if steps:
          ok, got = ck.guarded(name, fn, case)
          if ok:
            ck.expect(right(got, steps[-1]), 'did not restore the latest checkpoint', case,
                      steps[-1], step_of(got))
        else:
          ck.expect_raises('restoring without any checkpoint', fn, case)
      for s in STEPS:
        p = cd(s)
        case = dict(steps=steps, junk=bool(junk), how='find_checkpoint', asked=s)
        for how, fn in (('step', lambda: checkpoints.find_checkpoint(d, s)),
                        ('dir', lambda: checkpoints.find_checkpoint(p)),
                        ('file', lambda: checkpoints.find_checkpoint(os.path.join(p, 'checkpoint')))):
          ck.case((steps, bool(junk), 'find', how, s))
          if s in steps:
            ok, got = ck.guarded('find_checkpoint', fn, dict(case, how=how))
            if ok:
              ck.expect(os.path.realpath(got) == os.path.realpath(os.path.join(p, 'checkpoint')),
                        'found another checkpoint', dict(case, how=how), p, got)
          else:
            ck.expect_raises('finding a step that does not exist', fn, dict(case, how=how))
      scratch.clear(d)
      scratch.clear(other)

    ck.part('half-made checkpoint directories')
    # A directory with the right name but no checkpoint in it must not restore.
    for present in ((), (7,)):
      for missing in ('empty', 'no msgpack', 'arrays only'):
        d = scratch.new()
        for s in present:
          shutil.copytree(os.path.join(src, f'checkpoint_{s}'), os.path.join(d, f'checkpoint_{s}'))
        shutil.copytree(os.path.join(src, 'checkpoint_10'), os.path.join(d, 'checkpoint_10'))
        for root, _, files in os.walk(os.path.join(d, 'checkpoint_10'), topdown=False):
          for f in files:
            if missing == 'empty' or f == 'checkpoint':
              os.remove(os.path.join(root, f))
        case = dict(present=present, defect=missing)
        ck.case(str(case), sample=case)
        ck.expect_raises('restoring a directory without a checkpoint',
                         lambda: checkpoints.Checkpointer(blank, part, d).restore(step=10), case)
        ck.expect_raises('loading a directory without a checkpoint',
                         lambda: checkpoints.load_t5x_checkpoint(d, 10), case)

    ck.part('step of a checkpoint path')
    for parent in ('/a/b', '/a/checkpoint_3', 'rel', '/checkpoint', '/a/checkpoint_3/x'):
      for s in STEPS + (123456789,):
        for tail in ('', '/'):
          p = f'{parent}/checkpoint_{s}{tail}'
          ck.case(p)
          ok, got = ck.guarded('get_step_from_checkpoint_dir',
                               lambda: checkpoints.get_step_from_checkpoint_dir(p), p)
          if ok:
            ck.expect((str(got[0]).rstrip('/'), got[1]) == (parent, s), 'wrong step or parent', p,
                      (parent, s), got)
      for bad in ('checkpoint_', 'checkpoint', 'checkpoint_x', 'step_5', '5', 'checkpoint_5.tmp-1',
                  'checkpoint_5x', 'checkpoint_1_0', 'checkpoint_-5', 'checkpoint_ 5', '5checkpoint_',
                  'checkpoint_5checkpoint_', 'checkpoint_checkpoint_5', 'checkpoint_+5', 'model_checkpoint_5',
                  'checkpoint_5.orbax-checkpoint-tmp-0', 'checkpoint_5 '):
        ck.case(bad)
        ck.expect_raises('taking a malformed name for a checkpoint',
                         lambda: checkpoints.get_step_from_checkpoint_dir(f'{parent}/{bad}'),
                         f'{parent}/{bad}', ValueError)

    ck.part('native checkpoints through the Orbax-backed manager')
    for steps in [x for x in subsets if ck.thorough or len(x) in (0, 2, 5)]:
      d = scratch.new()
      for s in steps:
        shutil.copytree(os.path.join(src, f'checkpoint_{s}'), os.path.join(d, f'checkpoint_{s}'))
      ok, m = ck.guarded('orbax manager', lambda: checkpoints.OrbaxCheckpointManagerInterface(
          d, blank, part), dict(steps=steps))
      if not ok:
        continue
      for s in STEPS + (1, 1000, None):
        for how, fn in (('step', lambda: m.restore(step=s)),
                        ('path', lambda: m.restore(path=os.path.join(d, f'checkpoint_{s}'))),
                        ('utils', lambda: utils.restore(
                            m, [os.path.join(d, f'checkpoint_{s}')],
                            utils.RestoreCheckpointConfig(path='')))):
          if s is None and (how != 'step' or not steps):
            continue
          case = dict(steps=steps, asked=s, how=how)
          ck.case((steps, s, how), sample=case)
          want = steps[-1] if s is None else s
          if want in steps:
            ok, got = ck.guarded('restore', fn, case)
            if ok:
              ck.expect(right(got, want), 'restored another checkpoint', case, want, step_of(got))
          else:
            ck.expect_raises('restoring a step that does not exist', fn, case)
      m.close()
      scratch.clear(d)

    ck.part('configurations')
    dirs = {}
    for name, steps in (('empty', ()), ('zero', (0,)), ('some', (7, 9, 10)), ('big', (9, 100))):
      dirs[name] = scratch.new()
      for s in steps:
        shutil.copytree(os.path.join(src, f'checkpoint_{s}'),
                        os.path.join(dirs[name], f'checkpoint_{s}'))
    put(dirs['empty'], 'checkpoint_5.tmp-1', 'dir')
    dirs['missing'] = os.path.join(scratch.path, 'nosuch')
    tfd = dirs['tf'] = scratch.new()
    for s in (900, 1000):
      tf.train.Checkpoint(x=tf.Variable(1.0)).write(os.path.join(tfd, f'model.ckpt-{s}'))
    tf.compat.v1.train.update_checkpoint_state(
        tfd, os.path.join(tfd, 'model.ckpt-1000'),
        [os.path.join(tfd, f'model.ckpt-{s}') for s in (900, 1000)])
    content = {k: [os.path.join(v, n) for n in {
        'empty': (), 'missing': (), 'zero': ('checkpoint_0',),
        'some': ('checkpoint_7', 'checkpoint_9', 'checkpoint_10'),
        'big': ('checkpoint_9', 'checkpoint_100'),
        'tf': ('model.ckpt-900', 'model.ckpt-1000')}[k]] for k, v in dirs.items()}

    def ref(cfgs):
      for i, (mode, names) in enumerate(cfgs):
        if mode == 'specific':
          return i, [dirs[n] for n in names]
        for n in names:
          if n == 'missing':
            return 'error'
          if content[n]:
            return i, content[n][-1:] if mode == 'latest' else content[n]
      return None, []

    one = [(m, (n,)) for m in ('specific', 'latest', 'all') for n in dirs]
    two = [(m, p) for m in ('specific', 'latest', 'all') for p in itertools.permutations(dirs, 2)]
    seqs = [()] + [(a,) for a in one + two] + list(itertools.product(one, repeat=2)) + [
        (a, b) for a in one[:12] for b in two] + [(a, b) for a in two for b in one[:12]]
    if ck.thorough:
      seqs += list(itertools.product(one, repeat=3))
    for seq in seqs:
      cfgs = [utils.RestoreCheckpointConfig(
          path=dirs[ns[0]] if len(ns) == 1 and i % 2 == 0 else [dirs[n] for n in ns], mode=m)
          for i, (m, ns) in enumerate(seq)]
      case = dict(configs=seq)
      ck.case(str(seq), sample=case)
      want = ref(seq)
      if want == 'error':
        ck.expect_raises('a configured directory that does not exist',
                         lambda: utils.get_first_valid_restore_config_and_paths(cfgs), case,
                         ValueError)
        continue
      ok, got = ck.guarded('get_first_valid_restore_config_and_paths',
                           lambda: utils.get_first_valid_restore_config_and_paths(cfgs), case)
      if ok:
        idx = None if got[0] is None else [c is got[0] for c in cfgs].index(True)
        ck.expect((idx, [str(p) for p in got[1]]) == (want[0], want[1]),
                  'wrong configuration or paths chosen', case, want, (idx, got[1]))
    for m in ('last', 'Latest', '', None):
      ck.expect_raises('unknown restore mode', lambda: utils.RestoreCheckpointConfig(path='', mode=m),
                       m, ValueError)

    ck.part('restoring through the initializer')
    ini = Initializer(utils, part)
    for seq in [s for s in seqs if len(s) <= 2 and all(
        n not in ('tf',) for _, ns in s for n in ns) and (
            ck.thorough or all(len(ns) == 1 for _, ns in s))]:
      if any(m == 'specific' for m, _ in seq):
        continue
      want = ref(seq)
      cfgs = [utils.RestoreCheckpointConfig(path=[dirs[n] for n in ns], mode=m) for m, ns in seq]
      case = dict(configs=seq)
      ck.case(str(seq), sample=case)
      if want == 'error':
        ck.expect_raises('a directory that does not exist',
                         lambda: list(ini.make().from_checkpoints(cfgs)), case)
        continue
      ok, got = ck.guarded('from_checkpoints', lambda: [
          (step_of(st), st, p) for st, p in ini.make().from_checkpoints(cfgs)], case)
      if ok:
        ws = [int(p.rsplit('_', 1)[1]) for p in want[1]]
        ck.expect([g[0] for g in got] == ws and [g[2] for g in got] == want[1] and
                  all(np.array_equal(np.asarray(st.params['enc']['w0']),
                                     np.asarray(states[s].params['enc']['w0']))
                      for s, st, _ in got),
                  'restored other checkpoints', case, ws, [(g[0], g[2]) for g in got])
      if len(want[1]) <= 1:
        ok, st = ck.guarded('from_checkpoint', lambda: ini.make().from_checkpoint(cfgs), case)
        if ok:
          ck.expect((None if st is None else step_of(st)) ==
                    (int(want[1][0].rsplit('_', 1)[1]) if want[1] else None),
                    'from_checkpoint restored another checkpoint', case, want)
        ok, st = ck.guarded('from_checkpoint_or_scratch', lambda: ini.make(
            ).from_checkpoint_or_scratch(cfgs, init_rng=jax.random.PRNGKey(0)), case)
        if ok:
          scratch_w = np.full((2, 3), 77.0)
          w = np.asarray(st.params['enc']['w0'])
          want_w = (np.asarray(states[int(want[1][0].rsplit('_', 1)[1])].params['enc']['w0'])
                    if want[1] else scratch_w)
          ck.expect(np.array_equal(w, want_w), 'started from the wrong weights', case, want_w, w)
      else:
        ck.expect_raises('from_checkpoint with several checkpoints',
                         lambda: ini.make().from_checkpoint(cfgs), case, ValueError)
    # the training/eval entry point
    for steps_name, s in (('zero', 0), ('some', 7), ('some', 9), ('some', 10), ('big', 9), ('big', 100)):
      for orbax in (False, True):
        p = os.path.join(dirs[steps_name], f'checkpoint_{s}')
        case = dict(dir=steps_name, asked=s, orbax=orbax)
        ck.case(str(case), sample=case)
        cfg = utils.RestoreCheckpointConfig(path=p, mode='specific')
        def go():
          st, m = utils.create_checkpoint_manager_and_restore(
              ini.make(), part, cfg, p, None, model_dir=scratch.new(), use_orbax=orbax)
          m.close()
          return st
        ok, st = ck.guarded('create_checkpoint_manager_and_restore', go, case)
        if ok:
          ck.expect(st is not None and step_of(st) == s, 'restored another checkpoint', case)


class Initializer:
  """Makes TrainStateInitializers whose from-scratch weights are 77."""

  def __init__(self, utils, part):
    import jax.numpy as jnp
    from flax.core import freeze
    from flax.linen import partitioning as fp
    self.utils, self.part = utils, part

    class M:
      module = None

      def init(self, rng, input_shapes, input_types=None):
        return freeze({'params': {'enc': {'w0': jnp.full((2, 3), 77.0)}},
                       'params_axes': {'enc': {'w0_axes': fp.AxisMetadata(names=('a', 'b'))}}})
    self.m = M()

  def make(self):
    if not hasattr(self, 'tsi'):
      self.tsi = self.utils.TrainStateInitializer(
          lc.optimizer_def('sgd'), self.m.init, {'x': (1,)}, self.part)
    return self.tsi
