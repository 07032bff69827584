"""C03: best-checkpoint retention keeps the best by metric."""
import itertools
import os
import shutil

import numpy as np

import lib_ckpt as lc
from mc import crashfs

TECHNIQUE = 'enum'
LEVEL = 'exploration'
RULE = ('every assignment of {missing, low, mid, high} metrics to up to four '
        'checkpoints x direction x keep x force-keep period x keep-without-metrics x '
        'pinned set, one real save each, plus histories of saves with metrics arriving '
        'in between; distinct = configuration and assignment')
ASSUMPTIONS = ['metric values are finite', 'ties may be broken either way; missing '
               'metrics rank lowest, oldest first']


def write_events(d, run, tag, values, repeat=()):
  import tensorflow as tf
  w = tf.summary.create_file_writer(os.path.join(d, run))
  with w.as_default():
    for s in repeat:  # a stale earlier report of the same step
      tf.summary.scalar(tag, -5.0, step=s)
    for s, v in values.items():
      if v is not None:
        tf.summary.scalar(tag, float(v), step=s)
        tf.summary.scalar(tag + '2', 9.0 - float(v), step=s)
        tf.summary.scalar('x' + tag, 7.0 - float(v), step=s)
  w.flush()
  w.close()


def model(steps, metrics, keep, mode, keep_wo, period, pinned):
  """(must keep, candidates best-first groups, number of candidates kept)."""
  steps = sorted(steps)
  last = steps[-1]
  others = [s for s in steps[:-1] if not (period and s % period == 0)]
  forced = set(steps) - set(others)
  cand = [s for s in others if metrics.get(s) is not None] if keep_wo else others
  nomet = set(others) - set(cand)
  del last
  return forced | nomet | (pinned & set(steps)), cand


def judge(got, steps, metrics, keep, mode, keep_wo, period, pinned):
  """None if `got` is an allowed retained set."""
  if not keep:
    return None if got == set(steps) else 'nothing may be removed without a limit'
  must, cand = model(steps, metrics, keep, mode, keep_wo, period, pinned)
  if not must <= got:
    return f'removed {sorted(must - got)}, which must stay'
  if not got <= set(steps):
    return f'unknown steps {sorted(got - set(steps))}'
  sign = 1 if mode == 'max' else -1
  score = lambda s: ((1, sign * metrics[s], 0) if metrics.get(s) is not None
                     else (0, 0, s))
  n = min(keep, len(cand))
  ranked = sorted((score(s) for s in cand), reverse=True)
  if n == len(cand):
    return None if set(cand) <= got else f'removed {sorted(set(cand) - got)} within the limit'
  cut = ranked[n - 1]
  better = {s for s in cand if score(s) > cut}
  ties = {s for s in cand if score(s) == cut}
  worse = {s for s in cand if score(s) < cut}
  if not better <= got:
    return f'removed better checkpoints {sorted(better - got)}'
  if (worse - pinned) & got:
    return f'kept worse checkpoints {sorted((worse - pinned) & got)}'
  k = n - len(better)
  kt = len(ties & got)
  # pinned ties stay even when ranked out
  if not (k <= kt <= max(k, k + len(ties & pinned))):
    return f'kept {kt} of the checkpoints tied at the limit instead of {k}'
  return None


def check(ck):
  from t5x import checkpoints, checkpoint_utils as cu
  part = lc.partitioner()
  vals = (None, -1.0, 0.0, 2.0)
  new = lc.train_state(100, shapes=((2,),), lib=np)

  with crashfs.Scratch() as scratch:
    events = {}

    def event_dir(run, tag, metrics, repeat=()):
      k = (run, tag, tuple(sorted(metrics.items())), tuple(repeat))
      if k not in events:
        d = scratch.new()
        write_events(d, run, tag, metrics, repeat)
        events[k] = d
      return events[k]

    def run_case(steps, metrics, keep, mode, keep_wo, period, pinned, run='train',
                 tag='accuracy', name=None, repeat=(), seen=None):
      d = scratch.new()
      for s in steps:
        os.makedirs(os.path.join(d, f'checkpoint_{s}'))
        with open(os.path.join(d, f'checkpoint_{s}', 'checkpoint'), 'w') as f:
          f.write('x')
        if s in pinned:
          cu.pin_checkpoint(os.path.join(d, f'checkpoint_{s}'))
      ed = event_dir(run, tag, metrics, repeat)
      for x in os.listdir(ed):
        shutil.copytree(os.path.join(ed, x), os.path.join(d, x))
      case = dict(steps=steps + (100,), metrics=metrics, keep=keep, mode=mode,
                  keep_without_metrics=keep_wo, force_keep_period=period,
                  pinned=sorted(pinned), metric=name or f'{run}/{tag}')

      def save():
        c = checkpoints.SaveBestCheckpointer(
            new, part, d, keep=keep, metric_name_to_monitor=name or f'{run}/{tag}',
            metric_mode=mode, keep_checkpoints_without_metrics=keep_wo,
            force_keep_period=period)
        c.save(new)
        return set(c.all_steps())

      ok, got = ck.guarded('save', save, case)
      ck.case(str(case), sample=case)
      if ok:
        seen = metrics if seen is None else seen
        bad = judge(got, steps + (100,), seen, keep, mode, keep_wo, period, set(pinned))
        ck.expect(bad is None, f'wrong retention: {bad}', case, None, sorted(got))
      scratch.clear(d)

    ck.part('all metric assignments')
    for mode, keep, keep_wo in itertools.product(('max', 'min'), (1, 2), (True, False)):
      for steps, period, pinned in (
          ((4, 9, 10), None, ()), ((4, 9, 10), None, (9,)), ((4, 9, 10), 2, ()),
          ((0, 9, 12), 4, (9,))):
        for a in itertools.product(vals, repeat=3):
          if not ck.thorough and period and keep == 2 and None in a:
            continue
          run_case(steps, dict(zip(steps, a)), keep, mode, keep_wo, period, pinned)
    ck.part('four checkpoints')
    steps = (2, 9, 10, 15)
    for mode, keep_wo, pinned, period in itertools.product(
        ('max', 'min'), (True, False), ((), (2,), (10,)), (None, 5)):
      for i, a in enumerate(itertools.product(vals, repeat=4)):
        if ck.thorough or (i * 7 + len(pinned)) % 8 == 0:
          run_case(steps, dict(zip(steps, a)), 2, mode, keep_wo, period, pinned)
    ck.part('metric names, repeated and foreign events')
    for name, run, tag in (('inference_eval/glue/eval/acc', 'inference_eval/glue', 'eval/acc'),
                           ('a/b', 'a', 'b'), ('train/accuracy', 'train', 'accuracy')):
      for mode in ('max', 'min'):
        m = {4: 2.0, 9: 3.0, 10: 1.0, 50: 9.0, 51: -9.0}
        run_case((4, 9, 10), m, 1, mode, False, None, (), run, tag, name,
                 seen={k: v for k, v in m.items() if k in (4, 9, 10)})
        run_case((4, 9, 10), m, 1, mode, False, None, (), run, tag, name, repeat=(9, 4))
        # metrics of another run or tag do not count: the newest are kept
        run_case((4, 9, 10), m, 1, mode, False, None, (), run, tag, 'other/zzz', seen={})
        run_case((4, 9, 10), m, 1, mode, True, None, (), run, tag, 'other/zzz', seen={})
    for keep in (None, 0, 5):
      run_case((4, 9, 10), {4: 1.0, 9: 2.0}, keep, 'max', False, None, ())
    ck.expect_raises('unsupported metric mode', lambda: checkpoints.SaveBestCheckpointer(
        new, part, scratch.new(), keep=1, metric_mode='avg'), 'avg', ValueError)

    ck.part('histories with metrics arriving between saves')
    states = {s: lc.train_state(s, shapes=((2,),), lib=np) for s in (8, 9, 10, 11, 12)}
    for mode, keep, keep_wo in itertools.product(('max', 'min'), (1, 2), (True, False)):
      for a in itertools.product((None, 1.0, 2.0), repeat=3):
        if not ck.thorough and a.count(None) == 2:
          continue
        d = scratch.new()
        have, seen = set(), {}
        for i, s in enumerate((8, 9, 10, 11)):
          case = dict(mode=mode, keep=keep, keep_without_metrics=keep_wo, metrics=a,
                      saving=s, before=sorted(have))

          def save():
            c = checkpoints.SaveBestCheckpointer(
                states[s], part, d, keep=keep, metric_name_to_monitor='train/accuracy',
                metric_mode=mode, keep_checkpoints_without_metrics=keep_wo)
            c.save(states[s])
            return set(c.all_steps())

          ok, got = ck.guarded('save', save, case)
          if not ok:
            break
          bad = judge(got, have | {s}, seen, keep, mode, keep_wo, None, set())
          ck.expect(bad is None, f'wrong retention: {bad}', case, None, sorted(got))
          ck.case(str(case))
          have = got
          if i < 3 and a[i] is not None:
            write_events(d, 'train', 'accuracy', {s: a[i]})
            seen[s] = a[i]
        scratch.clear(d)
