"""C01: saving a checkpoint is crash-atomic."""
import os

import numpy as np
import jax.numpy as jnp

import lib_ckpt as lc
from mc import crashfs

CRASHFS = True
TECHNIQUE = 'crash'
LEVEL = 'fault_enumeration'
RULE = ('every directory image between two consecutive mutating libc calls, and '
        'half-done versions of every write, of real save histories (retention, '
        'pinning, iterator state, slots, mutables, re-saves); on each image every '
        'reported step is restored and saving resumes; distinct = image')
ASSUMPTIONS = [
    'a crash loses no completed libc call (process death, not power loss)',
    'array files of one save are written in the order tensorstore chose here',
    'a restarted process does not reuse the one-second timestamp of the crashed one']


class Clock:
  """Distinct whole seconds for every save."""

  def __init__(self):
    import time
    self.mod, self.real, self.t = time, time.time, 1_700_000_000

  def __enter__(self):
    self.mod.time = lambda: float(self.t)
    return self

  def __exit__(self, *a):
    self.mod.time = self.real


def retained(steps, keep, pinned):
  s = sorted(steps)
  return set(s[-keep:] if keep else s) | (pinned & set(s))


def check(ck):
  from t5x import checkpoints, checkpoint_utils
  part = lc.partitioner()
  plans = [
      dict(steps=(2, 5, 9), keep=None, ds=True, mut=True, kind='adam'),
      dict(steps=(2, 5, 9), keep=1, ds=True, keep_ds=1, kind='sgd'),
      dict(steps=(9, 10, 100), keep=2, ds=True, keep_ds=1, kind='sgd', pin=(9,)),
      dict(steps=(2, 5, 5, 7), keep=1, ds=False, kind='sgd', mut=True),
      dict(steps=(0, 1), keep=1, ds=False, kind='adafactor'),
  ]
  if ck.thorough:
    plans += [
        dict(steps=(2, 5, 9, 11), keep=2, ds=True, keep_ds=2, mut=True, kind='adam',
             pin=(5,)),
        dict(steps=(3, 4, 5, 6, 7), keep=2, ds=False, kind='sgd', pin=(3, 4)),
        dict(steps=(1, 2, 3, 4), keep=3, ds=True, keep_ds=1, kind='adafactor'),
        dict(steps=(8, 4, 12), keep=2, ds=True, kind='sgd'),
        dict(steps=(2, 5, 9), keep=1, ds=True, mut=True, kind='adam', best=True),
    ]
  with Clock() as clock, crashfs.Scratch() as scratch:
    for pi, plan in enumerate(plans):
      ck.part(f'plan {pi}')
      run_plan(ck, plan, part, checkpoints, checkpoint_utils, clock, scratch)


def run_plan(ck, plan, part, checkpoints, checkpoint_utils, clock, scratch):
  keep, ds = plan['keep'], plan['ds']
  keep_ds = plan.get('keep_ds')
  pinned = set(plan.get('pin', ()))
  shapes = ((2, 3),) if plan['kind'] != 'adafactor' else ((2, 3), (4,))
  states = {}

  def state(step):
    if step not in states:
      states[step] = lc.train_state(step, plan['kind'], shapes, plan.get('mut', False),
                                    lib=np if step % 2 else jnp)
    return states[step]

  def make(d, it, ref):
    cls = checkpoints.SaveBestCheckpointer if plan.get('best') else checkpoints.Checkpointer
    return cls(ref, part, d, it, keep=keep, keep_dataset_checkpoints=keep_ds)

  ref = lc.train_state(0, plan['kind'], shapes, plan.get('mut', False), salt=3)

  def restore_all(d, steps, what, case, ds_steps):
    """Restores every step into a fresh checkpointer."""
    for s in sorted(steps):
      it = lc.Iterator(-1) if ds and s in ds_steps else None
      superseded = s in case.get('superseded', ())
      sig = 'superseded-half-deleted' if superseded else None
      ok, got = ck.guarded(f'{what}: restoring reported step {s}',
                           lambda: make(d, it, ref).restore(step=s), case, sig)
      if not ok:
        continue
      diff = lc.same_state(state(s), got)
      ck.expect(diff is None, f'{what}: step {s} does not hold what was saved: {diff}',
                case, sig=sig)
      if it is not None:
        ck.expect(it.pos == s * 10, f'{what}: iterator state of step {s} is wrong', case,
                  s * 10, it.pos, sig=sig)

  d = scratch.new()
  it = lc.Iterator(0) if ds else None
  c = make(d, it, ref)
  before = [set()]
  with crashfs.Recorder(d) as rec:
    for k, s in enumerate(plan['steps'], 1):
      clock.t += 100
      rec.mark(k)
      if it:
        it.pos = s * 10
      c.save(state(s))
      rec.mark(-k)
      if s in pinned:
        checkpoint_utils.pin_checkpoint(checkpoints.get_checkpoint_dir(d, s))
      if plan.get('best'):
        extra = keep + 1 if False else None  # no metrics: everything is kept
        before.append(before[-1] | {s} if extra is None else set())
      else:
        before.append(retained(before[-1] | {s}, keep, pinned))
  ck.expect(set(checkpoints.all_steps(d)) == before[-1], 'uninterrupted history leaves '
            'the wrong checkpoints', plan, before[-1], checkpoints.all_steps(d))
  images = rec.crash_points()
  stamp = 1_800_000_000
  for n, im in enumerate(images):
    k = abs(im.mark)
    t = scratch.new('x')
    try:
      im.write(t)
      op = im.op.replace(d, '')
      done = set(plan['steps'][:k - 1]) if k else set()
      cur = plan['steps'][k - 1] if k else None
      avail = set(checkpoints.all_steps(t))
      prev, after = before[max(k - 1, 0)], before[k]
      case = dict(plan=plan, crash_after=op, during_save_of=cur, reported=sorted(avail))
      ck.case((n, op), sample=case)
      if im.mark < 0 or k == 0:  # between saves (the pin may not be written yet)
        ck.expect(avail == after, 'a committed checkpoint is missing or a foreign one '
                  'appeared', case, after, avail)
      elif cur not in prev and cur not in avail:
        ck.expect(avail == prev, 'a crash before the commit lost or added a checkpoint',
                  case, prev, avail)
      else:
        ck.expect(after <= avail <= prev | {cur}, 'a crash after the commit lost or added '
                  'a checkpoint', case, (after, prev), avail)
        case['superseded'] = sorted(avail - after)
      del done
      # iterator states still expected: those retained after this save
      ds_steps = set()
      if ds:
        r = sorted(after if im.mark < 0 else (after & avail if cur in avail else prev))
        ds_steps = set(r[-keep_ds:] if keep_ds else r) | (pinned & set(r) - {cur})
      restore_all(t, avail, 'after the crash', case, ds_steps)
      if avail:
        ok, got = ck.guarded('restoring the latest step', lambda: make(t, None, ref).restore(
            step=max(avail)), case)
        ok2, latest = ck.guarded('latest_step', lambda: make(t, None, ref).latest_step(), case)
        ck.expect(not ok2 or latest == max(avail), 'latest step is not the largest reported',
                  case, max(avail), latest)
      # resume: save the interrupted step again, then a later one
      clock.t = stamp = stamp + 100
      nxt = [cur] if cur is not None else []
      nxt.append(max(plan['steps']) + 1)
      if not ck.thorough and n % 3 and 'rename' not in op and nxt[0] in avail:
        nxt = nxt[1:]
      it2 = lc.Iterator(0) if ds else None
      ok, c2 = ck.guarded('restarting', lambda: make(t, it2, ref), case)
      if not ok:
        continue
      have = set(avail)
      pin_now = {s for s in have if checkpoint_utils.is_pinned_checkpoint(
          checkpoints.get_checkpoint_dir(t, s))}
      for s in nxt:
        clock.t = stamp = stamp + 100
        if it2:
          it2.pos = s * 10
        skip = s in have
        ok, _ = ck.guarded(f'saving step {s} after the restart', lambda: c2.save(state(s)),
                           case)
        if not ok:
          break
        if not skip:
          have = have | {s} if plan.get('best') else retained(have | {s}, keep, pin_now)
        got = set(checkpoints.all_steps(t))
        ck.expect(got == have, f'wrong checkpoints after saving {s} following a restart',
                  case, have, got)
      last = nxt[-1]
      restore_all(t, [last] + [s for s in nxt[:1] if s in have and s != last],
                  'after the restart', case, {last})
    finally:
      scratch.clear(t)
  scratch.clear(d)
