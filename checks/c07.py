"""C07: Orbax-backed checkpointing keeps the same guarantees."""
import itertools
import os

import jax
import jax.numpy as jnp
import numpy as np

import lib_ckpt as lc
import c03
import c04
from mc import crashfs

CRASHFS = True
N_DEVICES = 4
TECHNIQUE = 'hist'
LEVEL = 'exploration'
RULE = ('every combination of tree, optimizer, dtypes, mesh pair; every history of saves '
        'over a set of steps with every keep/period/pinned-period setting; every restore '
        'request; every directory image between two mutating libc calls of a save history; '
        'distinct = configuration or image')
ASSUMPTIONS = ['one process; the Orbax library itself is trusted for what it documents',
               'a crash loses no completed libc call']
F32, BF = jnp.float32, jnp.bfloat16


def kept(steps, keep, force):
  s = sorted(steps)
  if not keep:
    return set(s)
  return {x for x in s if x in s[-keep:] or (force and x % force == 0)}


def check(ck):
  from t5x import checkpoints, utils
  import clu.data.dataset_iterator as di

  class Iter(di.DatasetIterator):
    """A position-only clu iterator."""

    def __init__(self, pos=0):
      self.pos = pos

    def __next__(self):
      self.pos += 1
      return self.pos

    def reset(self):
      self.pos = 0

    element_spec = property(lambda self: None)

    def save(self, filename):
      with open(os.fspath(filename), 'w') as f:
        f.write(str(self.pos))

    def load(self, filename):
      with open(os.fspath(filename)) as f:
        self.pos = int(f.read())

    restore = load

  def manager(d, ref, part, **kw):
    return checkpoints.OrbaxCheckpointManagerInterface(d, ref, part, **kw)

  p1 = c04.mesh((1, 1))
  with crashfs.Scratch() as scratch:
    ck.part('round trip')
    kinds = ('sgd', 'adam', 'adafactor', 'multi', 'chain')
    for tname, kind, dt, sd, rd, mut in itertools.product(
        ('r0-3', 'nest'), kinds, (F32, BF), (None, F32, BF), (None, F32, BF), (0, 1)):
      key = (('r0-3', 'nest').index(tname) + kinds.index(kind) + (F32, BF).index(dt) * 2 +
             (None, F32, BF).index(sd) + 2 * (None, F32, BF).index(rd) + mut)
      if not ck.thorough and key % 4:
        continue
      case = dict(tree=tname, optimizer=kind, dtype=str(dt), save_dtype=str(sd),
                  restore_dtype=str(rd), mutables=mut)
      st = c04.build(kind, c04.SHAPES[tname], dt, 3, mut)
      ab = c04.build(kind, c04.SHAPES[tname], dt, 0, mut, salt=5)
      d = scratch.new()
      ck.case(str(case), sample=case)
      def go():
        m = manager(d, st, p1, save_dtype=sd)
        assert m.save(st), 'not saved'
        m.wait_until_finished()
        m.close()
        m = manager(d, ab, p1, restore_dtype=rd)
        out = m.restore(step=3), m.restore(path=os.path.join(d, 'checkpoint_3'))
        m.close()
        return out
      ok, got = ck.guarded('save and restore', go, case)
      if ok:
        for g in got:
          bad = c04.expect_diff(st, g, sd, rd)
          ck.expect(bad is None, f'restored state differs: {bad}', case)
      scratch.clear(d)

    ck.part('meshes')
    meshes = [((1, 1), c04.RULES), ((4, 1), c04.RULES), ((2, 2), c04.RULES), ((2, 2), c04.RULES2)]
    for (ns, rs), (nr, rr), kind in itertools.product(meshes, meshes, ('adam', 'adafactor')):
      if not ck.thorough and (meshes.index((ns, rs)) + meshes.index((nr, rr)) + (kind == 'adam')) % 2:
        continue
      case = dict(save_mesh=(ns, rs), restore_mesh=(nr, rr), optimizer=kind)
      tree = {'m': (4, 4), 't': (4, 8, 3), 'v': (8,), 'd': {'e': (12, 4)}}
      st, ab = c04.build(kind, tree, F32, 7, 1), c04.build(kind, tree, F32, 0, 1, salt=3)
      ps, pr = c04.mesh(ns, rs), c04.mesh(nr, rr)
      d = scratch.new()
      ck.case(str(case), sample=case)
      def go():
        m = manager(d, st, ps)
        m.save(c04.place(ps, st))
        m.wait_until_finished()
        m.close()
        m = manager(d, ab, pr)
        out = m.restore(step=7)
        m.close()
        return out
      ok, got = ck.guarded('save and restore', go, case)
      scratch.clear(d)
      if not ok:
        continue
      bad = c04.expect_diff(st, got, None, None)
      ck.expect(bad is None, f'restored state differs: {bad}', case)
      axes = lc.flat_axes(pr.get_mesh_axes(ab).state_dict())
      for k, x in lc.flat_raw(got.state_dict()).items():
        if axes.get(k) is None or not isinstance(x, jax.Array):
          continue
        want = jax.sharding.NamedSharding(pr.mesh, axes[k])
        ck.expect(x.sharding.is_equivalent_to(want, x.ndim), f'{k} restored with the wrong '
                  'layout', case, str(want), str(x.sharding))

    ck.part('which step')
    steps = (0, 9, 10, 100)
    states = {s: lc.train_state(s, 'sgd', ((2, 3),)) for s in steps + (2, 3, 4, 5, 6, 8, 12)}
    blank = lc.train_state(1, 'sgd', ((2, 3),), salt=7)
    for sub in itertools.chain.from_iterable(itertools.combinations(steps, k) for k in (1, 2, 4)):
      d = scratch.new()
      its = Iter()
      def save():
        m = manager(d, blank, p1, dataset_iterator=its)
        for s in sub:
          its.pos = s * 3 + 1
          m.save(states[s])
        m.wait_until_finished()
        m.close()
        return list(m.all_steps()), m.latest_step()
      case = dict(steps=sub)
      ok, got = ck.guarded('saves', save, case)
      if not ok:
        continue
      ck.expect((sorted(got[0]), got[1]) == (list(sub), sub[-1]), 'wrong steps listed', case,
                (sub, sub[-1]), got)
      it = Iter(-5)
      m = manager(d, blank, p1, dataset_iterator=it)
      for s in steps + (1, 1000):
        for how, fn in (
            ('step', lambda: m.restore(step=s)),
            ('path', lambda: m.restore(path=os.path.join(d, f'checkpoint_{s}'))),
            ('path/', lambda: m.restore(path=os.path.join(d, f'checkpoint_{s}') + '/')),
            ('utils', lambda: utils.restore(m, [os.path.join(d, f'checkpoint_{s}')],
                                            utils.RestoreCheckpointConfig(path='', restore_dataset=True))),
            ('utils, no dataset', lambda: utils.restore(m, [os.path.join(d, f'checkpoint_{s}')],
                                                        utils.RestoreCheckpointConfig(path='')))):
          case = dict(steps=sub, asked=s, how=how)
          ck.case((sub, s, how), sample=case)
          it.pos = -5
          if s in sub:
            ok, got = ck.guarded('restore', fn, case)
            if ok:
              bad = lc.same_state(states[s], got)
              ck.expect(bad is None, f'restored something else: {bad}', case)
              pos = -5 if how == 'utils, no dataset' else s * 3 + 1
              ck.expect(it.pos == pos, 'dataset iterator of another step', case, pos, it.pos)
          else:
            ck.expect_raises('restoring a step that does not exist', fn, case)
      ck.expect_raises('step and path', lambda: m.restore(step=sub[0], path=os.path.join(
          d, f'checkpoint_{sub[0]}')), exc=ValueError)
      m.close()
      # a manager elsewhere restores by full path
      m = manager(scratch.new(), blank, p1)
      ok, got = ck.guarded('restore by path from another directory', lambda: m.restore(
          path=os.path.join(d, f'checkpoint_{sub[0]}')), dict(steps=sub))
      if ok:
        bad = lc.same_state(states[sub[0]], got)
        ck.expect(bad is None, f'restored something else: {bad}', dict(steps=sub))
      m.close()
      scratch.clear(d)

    ck.part('retention and period')
    for keep, force, period, forced in itertools.product(
        (None, 1, 2, 3), (None, 4), (1, 2, 5), (True, False)):
      if forced and period != 1 and not ck.thorough:
        continue
      for hist in ((2, 3, 4, 5, 6, 8), (0, 9, 10, 12, 100)):
        case = dict(keep=keep, force_keep_period=force, period=period, force=forced, steps=hist)
        ck.case(str(case), sample=case)
        d = scratch.new()
        def go():
          m = manager(d, blank, p1, keep=keep, period=period, force_keep_period=force)
          log = []
          for i, s in enumerate(hist):
            should = m.should_save(s)
            log.append((s, bool(should), bool(m.save(states[s], force=forced))))
            m.wait_until_finished()
            log.append(tuple(sorted(m.all_steps())))
            if i == 2:  # a restart in the middle
              m.close()
              m = manager(d, blank, p1, keep=keep, period=period, force_keep_period=force)
          m.close()
          on_disk = tuple(sorted(int(n.split('_')[1]) for n in os.listdir(d)
                                 if n.startswith('checkpoint_')))
          return log, on_disk
        ok, got = ck.guarded('save history', go, case)
        scratch.clear(d)
        if not ok:
          continue
        have, log = set(), []
        for s in hist:
          # The first save of a directory always happens in Orbax.
          due = s % period == 0 or not have
          took = forced or due
          log.append((s, due, took))
          if took:
            have = kept(have | {s}, keep, force)
          log.append(tuple(sorted(have)))
        ck.expect(got[0] == log and set(got[1]) == have, 'wrong saves or retention', case,
                  log, got)

    ck.part('through the save configuration')
    import functools
    for keep, period, best in itertools.product((1, 2), (1, 2), (None, 'class', 'partial', 'min')):
      orders = [{2: 5., 3: 1., 4: 9., 5: 2.}, {2: 9., 3: 0., 4: -3., 5: -2.}, {2: 1., 3: 2., 4: 5., 5: 9.}]
      for vals in orders if best else orders[:1]:
        d = scratch.new()
        case = dict(keep=keep, period=period, best=best, metric=vals)
        ck.case(str(case), sample=case)
        sb = checkpoints.SaveBestCheckpointer
        if best:
          c03.write_events(d, 'train', 'accuracy', vals)
        def go():
          cls = {None: checkpoints.Checkpointer, 'class': sb, 'partial': functools.partial(
              sb, metric_name_to_monitor='train/accuracy', metric_mode='max',
              keep_checkpoints_without_metrics=False), 'min': functools.partial(
                  sb, metric_name_to_monitor='train/accuracy', metric_mode='min')}[best]
          cfg = utils.SaveCheckpointConfig(keep=keep, period=period, dtype='bfloat16',
                                           checkpointer_cls=cls)
          m = utils.create_orbax_checkpoint_manager(
              save_cfg=cfg, train_state=blank, partitioner=p1, model_dir=d)
          for s in (2, 3, 4, 5):
            m.save(states[s])
            m.wait_until_finished()
          got = sorted(m.all_steps())
          st = m.restore(step=got[-1])
          m.close()
          return got, st
        ok, got = ck.guarded('configured save', go, case)
        scratch.clear(d)
        if ok:
          top = sorted(vals, key=lambda s: vals[s] * (-1 if best == 'min' else 1))[-keep:]
          if best is None:
            ck.expect(got[0] == [2, 3, 4, 5][-keep:], 'wrong checkpoints kept', case, None, got[0])
          else:
            # the newest may be kept besides the best ones
            ck.expect(set(top) <= set(got[0]) <= set(top) | {5},
                      'wrong checkpoints kept for the monitored metric', case, top, got[0])
          bad = c04.expect_diff(states[got[0][-1]], got[1], BF, None)
          ck.expect(bad is None, f'configured dtype not used: {bad}', case)

    ck.part('fallback and transformations')
    from flax import traverse_util
    from t5x import state_utils
    st = c04.build('adam', c04.SHAPES['nest'], F32, 5, 0)
    others = c04.build('adam', c04.SHAPES['nest'], F32, 6, 0, salt=40)
    full = traverse_util.flatten_dict(st.state_dict(), sep='/')
    fall = traverse_util.flatten_dict(others.state_dict(), sep='/')
    names = [k for k in full if k.startswith('target/') or '/mu/' in k]
    d = scratch.new()
    m = manager(d, st, p1)
    m.save(st)
    m.wait_until_finished()
    m.close()
    for drop in itertools.chain(itertools.combinations(names, 1), itertools.combinations(names, 2)):
      for rd in (None, BF):
        if len(drop) == 2 and (rd is not None or not ck.thorough and drop[0] != names[0]):
          continue
        def dropper(sdict, tgt, is_resuming=False):
          fl = state_utils.flatten_state_dict(sdict, keep_empty_nodes=True)
          for n in drop:
            fl.pop(n)
          return traverse_util.unflatten_dict(fl, sep='/')
        fb = traverse_util.unflatten_dict({n: np.asarray(fall[n]) for n in drop}, sep='/')
        case = dict(missing=drop, restore_dtype=str(rd))
        ck.case(str(case), sample=case)
        def go():
          m = manager(d, st, p1, restore_dtype=rd)
          try:
            return m.restore(step=5, state_transformation_fns=[dropper], fallback_state=fb)
          finally:
            m.close()
        ok, g = ck.guarded('restore with fallback', go, case)
        if ok:
          gf = lc.flat(g.state_dict())
          for k in full:
            want = np.asarray(fall[k] if k in drop else full[k])
            have = gf[k]
            if k.startswith('target/') and rd is not None:
              want = np.asarray(jnp.asarray(want).astype(rd))
            ck.expect(have.dtype == want.dtype and have.tobytes() == want.tobytes(),
                      f'{k} wrong with a fallback state', case, want, have)

    ck.part('checkpoints of the classic format')
    d = scratch.new()
    checkpoints.Checkpointer(st, p1, d).save(st)
    for drop, rd, how in itertools.product([()] + [(n,) for n in names], (None, BF),
                                           ('step', 'path', 'elsewhere', 'latest')):
      if drop and how != 'step':
        continue
      fb = traverse_util.unflatten_dict({n: np.asarray(fall[n]) for n in drop}, sep='/')
      def dropper(sdict, tgt, is_resuming=False):
        fl = state_utils.flatten_state_dict(sdict, keep_empty_nodes=True)
        for n in drop:
          fl.pop(n)
        return traverse_util.unflatten_dict(fl, sep='/')
      case = dict(format='classic', missing=drop, restore_dtype=str(rd), how=how)
      ck.case(str(case), sample=case)
      def go():
        m = manager(scratch.new() if how == 'elsewhere' else d, others, p1, restore_dtype=rd)
        kw = dict(step=5) if how == 'step' else {} if how == 'latest' else dict(
            path=os.path.join(d, 'checkpoint_5'))
        if drop:
          kw.update(state_transformation_fns=[dropper], fallback_state=fb)
        try:
          return m.restore(**kw)
        finally:
          m.close()
      ok, g = ck.guarded('restore', go, case)
      if ok:
        gf = lc.flat(g.state_dict())
        for k in full:
          want = np.asarray(fall[k] if k in drop else full[k])
          cast = want
          if k.startswith('target/') and rd is not None:
            cast = np.asarray(jnp.asarray(want).astype(rd))
          # The documentation leaves open whether fallback values are cast.
          ck.expect(any(gf[k].dtype == w.dtype and gf[k].tobytes() == w.tobytes()
                        for w in ((want, cast) if k in drop else (cast,))),
                    f'{k} wrong', case, cast, gf[k])

    ck.part('crash points')
    for plan in ck.pick([((2, 5, 9), 2)], [((2, 5, 9), 2), ((2, 5, 9), None), ((0, 9, 10, 100), 1)]):
      crashes(ck, plan, manager, scratch, p1, Iter)


def crashes(ck, plan, manager, scratch, part, Iter):
  """Recovery from every directory image of a save history."""
  steps, keep = plan
  states = {s: lc.train_state(s, 'sgd', ((2,),)) for s in steps + (1000,)}
  blank = lc.train_state(1, 'sgd', ((2,),), salt=7)
  d = scratch.new()
  it = Iter()
  before = [set()]
  m = manager(d, blank, part, keep=keep, dataset_iterator=it)
  with crashfs.Recorder(d) as rec:
    for k, s in enumerate(steps, 1):
      rec.mark(k)
      it.pos = s * 3 + 1
      m.save(states[s])
      m.wait_until_finished()
      rec.mark(-k)
      before.append(kept(before[-1] | {s}, keep, None))
  m.close()
  images = rec.crash_points()
  for n, im in enumerate(images):
    if not ck.thorough and im.torn and n % 4:
      continue
    k = abs(im.mark)
    t = scratch.new('x')
    try:
      im.write(t)
      prev, after = before[max(k - 1, 0)], before[k]
      cur = steps[k - 1] if k else None
      case = dict(plan=plan, crash_after=im.op.replace(d, ''), during_save_of=cur)
      ck.case((plan, n), sample=case)
      it2 = Iter(-1)
      ok, m = ck.guarded('opening the manager after a crash', lambda: manager(
          t, blank, part, keep=keep, dataset_iterator=it2), case)
      if not ok:
        continue
      avail = set(m.all_steps())
      case['reported'] = sorted(avail)
      if im.mark < 0 or k == 0:
        ck.expect(avail == after, 'a committed checkpoint is missing or a foreign one appeared',
                  case, after, avail)
      elif cur not in avail:
        ck.expect(avail == prev, 'a crash before the commit lost or added a checkpoint', case,
                  prev, avail)
      else:
        ck.expect(after <= avail <= prev | {cur}, 'a crash after the commit lost or added a '
                  'checkpoint', case, (after, prev), avail)
      for s in avail & (after | prev if cur not in avail else after):
        ok, got = ck.guarded(f'restoring reported step {s}', lambda: m.restore(step=s), case)
        if ok:
          bad = lc.same_state(states[s], got)
          ck.expect(bad is None, f'step {s} does not hold what was saved: {bad}', case)
          ck.expect(it2.pos == s * 3 + 1, 'wrong iterator state', case, s * 3 + 1, it2.pos)
      if ck.thorough or n % 5 == 0:
        def resume():
          it2.pos = 77
          m.save(states[1000])
          m.wait_until_finished()
          it2.pos = 0
          return lc.same_state(states[1000], m.restore(step=1000)), it2.pos
        ok, bad = ck.guarded('saving after the restart', resume, case)
        if ok:
          ck.expect(bad == (None, 77), 'save after the restart is wrong', case, None, bad)
      m.close()
    finally:
      scratch.clear(t)
  scratch.clear(d)
