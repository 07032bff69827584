"""T03: metric reporting and state access of the trainer under every schedule within a bound."""
import collections
import gc
import itertools
import os
import sys
import types
from unittest import mock

import numpy as np

TECHNIQUE = 'sched'
LEVEL = 'exploration'
RULE = ('every schedule of the training thread, user threads and background workers with at most the given number '
        'of deviations from the default schedule, x every scenario and failure point; distinct = (scenario, schedule)')
ASSUMPTIONS = ['one thread trains; other threads may read or set the state, evaluate and write scalars',
               'the clu asynchronous pool and the standard future are executed as they are; their executor is '
               'replaced by a controlled one with the same contract',
               'a writer call is atomic up to the hand-over points placed inside it']


def check(ck):
  import clu.asynclib as asynclib
  import clu.metric_writers as mw
  import clu.metrics as cm
  import jax
  import jax.numpy as jnp
  from mc import sched
  from t5x import metrics as M, partitioning, trainer as tl

  log = None
  gc.freeze()
  sys.unraisablehook = lambda *a: None  # finalizers of managers whose workers failed raise again

  class Writer(mw.MetricWriter):
    """Records calls; hands over inside each of them."""

    def __init__(self, name):
      self.name, self.inside, self.closed = name, 0, False
      self.fail = None
      self.calls = 0

    def _call(self, kind, step, values):
      me = sched.current()
      self.calls += 1
      if self.inside:
        log.append(('overlap', self.name, kind, step))
      if self.closed:
        log.append(('after close', self.name, kind, step))
      self.inside += 1
      sched.point('in writer')
      self.inside -= 1
      if self.fail == (kind, int(step)):
        log.append(('failed', self.name, kind, int(step)))
        raise OSError('disk full')
      log.append((kind, self.name, int(step), {k: float(np.asarray(v)) for k, v in values.items()},
                  me.name if me else None))

    def write_scalars(self, step, scalars):
      self._call('scalars', step, scalars)

    def write_summaries(self, *a, **k):
      raise AssertionError('not expected')
    write_images = write_videos = write_audios = write_texts = write_histograms = write_hparams = write_pointcloud = (
        write_summaries)

    def flush(self):
      log.append(('flush', self.name))

    def close(self):
      log.append(('close', self.name))
      self.closed = True

  clock = [0.0]

  def now():
    clock[0] += 1.0
    return clock[0]

  writers = {}

  def make_writer(logdir=None, *, collection=None, **k):
    writers[collection] = Writer(collection)
    return writers[collection]

  def execute(bodies, lines=False):
    """Returns a program for the explorer."""
    def program(s):
      nonlocal log
      log = []
      clock[0] = 0.
      writers.clear()
      if lines:
        s.trace = sched.line_tracer({tl.__file__})
      with sched.controlled(tl, asynclib), mock.patch.object(tl, '_time', now), \
          mock.patch.object(mw, 'create_default_writer', make_writer), \
          mock.patch.object(asynclib.logging, 'exception', lambda *a, **k: None):
        ctx = types.SimpleNamespace(err=None, keep=[])
        fns = bodies(ctx)
        s.run(*fns)
      return ctx, log
    return program

  def explore(name, bodies, bound, judge, lines=False, expect_error=False):
    n = 0
    gc.collect()
    gc.disable()  # collections would run finalizers of earlier executions inside this one
    try:
      n = explore_(name, bodies, bound, judge, lines, expect_error)
    finally:
      gc.enable()
    if os.environ.get('VERIF_VERBOSE'):
      print('   ', name, n, 'schedules', flush=True)
    return n

  def explore_(name, bodies, bound, judge, lines, expect_error):
    n = 0
    for s, (ctx, lg) in sched.explore(execute(bodies, lines), bound):
      n += 1
      case = dict(scenario=name, schedule=[i for i in enumerate(s.taken) if i[1]])
      ck.case((name, tuple(s.taken)), sample=case if n == 40 else None)
      ck.transition(len(s.choices))
      if s.deadlock:
        ck.violation('deadlock', case, None, s.deadlock)
        break
      if s.error is not None and not expect_error:
        ck.violation('unexpected error', case, None, repr(s.error))
        break
      bad = [e for e in lg if e[0] in ('overlap', 'after close')]
      if bad:
        ck.violation('writer used by two threads at once, or after it was closed', case, None, bad)
        break
      if judge(ctx, lg, s, case) is False:
        break
      if n % 500 == 0:
        gc.collect()
    return n

  def entries(lg, name):
    return [e for e in lg if e[0] == 'scalars' and e[1] == name]

  def metric(v):
    return {'total': M.Sum(np.float32(v)), 'rate': M.TimeRate(numerator=np.float32(v)),
            'per': M.AveragePerStep(total=np.float32(v), steps=1)}

  # ---- the metric manager
  ck.part('summaries of one manager')
  for k, use, bound in ((1, 'close', 2), (2, 'close', ck.pick(2, 3)), (3, 'result', 2), (2, 'flush', ck.pick(2, 3)),
                        (3, 'scalar', 2)):
    def bodies(ctx, k=k, use=use):
      def main():
        m = tl.MetricsManager('train', summary_dir=None)
        ctx.keep.append(m)
        futs = []
        for i in range(k):
          m.start_duration_timer()
          if use == 'scalar':
            m.write_scalar('own', 100. + i, 10 * i)
          futs.append(m.write_metrics_summary(metric(2. ** i), 10 * (i + 1), 2 ** i))
          if use == 'result':
            ctx.res = futs[-1].result()
            log.append(('result', i, {a: float(v.value) for a, v in ctx.res.items()}))
          if use == 'flush' and i == 0:
            m.flush()
            log.append(('flushed', ))
        m.close()
        log.append(('closed', ))
        ctx.futs = [f.result() for f in futs]
      return [main]

    def judge(ctx, lg, s, case, k=k, use=use):
      ws = entries(lg, 'train')
      bg = [e for e in ws if 'total' in e[3]]
      ck.expect([e[2] for e in bg] == [10 * (i + 1) for i in range(k)], 'summaries written', case,
                [10 * (i + 1) for i in range(k)], bg)
      for i, e in enumerate(bg[:k]):
        v = e[3]
        ck.expect(v['total'] == 2. ** i and v['per'] == 1., 'values of a step', case, 2. ** i, v)
        d = 2. ** i / v['rate'] if v['rate'] else -1
        ck.expect(d > 0, 'duration of a step', case, '> 0', v)
      own = [e for e in ws if 'own' in e[3]]
      ck.expect([(e[2], e[3]['own']) for e in own] == ([(10 * i, 100. + i) for i in range(k)] if use == 'scalar' else []),
                'scalars written by the training thread', case, None, own)
      at = lg.index(('closed', ))
      ck.expect(not entries(lg[at:], 'train') and ('close', 'train') in lg[:at], 'close returned early', case, None, lg)
      if use == 'flush':
        f = lg.index(('flushed', ))
        ck.expect([e[2] for e in entries(lg[:f], 'train')] == [10] and ('flush', 'train') in lg[:f],
                  'flush returned early', case, None, lg)
      if use == 'result':
        for i in range(k):
          r = [j for j, e in enumerate(lg) if e[0] == 'result' and e[1] == i]
          ck.expect(len(r) == 1 and lg[r[0]][2]['total'] == 2. ** i and any(e[2] == 10 * (i + 1) for e in entries(
              lg[:r[0]], 'train')), 'result of a summary', case, 2. ** i, lg)
    explore('%d summaries, %s' % (k, use), bodies, bound, judge)

  ck.part('several user threads')
  for bound, k in ((ck.pick(2, 3), 1), (ck.pick(1, 2), 2)):
    def bodies(ctx, k=k):
      m = tl.MetricsManager('train', summary_dir=None)
      ctx.keep.append(m)
      done = []

      def other():
        for i in range(k):
          m.write_scalar('b', 5. + i, i)
        done.append(1)

      def main():
        m.start_duration_timer()
        f = m.write_metrics_summary(metric(3.), 1, 1)
        m.write_scalars(2, {'a': 1., 'c': 2.})
        f.result()
        sched.point('join', lambda: bool(done))
        m.close()
        log.append(('closed', ))
      return [main, other]

    def judge(ctx, lg, s, case, k=k):
      got = collections.Counter((e[2], tuple(sorted(a for a in e[3] if a in 'abc')))
                                for e in entries(lg, 'train') if 'total' not in e[3])
      want = collections.Counter({(2, ('a', 'c')): 1})
      want.update((i, ('b',)) for i in range(k))
      ck.expect(got == want, 'scalars written', case, want, got)
      ck.expect(len([e for e in entries(lg, 'train') if 'total' in e[3]]) == 1, 'summary written', case, 1, lg)
    explore('user threads %d' % k, bodies, bound, judge)

  # ---- failures in the background
  ck.part('background failures')

  class Bad(cm.Metric):
    def compute(self):
      raise ArithmeticError('cannot compute')

    def compute_value(self):
      raise ArithmeticError('cannot compute')

  class BadLeaf:
    def __init__(self, msg):
      self.msg = msg

    def block_until_ready(self):
      raise RuntimeError(self.msg)
  gone = 'INVALID_ARGUMENT: BlockHostUntilReady() called on deleted or donated buffer'
  for kind, at, k in itertools.product(('writer', 'metric', 'timer', 'gone'), (0, 1, 2), (2, 3)):
    if at >= k:
      continue

    def bodies(ctx, kind=kind, at=at, k=k):
      def main():
        m = tl.MetricsManager('train', summary_dir=None)
        ctx.keep.append(m)
        writers['train'].fail = ('scalars', 10 * (at + 1)) if kind == 'writer' else None
        ctx.raised, ctx.futs = [], []
        try:
          for i in range(k):
            hit = i == at
            m.start_duration_timer(block_on=BadLeaf('broken device' if kind == 'timer' else gone)
                                   if hit and kind in ('timer', 'gone') else ())
            f = m.write_metrics_summary({'total': Bad()} if hit and kind == 'metric' else metric(2. ** i),
                                        10 * (i + 1), 1)
            ctx.futs.append(f)
        except Exception as e:  # pylint: disable=broad-except
          ctx.raised.append(('call', i, e))
        try:
          m.close()
        except Exception as e:  # pylint: disable=broad-except
          ctx.raised.append(('close', k, e))
        log.append(('closed', ))
        ctx.late = [f.exception() for f in ctx.futs]
      return [main]

    def judge(ctx, lg, s, case, kind=kind, at=at, k=k):
      steps = [e[2] for e in entries(lg, 'train')]
      if kind == 'gone':
        ck.expect(not ctx.raised and steps == [10 * (i + 1) for i in range(k)], 'a donated buffer disturbs the report',
                  case, None, (ctx.raised, steps))
        return
      ck.expect(bool(ctx.raised), 'a background failure never reaches the training thread', case, 'an exception', lg)
      want = [10 * (i + 1) for i in range(at)]
      ck.expect(steps[:at] == want, 'summaries before the failing one', case, want, steps)
      ck.expect(10 * (at + 1) not in steps, 'the failing summary', case, None, steps)
      ck.expect(steps == sorted(steps) and len(set(steps)) == len(steps), 'order of summaries', case, None, steps)
      if len(ctx.late) > at:
        ck.expect(isinstance(ctx.late[at], Exception), 'future of the failing summary', case, 'an exception', ctx.late)
      ck.expect(not entries(lg[lg.index(('closed', )):], 'train') and ('close', 'train') in lg,
                'writer closed after a failure', case, None, lg)
    explore('failing %s at %d of %d' % (kind, at, k), bodies, ck.pick(1, 2), judge)

  # ---- the trainer
  class Model:
    pass

  class Part:
    mesh = None
    data_partition_spec = None

    def compile(self, fn, *a):
      return fn

  class Trainer(tl.BaseTrainer):
    real = False

    @property
    def _partitioned_train_step(self):
      def step(state, batch):
        sched.point('step')
        if batch is None:
          raise ArithmeticError('bad batch')
        return State(state.step + 1, state.owner), {'total': M.Sum(np.float32(batch)),
                                                    'n': M.AveragePerStep(total=np.float32(1), steps=1)}
      return step

    @property
    def _partitioned_eval_step(self):
      def step(state, batch):
        sched.point('eval step')
        return {'total': M.Sum(np.float32(batch + state.step))}
      return step

  class State:
    def __init__(self, step, owner='init'):
      self.step, self.owner = step, owner

  def trainer(ctx, evals=()):
    t = Trainer(model=Model(), train_state=State(0), partitioner=Part(), eval_names=evals, summary_dir=None,
                train_state_axes=None, rng=None)
    ctx.keep.append(t)
    return t

  jax.clear_caches()
  merge = lambda a, b: {k: v.merge(b[k]) for k, v in a.items()}  # the jitted merge costs most of a schedule

  ck.part('trainer loop')
  with mock.patch.object(tl, '_merge_metrics', merge) if hasattr(tl, '_merge_metrics') else mock.patch.object(
      tl, 'merge_metrics', merge):
    for chunks, evals, bound in (((2, 1), (), 2), ((1, 2), ('a', 'b'), ck.pick(1, 2)),
                                 ((1, 1), ('a', ), ck.pick(1, 2)), ((1, 1, 2), (), ck.pick(1, 2))):
      def bodies(ctx, chunks=chunks, evals=evals):
        def main():
          t = trainer(ctx, evals)
          it = iter(2. ** i for i in range(10))
          s = 0
          ctx.futs = []
          for c in chunks:
            ctx.futs.append(t.train(it, c, start_step=s))
            s += c
            if evals:
              r = t.eval({e: iter([10., 20.]) for e in evals})
              log.append(('eval', s, {e: float(v['total'].value) for e, v in r.items()}))
          t.close()
          log.append(('closed', ))
          ctx.state = t.train_state
        return [main]

      def judge(ctx, lg, s, case, chunks=chunks, evals=evals):
        ends = list(itertools.accumulate(chunks))
        ws = entries(lg, 'train')
        ck.expect([e[2] for e in ws] == ends, 'summary steps', case, ends, ws)
        a = 0
        for e, c in zip(ws, chunks):
          want = sum(2. ** i for i in range(a, a + c))
          ck.expect(e[3]['total'] == want and e[3]['n'] == 1., 'summary values', case, want, e)
          ck.expect('timing/uptime' in e[3] and e[3]['timing/uptime'] > 0, 'uptime', case, None, e)
          a += c
        for e in evals:
          w = entries(lg, 'training_eval/' + e)
          ck.expect([x[2] for x in w] == ends and [x[3]['total'] for x in w] == [30. + 2 * n for n in ends],
                    'evaluation summaries', case, ends, w)
        for x in lg:
          if x[0] == 'eval':
            ck.expect(x[2] == {e: 30. + 2 * x[1] for e in evals}, 'evaluation result', case, None, x)
        at = lg.index(('closed', ))
        ck.expect(not [e for e in lg[at:] if e[0] == 'scalars'] and len([e for e in lg if e[0] == 'close']) == 1 + len(evals),
                  'close returned early', case, None, lg)
        ck.expect(ctx.state.step == ends[-1], 'final state', case, ends[-1], ctx.state.step)
      explore('train %s eval %s' % (chunks, evals), bodies, bound, judge)

    ck.part('access to the train state')
    for op, bound in (('read', ck.pick(2, 3)), ('set', ck.pick(2, 3)), ('eval', ck.pick(1, 2))):
      def bodies(ctx, op=op):
        t = trainer(ctx, ('a', ) if op == 'eval' else ())
        done = []
        ctx.seen = []

        def main():
          t.train(iter([1., 2.]), 2, start_step=0)
          sched.point('between')
          sched.point('join', lambda: bool(done))
          ctx.state = t.train_state
          t.close()

        def other():
          if op == 'read':
            ctx.seen = [t.train_state.step, t.train_state.step]
          elif op == 'set':
            ctx.before = t.train_state.step
            t.train_state = State(50, 'other')
          else:
            r = t.eval({'a': iter([10., 20.])})
            ctx.seen = [float(r['a']['total'].value)]
          done.append(1)
        return [main, other]

      def judge(ctx, lg, s, case, op=op):
        if op == 'read':
          ck.expect(ctx.seen in ([0, 0], [0, 2], [2, 2]), 'states another thread saw', case, '0 then 2', ctx.seen)
          ck.expect(ctx.state.step == 2, 'final state', case, 2, ctx.state.step)
        elif op == 'set':
          got = (ctx.state.step, ctx.state.owner)
          ck.expect(got in ((50, 'other'), (52, 'other')), 'a state set by another thread was lost', case,
                    'step 50 or 52 of the other thread', got)
        else:
          ck.expect(ctx.seen in ([30.], [34.]), 'state used by a concurrent evaluation', case, '30 or 34', ctx.seen)
      explore('state ' + op, bodies, bound, judge)

    ck.part('failures while training')
    for at in (0, 1, 2):
      def bodies(ctx, at=at):
        t = trainer(ctx)
        done = []

        def main():
          ctx.raised = None
          with t:
            try:
              t.train(iter([1., 2.]), 2, start_step=0)
              t.train(iter([None if i == at else 1. for i in range(3)]), 3, start_step=2)
            except Exception as e:  # pylint: disable=broad-except
              ctx.raised = e
            ctx.state = t.train_state
            done.append(1)
            sched.point('join', lambda: len(done) == 2)

        def other():
          ctx.seen = t.train_state.step
          done.append(1)
        return [main, other]

      def judge(ctx, lg, s, case, at=at):
        ck.expect(isinstance(ctx.raised, ArithmeticError), 'failure of a step', case, 'ArithmeticError', repr(ctx.raised))
        ck.expect(ctx.seen in (0, 2), 'state seen by another thread', case, '0 or 2', ctx.seen)
        ck.expect([e[2] for e in entries(lg, 'train')] == [2] and ('close', 'train') in lg, 'summaries', case, [2], lg)
      explore('failing step %d' % at, bodies, ck.pick(1, 2), judge)

    ck.part('hand-over before every line')
    for k in (1, 2):
      def bodies(ctx, k=k):
        def main():
          t = trainer(ctx)
          it = iter(2. ** i for i in range(10))
          for i in range(k):
            t.train(it, 1, start_step=i)
            t.train_metrics_manager.write_scalar('own', 1., i)
          t.close()
          log.append(('closed', ))
        return [main]

      def judge(ctx, lg, s, case, k=k):
        ws = [e for e in entries(lg, 'train') if 'total' in e[3]]
        ck.expect([(e[2], e[3]['total']) for e in ws] == [(i + 1, 2. ** i) for i in range(k)], 'summaries', case, None, ws)
        ck.expect(len([e for e in entries(lg, 'train') if 'own' in e[3]]) == k, 'scalars', case, k, lg)
        ck.expect(not [e for e in lg[lg.index(('closed', )):] if e[0] == 'scalars'], 'close returned early', case, None, lg)
      explore('lines %d' % k, bodies, ck.pick(1, 2 if k == 1 else 1), judge, lines=True)

  # ---- the real step: its input state is donated while the timer may still wait for it
  ck.part('donated states')
  fn = jax.jit(lambda s, b: ({'step': s['step'] + 1, 'w': s['w'] + b}, {'total': M.Sum(s['w'].sum() + b)}),
               donate_argnums=0)

  class Donating(Trainer):
    @property
    def _partitioned_train_step(self):
      def step(state, batch):
        out = fn(state.v, batch)
        return Wrapped(out[0]), dict(out[1])
      return step

  @jax.tree_util.register_pytree_node_class
  class Wrapped:
    def __init__(self, v):
      self.v = v

    step = property(lambda self: self.v['step'])

    def tree_flatten(self):
      return (self.v, ), None

    @classmethod
    def tree_unflatten(cls, aux, ch):
      return cls(*ch)
  for chunks, given in (((1, 1), True), ((2, 1), False)):
    def bodies(ctx, chunks=chunks, given=given):
      def main():
        t = Donating(model=Model(), train_state=Wrapped({'step': jnp.int32(0), 'w': jnp.ones((3,))}), partitioner=Part(),
                     eval_names=(), summary_dir=None, train_state_axes=None, rng=None)
        ctx.keep.append(t)
        s = 0
        it = iter([jnp.float32(i) for i in range(5)])
        for c in chunks:
          t.train(it, c, start_step=s if given else None)
          s += c
        t.close()
        ctx.state = t.train_state
      return [main]

    def judge(ctx, lg, s, case, chunks=chunks):
      ends = list(itertools.accumulate(chunks))
      ck.expect([e[2] for e in entries(lg, 'train')] == ends, 'summaries', case, ends, lg)
      ck.expect(int(ctx.state.step) == ends[-1], 'final state', case, ends[-1], int(ctx.state.step))
    explore('donation %s' % (chunks, ), bodies, ck.pick(1, 2), judge)
