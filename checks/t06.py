"""T06: stop conditions, over every metric history up to a depth."""
import copy
import itertools
import math

import numpy as np

TECHNIQUE = 'hist'
LEVEL = 'exploration'
RULE = ('every metric history up to the depth over a value alphabet with missing, foreign and NaN entries x every '
        'patience, margin and direction; every list of action outcomes; distinct = (configuration, history)')
ASSUMPTIONS = ['patience is at least 2', 'early stopping monitors finite or NaN values',
               'metrics are clu Scalar values or Python floats, the kinds the actions document']


def check(ck):
  import clu.values
  import jax.numpy as jnp
  from unittest import mock
  from t5x import train as train_lib, trainer as tl
  S = clu.values.Scalar
  nan = float('nan')

  def metrics(v, wrap):
    """The metrics dictionary of one evaluation."""
    other = {'loss': S(0.5), 'x': S(nan)}
    if v == 'no task':
      return {'other': other}
    if v == 'no metric':
      return {'task': {'x': S(7.)}, 'other': other}
    if v == 'foreign':
      return {'task': {'m': clu.values.Text('1.0')}, 'other': other}
    return {'other': other, 'task': {'x': S(1.), 'm': wrap(v)}}

  wraps = (lambda v: S(v), lambda v: float(v), lambda v: S(np.float32(v)), lambda v: S(jnp.float32(v)))

  def improves(mode, cur, prev, atol, rtol):
    """Whether `cur` is better than `prev` by more than the margin."""
    d = atol + rtol * abs(prev)
    return (cur < prev - d) if mode == 'min' else (cur > prev + d)

  ck.part('early stopping')
  alpha = (1.0, 2.0, 1.5, nan, 'no task', 'foreign', -3.0, 'no metric')
  settings = [(mode, pat, at, rt) for mode in ('min', 'max') for pat in (2, 3, 4)
              for at, rt in ((0., 0.), (0.5, 0.), (0., 0.25), (0.5, 0.5))]
  for si, (mode, pat, atol, rtol) in enumerate(settings):
    small = alpha[:4] if pat == 4 or not ck.thorough else alpha[:6]
    plans = ((alpha, ck.pick(4, 5)), (small, ck.pick(5, 6) if pat < 4 else ck.pick(6, 7)))
    for letters, depth in plans:
      stack = [((), tl.EarlyStoppingAction(('task', 'm'), mode, pat, atol, rtol), (), False)]
      while stack:
        hist, act, vals, stopped = stack.pop()
        ck.state((si, hist))
        if len(hist) == depth:
          continue
        for v in letters:
          a = copy.deepcopy(act)
          h = hist + (v,)
          case = dict(mode=mode, patience=pat, atol=atol, rtol=rtol, history=h)
          ck.case((si, tuple(map(str, h))), sample=case if len(h) == 3 and si == 5 and v == 1.5 else None)
          ok, got = ck.guarded('an action', lambda: a.run(None, metrics(v, wraps[(si + len(h)) % 4])), case)
          ck.transition()
          if not ok:
            continue
          real = not isinstance(v, str)
          nv = vals + (v,) if real else vals
          last = nv[-pat:]
          none = len(last) == pat and all(
              not improves(mode, last[i + 1], last[i], atol, rtol) and not math.isnan(last[i] + last[i + 1])
              for i in range(pat - 1))
          want = real and (stopped or none)
          if stopped and not real:
            ck.expect(got in (True, False), 'kind of result', case)
          else:
            ck.expect(bool(got) == want, 'stop decision', case, want, bool(got))
          if bool(got) == want or (stopped and not real):
            if not (stopped or none) or len(h) < pat + 2:
              stack.append((h, a, nv, stopped or none))
  for kw, exc in ((dict(mode='least'), ValueError), (dict(mode='min', atol=-1.), ValueError),
                  (dict(mode='max', rtol=-.1), ValueError)):
    ck.case(('refused', str(kw)))
    ck.expect_raises('a bad setting', lambda: tl.EarlyStoppingAction(('task', 'm'), **kw), kw, exc)

  ck.part('non-finite guard')
  inf = float('inf')
  letters = (1.0, -2.0, 0.0, nan, inf, -inf, 'no task', 'no metric', 'foreign')
  for depth in range(1, ck.pick(4, 5)):
    for h in itertools.product(letters, repeat=depth):
      for wi in (0, 2, 3) if depth < 3 else (0,):
        for kw in ({'metric': 'm'}, {}):
          a = tl.TerminateOnNanAction('task', **kw)
          ck.case(('guard', tuple(map(str, h)), wi, str(kw)))
          for i, v in enumerate(h):
            m = metrics(v, wraps[wi])
            if not kw:
              m = {t: {('loss' if k == 'm' else k): x for k, x in d.items()} for t, d in m.items()}
            case = dict(history=h[:i + 1], metric=kw.get('metric', 'loss'))
            ok, got = ck.guarded('the guard', lambda: a.run(None, m), case)
            want = not isinstance(v, str) and not math.isfinite(v)
            ck.expect(not ok or bool(got) == want, 'stop decision of the guard', case, want, ok and bool(got))

  # ---- several actions, and the decision shared by all processes
  ck.part('composition')

  class Fixed(tl.BaseAction):
    def __init__(self, r, log, i):
      self.r, self.log, self.i = r, log, i

    def run(self, train_state, metrics_by_task):
      self.log.append((self.i, train_state, tuple(metrics_by_task)))
      return self.r

  kinds = (False, True, np.bool_(False), np.bool_(True), jnp.array(True))
  for n in range(0, ck.pick(4, 5)):
    for rs in itertools.product(kinds, repeat=n):
      for mode in tl.ActionMode:
        log = []
        acts = {mode: [Fixed(r, log, i) for i, r in enumerate(rs)],
                **{m: [Fixed(True, log, 'other')] for m in tl.ActionMode if m != mode}}
        case = dict(results=[bool(r) for r in rs], mode=mode.name)
        ck.case(('compose', mode.name, tuple(map(repr, rs))))
        ok, got = ck.guarded('run_actions', lambda: train_lib.run_actions(mode, acts, 'state', {'t': {}}), case)
        want = any(bool(r) for r in rs)
        ck.expect(not ok or got is want, 'composed decision', case, want, ok and got)
        ck.expect([e[0] for e in log if e[0] != 'other'] == list(range(n)) and all(e[0] != 'other' for e in log),
                  'actions run', case, list(range(n)), log)
        ck.expect(not n or log[0][1:] == ('state', ('t',)), 'arguments of an action', case, None, log[:1])
  ck.case('no metrics')
  ck.expect_raises('no metrics on process 0', lambda: train_lib.run_actions(tl.ActionMode.TRAIN, {}, None, {}), {},
                   RuntimeError)
  ck.case('no actions')
  ck.expect(train_lib.run_actions(tl.ActionMode.TRAIN, {}, None, {'t': {}}) is False, 'no action stops', {})
  # every process follows process 0, which alone runs the actions
  import jax
  from jax.experimental import multihost_utils
  for n, rs in [(n, rs) for n in (1, 2) for rs in itertools.product((False, True), repeat=n)]:
    for host in (0, 1, 2):
      log, sent = [], []

      def broadcast(x, is_source=None):
        sent.append(bool(x))
        return jnp.array(any(rs))  # what process 0 sent
      case = dict(results=rs, process=host)
      ck.case(('hosts', rs, host))
      with mock.patch.object(jax, 'process_index', lambda *a, **k: host), \
          mock.patch.object(multihost_utils, 'broadcast_one_to_all', broadcast):
        ok, got = ck.guarded('run_actions', lambda: train_lib.run_actions(
            tl.ActionMode.TRAIN, {tl.ActionMode.TRAIN: [Fixed(r, log, i) for i, r in enumerate(rs)]}, None,
            {'t': {}} if host == 0 else {}), case)
      ck.expect(not ok or got is any(rs), 'decision on another process', case, any(rs), ok and got)
      ck.expect(len(log) == (n if host == 0 else 0), 'actions run on process 0 only', case, None, log)
      ck.expect(host or sent == [any(rs)], 'decision sent', case, any(rs), sent)
