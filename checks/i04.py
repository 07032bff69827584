"""I04: planning of the listed checkpoint steps."""
import itertools

TECHNIQUE = 'enum'
LEVEL = 'exploration'
RULE = ('every increasing list of steps up to a bound, and lists with repetitions, times every '
        'period, first step, position, epoch end, chunk length and start index: single calls '
        'against the definition; the same lists times epoch lengths and chunk lengths as whole '
        'runs, also interrupted and resumed at every step; distinct = the argument tuple')
ASSUMPTIONS = ['the list of checkpoint steps is in increasing order',
               'in whole runs, the loop around the two functions is a copy of that of t5x/train.py '
               '(the loop itself is explored by T04)']


def check(ck):
  from t5x import utils

  N = ck.pick(6, 9)
  lists = [tuple(s for s in range(N + 1) if b >> s & 1) for b in range(2 ** (N + 1))]
  lists += [(2, 2), (2, 2, 5), (1, 3, 3, 3), (0, 0), (4, 4, 6, 6), (3, 50), (50,), (0, 3, 50, 50)]
  periods = (0, None, 1, 2, 3, 5)

  def due(s, first, host, end, limit, period):
    return (s > first and s > host and s <= end and s <= limit
            and not (period and (s - first) % period == 0))

  def bad(what, **case):
    ck.violation(what, case)

  # ---- single calls
  ck.part('single calls')
  n = 0
  for steps in lists:
    for seq in ((steps, list(steps)) if len(steps) < 3 else (list(steps),)):
      for first, host in ((f, h) for f in range(N) for h in range(f, N)):
        base = utils.find_first_checkpoint_step(0, seq, first, host)
        idx = {0, base}
        for i0 in range(len(steps)):
          i = utils.find_first_checkpoint_step(i0, seq, first, host)
          n += 1
          if not (i0 <= i < len(steps)):
            bad('index out of range', steps=steps, first=first, host=host, start=i0, got=i)
          skipped = [s for s in steps[i0:i] if s > first and s > host]
          if skipped:
            bad('a due step is skipped', steps=steps, first=first, host=host, start=i0, got=i, skipped=skipped)
          left = [s for s in steps[i0:] if s > first and s >= host]
          if left and not (steps[i] >= host and steps[i] != first):
            bad('not the first step to come', steps=steps, first=first, host=host, start=i0, got=i)
        if not steps and base != 0:
          bad('index without steps', first=first, host=host, got=base)
        for period in periods:
          for end in sorted({host + 1, host + 2, min(host + 4, N), N, N + 1}):
            if end <= host:
              continue
            for inner in range(1, end - host + 2):
              for i in idx:
                for flag in (False, True):
                  cand = [s for s in steps[i:] if due(s, first, host, end, host + inner, period)]
                  want = (min(cand) - host, True) if cand else (inner, flag)
                  n += 1
                  try:
                    got = utils.find_next_checkpoint_step(i, inner, flag, host, seq, end, period, first)
                  except Exception as e:  # pylint: disable=broad-except
                    got = repr(e)
                  if got != want:
                    ck.expect(False, 'planned stop', dict(
                        steps=steps, first=first, host=host, period=period, epoch_end=end,
                        inner=inner, index=i, is_checkpoint_step=flag), want, got)
    ck.case(('single', steps))
  ck.transition(n)
  ck.trace(n)
  ck.sample(dict(calls=n))

  # ---- whole runs
  ck.part('whole runs')

  def loop(steps, first, total, epoch, stats, period, stop_at=None):
    """The loop of train.py; returns where it stopped and where it saved."""
    host, saved, stops, index = first, [], [], 0
    for e in range(1 + (total - first - 1) // epoch):
      end = min(total, first + epoch * (e + 1))
      while host < end:
        inner = min(end - host, stats)
        index = utils.find_first_checkpoint_step(index, steps, first, host)
        inner, flag = utils.find_next_checkpoint_step(
            index, inner, False, host, steps, end, period, first)
        if not 1 <= inner <= min(end - host, stats):
          return None, dict(host=host, inner=inner)
        host += inner
        stops.append(host)
        if flag:
          saved.append(host)
          if steps and index < len(steps) - 1:
            index += 1
        if stop_at is not None and host >= stop_at:
          return saved, host
    return saved, host

  n = 0
  for steps in lists:
    for period in periods:
      for first in range(0, N, 2):
        for total in (first + 1, N - 1, N, N + 2):
          if total <= first:
            continue
          for epoch in (1, 2, 3, N + 2):
            for stats in (1, 2, 4, N + 2):
              case = dict(steps=steps, period=period, first=first, total=total, epoch=epoch, stats=stats)
              want = sorted({s for s in steps if due(s, first, first, total, total, period)})
              saved, host = loop(list(steps), first, total, epoch, stats, period)
              n += 1
              if saved != want or host != total:
                ck.expect(False, 'saved steps of a run', case, (want, total), (saved, host))
              if ck.thorough or (epoch == 3 and len(steps) < 4):
                # stopped after every step, then resumed from there
                for stop in range(first + 1, total):
                  a, at = loop(list(steps), first, total, epoch, stats, period, stop)
                  if a is None or at >= total:
                    continue
                  b, host = loop(list(steps), at, total, epoch, stats, period)
                  n += 1
                  want2 = ([s for s in want if s <= at] +
                           sorted({s for s in steps if due(s, at, at, total, total, period)}))
                  if b is None or a + b != want2 or host != total:
                    ck.expect(False, 'saved steps of a resumed run', dict(case, stop=at), want2, (a, b, host))
    ck.case(('run', steps))
  ck.transition(n)
  ck.trace(n)
  ck.sample(dict(runs=n))
