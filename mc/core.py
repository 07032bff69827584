"""Bookkeeping shared by the checks: counting, violations, evidence, replay."""
import contextlib
import json
import os
import sys
import time
import traceback

from mc import env

_now = time.monotonic  # checks may pin time.time
VERIF = env.HERE
MAX_REPORTED = 5


def _jsonable(x):
  try:
    json.dumps(x)
    return x
  except TypeError:
    pass
  if isinstance(x, dict):
    return {str(k): _jsonable(v) for k, v in x.items()}
  if isinstance(x, (list, tuple, set, frozenset)):
    return [_jsonable(v) for v in x]
  if hasattr(x, 'tolist'):
    return _jsonable(x.tolist())
  return repr(x)


class Stop(Exception):
  """Raised when enough violations were seen."""


class Check:
  """One run of one property's check."""

  def __init__(self, pid, tier='quick', level='exploration', rule='',
               assumptions=(), replay=None):
    self.pid = pid
    self.tier = tier
    self.level = level
    self.rule = rule
    self.assumptions = list(assumptions)
    self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    self.t0 = _now()
    self.evaluations = 0
    self._nontrivial = set()
    self._states = set()
    self.transitions = 0
    self.traces = 0
    self.samples = []
    self.parts = {}
    self._part = None
    self.violations = []
    self.known_hit = []
    self.exhaustive = True
    self.replay = None
    self.quiet = False
    if replay:
      with open(replay) as f:
        self.replay = json.load(f)
    self.known = []
    kf = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(kf):
      with open(kf) as f:
        self.known = [
            k for k in json.load(f)['findings'] if k['property'] == pid]

  @property
  def thorough(self):
    return self.tier == 'thorough'

  def pick(self, quick, thorough):
    return thorough if self.thorough else quick

  # ---- counting
  def part(self, name):
    self._part = name
    self.parts.setdefault(name, dict(evaluations=0, wall_s=0.0))
    self._part_t0 = _now()
    if self.quiet is False and os.environ.get('VERIF_VERBOSE'):
      print(f'[{_now()-self.t0:6.1f}s] {name}', flush=True)

  def case(self, key=None, n=1, sample=None):
    """Counts n evaluated cases; `key` (hashable) marks a distinct case."""
    self.evaluations += n
    env.collect()
    if self._part:
      self.parts[self._part]['evaluations'] += n
      self.parts[self._part]['wall_s'] = round(
          self.parts[self._part]['wall_s'] + _now() - self._part_t0, 3)
      self._part_t0 = _now()
    if key is not None:
      self._nontrivial.add(hash((self._part, key)))
    if sample is not None:
      self.sample(sample)

  def sample(self, s):
    """Keeps a few cases per part, written out."""
    per = [x for x in self.samples if x.get('part') == self._part]
    if len(per) < 2 and len(self.samples) < 24:
      self.samples.append(dict(part=self._part, case=_jsonable(s)))

  def state(self, key):
    h = hash((self._part, key))
    new = h not in self._states
    self._states.add(h)
    return new

  def transition(self, n=1):
    self.transitions += n

  def trace(self, n=1):
    self.traces += n

  # ---- verdicts
  def violation(self, what, case=None, expected=None, got=None, sig=None):
    """Reports a violation; `sig` identifies it against the known findings."""
    for k in self.known:
      if sig is not None and k['sig'] == sig:
        if sig not in self.known_hit:
          self.known_hit.append(sig)
          sys.stdout.flush()
          os.write(1, f"\nKNOWN-FINDING: property={self.pid} {k['what']}\n".encode())
        return
    rec = dict(property=self.pid, part=self._part, what=what, sig=sig,
               case=_jsonable(case), expected=_jsonable(expected),
               got=_jsonable(got), seed=self.seed, tier=self.tier)
    self.violations.append(rec)
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{self.pid}-{len(self.violations)}.json')
    with open(path, 'w') as f:
      json.dump(rec, f, indent=1)
    # A line of its own even when other output shares the stream.
    sys.stdout.flush()
    sys.stderr.flush()
    os.write(1, f'\nVIOLATION property={self.pid} replay={path}\n'.encode())
    print('  ' + what, flush=True)
    for n in ('case', 'expected', 'got'):
      if rec[n] is not None:
        print(f'    {n}: {json.dumps(rec[n])[:600]}', flush=True)
    if len(self.violations) >= MAX_REPORTED:
      raise Stop()

  def expect(self, cond, what, case=None, expected=None, got=None, sig=None):
    if not cond:
      self.violation(what, case, expected, got, sig)
    return bool(cond)

  def guarded(self, what, fn, case=None, sig=None):
    """Runs fn; an exception is a violation. Returns (ok, value)."""
    try:
      return True, fn()
    except (Stop, KeyboardInterrupt):
      raise
    except BaseException as e:  # pylint: disable=broad-except
      self.violation(f'{what}: raised {type(e).__name__}: {str(e)[:400]}',
                     case, 'no exception', traceback.format_exc()[-2500:], sig)
      return False, None

  def expect_raises(self, what, fn, case=None, exc=Exception, sig=None):
    try:
      got = fn()
    except exc:
      return True
    except Stop:
      raise
    except BaseException as e:  # pylint: disable=broad-except
      self.violation(f'{what}: wrong exception {type(e).__name__}: {e}', case,
                     exc.__name__ if isinstance(exc, type) else str(exc),
                     repr(e), sig)
      return False
    self.violation(f'{what}: accepted', case, 'an error', repr(got)[:500], sig)
    return False

  def evidence(self):
    cov = dict(samples=self.samples or [dict(note='no case evaluated')],
               exhaustive=self.exhaustive, parts=self.parts, rule=self.rule)
    if self.level == 'model_checking':
      cov.update(states=len(self._states), transitions=self.transitions,
                 traces_validated_against_impl=self.traces)
      cov.update(evaluations=self.evaluations)
      if self._nontrivial:
        cov.update(distinct_nontrivial=len(self._nontrivial))
    else:
      cov.update(evaluations=self.evaluations,
                 distinct_nontrivial=len(self._nontrivial))
      if self._states:
        cov.update(states=len(self._states))
      if self.transitions:
        cov.update(transitions=self.transitions)
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
              level=self.level, coverage=cov, assumptions=self.assumptions,
              wall_s=round(_now() - self.t0, 2),
              violations=len(self.violations))
    with open(os.path.join(d, f'{self.pid}.json'), 'w') as f:
      json.dump(ev, f, indent=1)
    return ev

  def finish(self):
    ev = self.evidence()
    c = ev['coverage']
    nums = {k: v for k, v in c.items() if isinstance(v, int) and k != 'exhaustive'}
    print(f'{self.pid} {self.tier}: {nums} violations={len(self.violations)} '
          f'wall={ev["wall_s"]}s', flush=True)
    return 1 if self.violations else 0


def in_repo(tb):
  root = os.path.join(env.REPO, 't5x')
  return any(os.path.abspath(f.filename).startswith(root)
             for f in traceback.extract_tb(tb))


LIMIT = 860  # seconds; quick checks take a sixth of that or less


def watchdog(ck):
  """Executions that never end are violations as well."""
  import threading
  from mc import par

  def late():
    with contextlib.suppress(Stop):
      ck.violation(f'no end of the exploration after {LIMIT} s: an execution does not terminate', None)
    for p in par.RUNNING:
      with contextlib.suppress(Exception):
        p.kill()
    with contextlib.suppress(Exception):
      ck.exhaustive = False
      ck.evidence()
    os._exit(1)

  t = threading.Timer(LIMIT, late)
  t.daemon = True
  t.start()


def run(pid, fn, tier, level, rule='', assumptions=(), replay=None):
  """Runs a check function to a process exit code."""
  ck = Check(pid, tier, level, rule, assumptions, replay)
  if tier == 'quick':
    watchdog(ck)
  try:
    fn(ck)
  except Stop:
    ck.exhaustive = False
  except BaseException as e:  # pylint: disable=broad-except
    traceback.print_exc()
    ck.exhaustive = False
    # What the code returned lacks the form every later comparison relies on,
    # or the code itself raised; neither happens where the property holds.
    if in_repo(e.__traceback__) or isinstance(e, Exception) and not isinstance(
        e, (ImportError, MemoryError, OSError)):
      try:
        ck.violation(f'uncaught {type(e).__name__}: {str(e)[:500]}', None,
                     'no exception', traceback.format_exc()[-3000:])
      except Stop:
        pass
    else:
      ck.finish()
      return 2
  return ck.finish()
