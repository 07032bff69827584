"""A controlled thread scheduler: explores the interleavings of real threads.

Only one controlled thread runs at a time. It hands over at locks, executors, futures and at explicit
`point` calls. Every schedule that deviates from the default one (keep running; else the oldest thread) at
most `bound` times is executed, by replaying the program.
"""
import collections
import concurrent.futures
import contextlib
import sys
import threading
import types
from unittest import mock

_real_lock, _real_rlock = threading.Lock, threading.RLock
_local = threading.local()
HANG = 120


class Abort(BaseException):
  """Ends a controlled thread when the execution is over."""


class Deadlock(Exception):
  pass


class _T:
  def __init__(self, name):
    self.name, self.wake = name, threading.Semaphore(0)
    self.wait, self.done, self.daemon, self.where = None, False, False, ''


def current():
  return getattr(_local, 'me', None)


class Sched:
  """One execution under a prefix of choices."""

  def __init__(self, prefix=()):
    self.prefix, self.choices, self.taken = prefix, [], []
    self.threads, self.over, self.deadlock, self.error = [], False, None, None
    self.finished = threading.Event()
    self.points = 0

  # -- threads
  def spawn(self, fn, name, daemon=False):
    t = _T(name)
    t.daemon = daemon
    self.threads.append(t)

    def body():
      _local.me, _local.sched = t, self
      if self.trace:
        sys.settrace(self.trace)
      t.wake.acquire()
      try:
        if self.over:
          return
        fn()
      except Abort:
        pass
      except BaseException as e:  # pylint: disable=broad-except
        self.error = self.error or e
      finally:
        sys.settrace(None)
        t.done = True
        _local.me = None
        self.switch(t)
    th = threading.Thread(target=body, daemon=True)
    t.thread = th
    th.start()
    return t

  trace = None

  def enabled(self):
    return [t for t in self.threads if not t.done and (t.wait is None or t.wait())]

  def switch(self, cur):
    """Chooses the thread that goes on; called by the one that runs."""
    if self.over:
      return
    en = self.enabled()
    if not en:
      left = [(t.name, t.where) for t in self.threads if not t.done and not (t.daemon and t.where == 'idle')]
      if left:
        self.deadlock = left
      return self.end()
    if cur in en:
      en.remove(cur)
      en.insert(0, cur)
    i = len(self.choices)
    c = self.prefix[i] if i < len(self.prefix) else 0
    assert c < len(en), 'the program is not deterministic'
    self.choices.append(len(en))
    self.taken.append(c)
    nxt = en[c]
    nxt.wait = None
    if nxt is not cur:
      nxt.wake.release()
      if not cur.done:
        self.park(cur)

  def park(self, t):
    t.wake.acquire()
    if self.over:
      raise Abort()

  def end(self):
    self.over = True
    for t in self.threads:
      t.wake.release()
    self.finished.set()

  def point(self, where='', wait=None):
    t = current()
    if t is None or self.over:
      return
    self.points += 1
    t.wait, t.where = wait, where or t.where
    if wait is None and len(self.threads) == 1:
      return
    self.switch(t)
    if self.over:
      raise Abort()

  def run(self, *bodies):
    for i, b in enumerate(bodies):
      self.spawn(b, 'main' if i == 0 else 'user%d' % i)
    first = self.threads[0]
    first.wake.release()
    if not self.finished.wait(HANG):
      self.over = True
      raise RuntimeError('the execution left the control of the scheduler: %s' % [
          (t.name, t.where) for t in self.threads if not t.done])
    for t in self.threads:
      t.thread.join(10)
    return self


def point(where='', wait=None):
  s = getattr(_local, 'sched', None)
  if s is not None and current() is not None:
    s.point(where, wait)


class Lock:
  reentrant = False

  def __init__(self):
    self.owner, self.depth = None, 0

  def acquire(self, blocking=True, timeout=-1):
    me = current()
    if me is None or _local.sched.over:
      self.depth += 1
      return True
    if self.reentrant and self.owner is me:
      self.depth += 1
      return True
    if not blocking and self.owner is not None:
      return False
    point('acquire', lambda: self.owner is None)
    self.owner, self.depth = me, 1
    return True

  def release(self):
    if current() is None or _local.sched.over:
      self.depth = max(0, self.depth - 1)
      return
    if self.owner is None or (self.reentrant and self.owner is not current()):
      raise RuntimeError('release unlocked lock')
    self.depth -= 1
    if not self.depth:
      self.owner = None
      point('released')

  def locked(self):
    return self.owner is not None

  def __enter__(self):
    self.acquire()
    return self

  def __exit__(self, *a):
    self.release()


class RLock(Lock):
  reentrant = True


class Future(concurrent.futures.Future):
  """The state machine of the standard future; only waiting is controlled."""

  def __init__(self):
    super().__init__()

  def result(self, timeout=None):
    point('result', self.done if timeout is None else None)
    return super().result(timeout=0 if current() is not None else timeout)

  def exception(self, timeout=None):
    point('exception', self.done if timeout is None else None)
    return super().exception(timeout=0 if current() is not None else timeout)


class Executor(concurrent.futures.Executor):
  """ThreadPoolExecutor with controlled workers."""

  def __init__(self, max_workers=None, thread_name_prefix='', initializer=None, initargs=()):
    self.max, self.name = max_workers or 4, thread_name_prefix or 'pool'
    self.q, self.closed, self.workers = collections.deque(), False, []
    self._max_workers = self.max
    self.home = getattr(_local, 'sched', None) if current() else None

  def _here(self):
    return current() is not None and getattr(_local, 'sched', None) is self.home and not self.home.over

  def submit(self, fn, /, *a, **k):
    if self.closed:
      raise RuntimeError('cannot schedule new futures after shutdown')
    f = Future()
    self.q.append((f, fn, a, k))
    if self.home is None and current() is not None and not self.workers:
      self.home = _local.sched
    if not self._here():
      self._one()
      return f
    s = self.home
    if len(self.workers) < self.max and not any(w.where == 'idle' and w.wait is not None for w in self.workers):
      self.workers.append(s.spawn(self._loop, '%s-%d' % (self.name, len(self.workers)), daemon=True))
    point('submitted')
    return f

  def _one(self):
    f, fn, a, k = self.q.popleft()
    if not f.set_running_or_notify_cancel():
      return
    try:
      r = fn(*a, **k)
    except Abort:
      raise
    except BaseException as e:  # pylint: disable=broad-except
      f.set_exception(e)
    else:
      f.set_result(r)

  def _loop(self):
    me = current()
    while True:
      if not self.q:
        if self.closed:
          return
        point('idle', lambda: bool(self.q) or self.closed)
        continue
      me.where = 'task'
      self._one()
      point('task done')

  def shutdown(self, wait=True, *, cancel_futures=False):
    self.closed = True
    if cancel_futures:
      while self.q:
        self.q.popleft()[0].cancel()
    if wait and self._here():
      point('shutdown', lambda: all(w.done for w in self.workers) and not self.q)


@contextlib.contextmanager
def controlled(*modules):
  """Makes executors and the locks created through `modules` controlled."""
  ns = types.SimpleNamespace(**{k: getattr(threading, k) for k in dir(threading) if not k.startswith('__')})
  ns.Lock, ns.RLock = Lock, RLock
  with contextlib.ExitStack() as st:
    st.enter_context(mock.patch.object(concurrent.futures, 'ThreadPoolExecutor', Executor))
    for m in modules:
      if getattr(m, 'threading', None) is not None:
        st.enter_context(mock.patch.object(m, 'threading', ns))
    yield


def line_tracer(files):
  """Hands over before every line of the given source files."""
  def local(frame, event, arg):
    if event == 'line':
      point('%s:%d' % (frame.f_code.co_name, frame.f_lineno))
    return local

  def tracer(frame, event, arg):
    if event == 'call' and frame.f_code.co_filename in files:
      return local
  return tracer


def explore(program, bound, budget=None):
  """Runs `program(Sched)` under every schedule with at most `bound` deviations; yields (sched, result)."""
  stack = [((), 0)]
  n = 0
  while stack:
    prefix, cost = stack.pop()
    s = Sched(prefix)
    r = program(s)
    n += 1
    yield s, r
    for i in range(len(prefix), len(s.choices)):
      if cost < bound:
        for c in range(1, s.choices[i]):
          stack.append((tuple(s.taken[:i]) + (c,), cost + 1))
