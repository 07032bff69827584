"""A controlled asyncio loop: explores every completion order of pending operations.

Operations awaited through `World.op` stay pending until the loop has nothing else
to do; then the explorer chooses which one completes (or fails). All choice
sequences are enumerated depth first by replaying the program.
"""
import asyncio
import concurrent.futures


class Deadlock(Exception):
  """Nothing can run and nothing is pending."""


class World:
  """One execution under a prefix of choices."""

  def __init__(self, prefix, fail=None):
    self.prefix, self.choices = prefix, []
    self.pending = []
    self.done = 0
    self.fail = fail
    self.on_step = None

  async def op(self, name, result=None):
    loop = asyncio.get_running_loop()
    fut = loop.create_future()
    self.pending.append((name, fut, result))
    try:
      return await fut
    finally:
      self.pending = [p for p in self.pending if p[1] is not fut]

  def idle(self):
    live = [p for p in self.pending if not p[1].done()]
    if not live:
      raise Deadlock()
    n = len(live)
    i = len(self.choices)
    c = self.prefix[i] if i < len(self.prefix) else 0
    assert c < n, 'the program is not deterministic'
    self.choices.append((c, n))
    name, fut, result = live[c]
    if self.fail is not None and name == self.fail:
      fut.set_exception(OSError(f'injected failure of {name}'))
    else:
      fut.set_result(result)
    self.done += 1


class Loop(asyncio.SelectorEventLoop):
  world = None

  def _run_once(self):
    if self.world is not None and not self._ready and not self._scheduled and not self._stopping:
      if any(not p[1].done() for p in self.world.pending):
        self.world.idle()
      else:
        # Something outside the explorer (a thread) may still wake the loop.
        events = self._selector.select(2.0)
        if not events:
          raise Deadlock()
        self._process_events(events)
    super()._run_once()


class Policy(asyncio.DefaultEventLoopPolicy):
  def __init__(self, world):
    super().__init__()
    self.world = world

  def new_event_loop(self):
    loop = Loop()
    loop.world = self.world
    return loop


class Inline:
  """While active, thread pools run their work at submission."""

  def __enter__(self):
    cls = concurrent.futures.ThreadPoolExecutor
    self.real = cls.submit

    def submit(_, fn, /, *a, **k):
      f = concurrent.futures.Future()
      f.set_running_or_notify_cancel()
      try:
        f.set_result(fn(*a, **k))
      except BaseException as e:  # pylint: disable=broad-except
        f.set_exception(e)
      return f
    cls.submit = submit

  def __exit__(self, *_):
    concurrent.futures.ThreadPoolExecutor.submit = self.real


def explore(run, fail=None, limit=None):
  """Yields (world, result or exception) for every schedule of run(world)."""
  prefix, n = [], 0
  while True:
    w = World(prefix, fail)
    old = asyncio.get_event_loop_policy()
    asyncio.set_event_loop_policy(Policy(w))
    try:
      try:
        with Inline():
          out = run(w)
      except Exception as e:  # pylint: disable=broad-except
        out = e
    finally:
      asyncio.set_event_loop_policy(old)
    yield w, out
    n += 1
    ch = w.choices
    while ch and ch[-1][0] + 1 >= ch[-1][1]:
      ch = ch[:-1]
    if not ch or (limit and n >= limit):
      return
    prefix = [c for c, _ in ch[:-1]] + [ch[-1][0] + 1]
