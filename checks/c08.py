"""C08: bounded-memory I/O admits every request and respects its budget."""
import asyncio
import itertools
import os

import jax
import jax.numpy as jnp
import numpy as np

import lib_ckpt as lc
from mc import aio, crashfs

TECHNIQUE = 'sched'
LEVEL = 'exploration'
RULE = ('every completion order of the array writes of a real Checkpointer.save, for every '
        'assignment of sizes to up to four (five) arrays, every budget around those sizes, host '
        'and device arrays, eager and lazy, and every single failing write; distinct = '
        '(sizes, budget, schedule)')
ASSUMPTIONS = ['the storage back end is replaced by operations that complete in an order the '
               'explorer chooses', 'one event loop per save, as in the code']


def state(sizes, kind):
  from t5x import train_state as ts, checkpoint_importer as ci
  from flax.core import freeze
  from flax.linen import partitioning as fp
  lib = jnp if kind == 'device' else np
  params, axes = {}, {}
  for i, n in enumerate(sizes):
    params[f'w{i}'] = lib.zeros((n // 4,), lib.float32)
    axes[f'w{i}_axes'] = fp.AxisMetadata(names=('a',))
  st = ts.InferenceState.create(freeze({'params': params, 'params_axes': axes}))
  if kind == 'lazy':
    def lazy(x):
      async def get():
        return np.asarray(x)
      return ci.LazyAwaitableArray(x.shape, x.dtype, get) if np.ndim(x) else x
    st = st.restore_state(jax.tree_util.tree_map(lazy, st.state_dict()))
  return st


class Store:
  """Stands for tensorstore: records who is writing."""

  def __init__(self):
    self.world = None
    self.reset(None)

  def reset(self, world):
    self.world, self.now, self.peak, self.done, self.started = world, {}, 0, [], []
    self.together = 0
    self.max = []

  async def write(self, name, nbytes):
    if not nbytes:
      return
    self.now[name] = nbytes
    self.started.append(name)
    self.max.append(tuple(sorted(self.now.items())))
    try:
      await self.world.op(name)
      self.done.append(name)
    finally:
      del self.now[name]


def name_of(spec):
  s = spec if isinstance(spec, dict) else spec.to_json()
  while 'base' in s:
    s = s['base']
  p = s['kvstore']['path'] if isinstance(s['kvstore'], dict) else s['kvstore']
  return p.rstrip('/').rsplit('/', 1)[-1]


def check(ck):
  from t5x import checkpoints
  from jax.experimental.array_serialization import serialization as ser
  import tensorstore as ts
  store = Store()

  class Opened:
    def __init__(self, spec):
      self.spec = spec

    def write(self, arr):
      return store.write(name_of(self.spec), arr.nbytes if arr.ndim else 0)

  async def ts_open(spec, *a, **k):
    return Opened(spec)

  async def serialize(arr, spec, *a, **k):
    await store.write(name_of(spec), arr.nbytes if arr.ndim else 0)

  real = ts.open, ser.async_serialize
  ts.open, ser.async_serialize = ts_open, serialize
  try:
    with crashfs.Scratch() as scratch:
      for kind in ('host', 'device', 'lazy'):
        run_kind(ck, kind, checkpoints, store, scratch)
  finally:
    ts.open, ser.async_serialize = real


def run_kind(ck, kind, checkpoints, store, scratch):
  part = lc.partitioner() if kind == 'device' else lc.partitioner(params_on_devices=False)
  menu = (40, 60, 100) if kind != 'host' else (40, 60, 100, 120)
  longest = ck.pick({'host': 4, 'device': 3, 'lazy': 3}[kind], 5 if kind == 'host' else 4)
  for n in range(1, longest + 1):
    ck.part(f'{kind}: {n} arrays')
    for sizes in itertools.product(menu, repeat=n):
      # arrays start in name order, so order matters; the last arrays commute less
      if not ck.thorough and n == 4 and sizes[0] > sizes[1]:
        continue
      if n == 5 and (sizes[0] > sizes[1] or sizes[2] > sizes[3]):
        continue
      budgets = (99, 100, 160) if n > 1 else (30, 39, 40, 41, 100)
      if n >= 4:
        budgets = (100,) if not ck.thorough else (99, 100, 160)
      for budget in budgets:
        for fail in ((None,) if n > 3 else (None,) + tuple(range(n))):
          st = state(sizes, kind)
          d = scratch.new()
          c = checkpoints.Checkpointer(st, part, d)
          case0 = dict(kind=kind, sizes=sizes, budget=budget, failing=fail)

          def run(w):
            store.reset(w)
            for f in os.listdir(d):
              scratch.clear(os.path.join(d, f))
            c.save(st, concurrent_gb=budget / 1e9)
            return sorted(os.listdir(d))

          failname = None if fail is None else f'target.w{fail}'
          for w, out in aio.explore(run, failname):
            case = dict(case0, schedule=[x for x, _ in w.choices], started=list(store.started))
            ck.case(str((sizes, budget, fail, case['schedule'])), sample=case)
            if isinstance(out, aio.Deadlock):
              ck.violation('the save never finishes: requests wait for bytes nobody will return',
                           case, 'completion', sorted(store.now))
              break
            over = [m for m in store.max if len(m) > 1 and sum(b for _, b in m) > budget]
            ck.expect(not over, 'requests in flight exceed the budget', case, budget, over[:2])
            if fail is None:
              if isinstance(out, Exception):
                ck.violation(f'the save failed: {out!r}', case)
                break
              ck.expect(sorted(store.done) == [f'target.w{i}' for i in range(n)],
                        'not every array was written exactly once', case, n, store.done)
            else:
              ck.expect(isinstance(out, OSError), 'a failed write was not reported', case,
                        'OSError', repr(out))
              ck.expect(not any(f == 'checkpoint_0' for f in os.listdir(d)),
                        'a checkpoint with a failed write was committed', case)
          # every request that fits beside the others is admitted at once
          if fail is None and sum(sizes) <= budget:
            ck.expect(max(len(m) for m in store.max) == n,
                      'requests within the budget were delayed', case0, n,
                      max(len(m) for m in store.max))
          scratch.clear(d)
