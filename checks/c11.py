"""C11: lazily loaded arrays."""
import asyncio
import itertools
import os

import numpy as np

import lib_ckpt as lc
from mc import crashfs

TECHNIQUE = 'hist'
LEVEL = 'model_checking'
RULE = ('every sequence of up to three (four) operations {inspect, astype to each type, get, '
        'asynchronous get} on every handle made so far, for every kind of lazy array and source '
        'type; every leaf of saved and of TensorFlow checkpoints; a state is the tuple of handle '
        'types, replayed against the implementation')
ASSUMPTIONS = ['a cast goes from the stored type to the last one asked for']

DTYPES = ('float32', 'bfloat16', 'int32', 'float16', 'uint16', 'uint8')


def check(ck):
  import jax
  import jax.numpy as jnp
  import tensorstore as ts
  from t5x import checkpoint_importer as ci
  from t5x import checkpoints

  def src(dtype, shape):
    n = int(np.prod(shape)) if shape else 1
    return (np.arange(n) * 1.5 + 3).reshape(shape).astype(jnp.dtype(dtype))

  def eq(a, want):
    a = np.asarray(a)
    return a.shape == want.shape and a.dtype == want.dtype and np.array_equal(
        a.astype(np.float64), want.astype(np.float64))

  # kind -> (make(value, loads), stored dtype reported)
  def counted(value, loads):
    def get():
      loads.append(1)
      return value
    return get

  def acounted(value, loads):
    async def get():
      loads.append(1)
      await asyncio.sleep(0)
      return value
    return get

  def spec(value):
    d = value.dtype.name
    return ts.Spec(dict(driver='zarr', kvstore=dict(driver='memory'), dtype=d, metadata=dict(
        shape=list(value.shape), chunks=list(value.shape))))

  A, T = ci.LazyAwaitableArray, ci.LazyThreadPoolArray
  kinds = {
      'pool/numpy': lambda v, l: T(v.shape, v.dtype, counted(v, l)),
      'pool/list shape': lambda v, l: T(list(v.shape), v.dtype.name, counted(v, l)),
      'pool/jax': lambda v, l: T(v.shape, v.dtype, counted(jnp.asarray(v), l)),
      'await/direct': lambda v, l: A(v.shape, v.dtype, acounted(v, l)),
      'await/array': lambda v, l: A.from_array(v, acounted(v, l)),
      'await/array-or': lambda v, l: A.from_tensor_store_spec_or_array(v, acounted(v, l)),
      'await/spec': lambda v, l: A.from_tensor_store_spec(spec(v), acounted(v, l)),
      'await/spec-or': lambda v, l: A.from_tensor_store_spec_or_array(spec(v), acounted(v, l)),
  }

  # ---- histories
  ck.part('histories')
  depth = ck.pick(3, 4)
  casts = ('float32', 'bfloat16', 'int32')

  def inspect(h, want, case):
    ck.expect(tuple(h.shape) == want.shape and isinstance(h.shape, tuple), 'shape', case, want.shape, h.shape)
    ck.expect(h.dtype == want.dtype, 'dtype', case, str(want.dtype), str(h.dtype))
    ck.expect(h.nbytes == want.nbytes, 'nbytes', case, want.nbytes, h.nbytes)
    ck.expect(str(h.dtype) in repr(h) and str(h.shape) in repr(h), 'repr', case, None, repr(h))

  def cast(v, dt):
    return np.asarray(v).astype(dt)

  for kind, make in kinds.items():
    for dt, shape in ((d, s) for d in ('float32', 'bfloat16', 'int32') for s in ((2, 3), (), (0, 2))):
      if 'spec' in kind and 0 in shape:
        continue
      if shape != (2, 3) and not ck.thorough and dt != 'float32':
        continue
      v0 = src(dt, shape)
      # (op, handle): sequences over a growing set of handles
      def seqs(n, handles):
        if n == 0:
          yield ()
          return
        for h in range(handles):
          for op in ('inspect', 'get', 'aget') + casts:
            for rest in seqs(n - 1, handles + (op in casts)):
              yield ((op, h),) + rest
      d = depth if shape == (2, 3) else 2
      for seq in seqs(d, 1):
        loads, keep = [], v0.copy()
        hs = [(make(v0, loads), v0.dtype)]
        case = dict(kind=kind, dtype=dt, shape=shape, ops=seq)
        ck.case((kind, dt, shape, seq), sample=case if d == 3 and seq[0][0] == 'bfloat16' else None)
        ck.trace()
        expected_loads = 0
        for op, h in seq:
          arr, cur = hs[h]
          ck.transition()
          if op == 'inspect':
            inspect(arr, cast(v0, cur), case)
          elif op in casts:
            hs.append((arr.astype(jnp.dtype(op)), jnp.dtype(op)))
            ck.expect(type(hs[-1][0]) is type(arr) and hs[-1][0] is not arr, 'astype result', case)
          else:
            expected_loads += 1
            ok, got = ck.guarded('reading', (lambda: arr.get()) if op == 'get' else
                                 (lambda: asyncio.run(arr.get_async())), case)
            if ok:
              ck.expect(eq(got, cast(v0, cur)), f'{op} returns another value', case, cast(v0, cur), got)
          ck.expect(len(loads) == expected_loads, 'loaded without being asked, or not loaded', case,
                    expected_loads, len(loads))
          ck.state((kind, dt, shape, tuple(str(x[1]) for x in hs)))
        for arr, cur in hs:
          ck.expect(arr.dtype == cur and tuple(arr.shape) == shape, 'a handle changed its type', case)
        ck.expect(len(loads) == expected_loads, 'inspecting loads', case)
        ck.expect(v0.dtype == keep.dtype and np.array_equal(v0, keep), 'the source changed', case)

  # ---- several reads at once
  ck.part('concurrent reads')
  for kind, make in kinds.items():
    for chosen in itertools.product(casts + (None,), repeat=ck.pick(3, 4)):
      v0, loads = src('float32', (2, 3)), []
      base = make(v0, loads)
      hs = [base if c is None else base.astype(jnp.dtype(c)) for c in chosen]

      async def together():
        return await asyncio.gather(*(h.get_async() for h in hs))
      ck.case((kind, chosen))
      ok, got = ck.guarded('reading together', lambda: asyncio.run(together()), (kind, chosen))
      if ok:
        ck.expect(all(eq(g, cast(v0, c or 'float32')) for g, c in zip(got, chosen)),
                  'reads mixed up', (kind, chosen), None, [str(np.asarray(g).dtype) for g in got])
        ck.expect(len(loads) == len(chosen), 'number of loads', (kind, chosen), len(chosen), len(loads))

  # ---- requested types
  ck.part('requested types')
  for stored, asked in itertools.product(DTYPES, (None,) + DTYPES):
    v = src(stored, (2, 3))
    for how in ('from_array', 'from_tensor_store_spec', 'from_tensor_store_spec_or_array'):
      loads = []
      is_spec = how == 'from_tensor_store_spec'
      get = acounted(v.view(jnp.bfloat16) if is_spec and stored == 'uint16' else v, loads)
      h = getattr(A, how)(spec(v) if is_spec else v, get, dtype=asked and jnp.dtype(asked))
      case = dict(how=how, stored=stored, asked=asked)
      ck.case(str(case))
      want = v.view(jnp.bfloat16) if is_spec and stored == 'uint16' else v
      # uint16 in a store stands for bfloat16, whatever the wrapper
      dt = asked or ('bfloat16' if is_spec and stored == 'uint16' else stored)
      if is_spec and dt == 'uint16':
        dt = 'bfloat16'
      want = want.astype(jnp.dtype(dt))
      inspect(h, want, case)
      ck.expect(not loads, 'loaded while being made', case)
      ok, got = ck.guarded('reading', h.get, case)
      ck.expect(not ok or eq(got, want), 'another value', case, want, got)

  # ---- checkpoints
  ck.part('checkpoints')
  flat = lc.flat_raw
  for opt, dtype, muts in itertools.product(('sgd', 'adam', 'adafactor'), (np.float32, jnp.bfloat16),
                                            (False, True)):
    with crashfs.Scratch() as s:
      d = s.new()
      st = lc.train_state(3, opt, dtype=dtype, mutables=muts, shapes=((4, 2), (8,), (2, 2)))
      p = lc.mesh_partitioner((1, 1))
      for save_dtype in (None, jnp.bfloat16, jnp.float32):
        sub = os.path.join(d, f's{save_dtype and jnp.dtype(save_dtype).name}')
        kw = {} if save_dtype is None else dict(save_dtype=save_dtype)
        ckpt = checkpoints.Checkpointer(st, p, sub, **kw)
        ckpt.save(st)
        for restore_dtype in (None, jnp.float32, jnp.bfloat16):
          case = dict(optimizer=opt, dtype=str(jnp.dtype(dtype)), mutables=muts,
                      save_dtype=str(save_dtype), restore_dtype=str(restore_dtype))
          ck.case(str(case), sample=case)
          load = lambda lazy: checkpoints.load_t5x_checkpoint(
              sub, 3, lazy_parameters=lazy, restore_dtype=restore_dtype)
          ok, lazy = ck.guarded('lazy load', lambda: flat(load(True)), case)
          ok2, eager = ck.guarded('load', lambda: flat(load(False)), case)
          if not (ok and ok2):
            continue
          ck.expect(set(lazy) == set(eager), 'lazy and eager loads differ in structure', case)
          want = lc.flat(st.state_dict())
          for k, x in lazy.items():
            if not isinstance(x, ci.LazyArray):
              ck.expect(np.array_equal(np.asarray(x), np.asarray(eager[k])), f'{k}: value', case)
              continue
            ok, v = ck.guarded('reading', x.get, dict(case, leaf=k))
            if not ok:
              continue
            v = np.asarray(v)
            inspect(x, v, dict(case, leaf=k))
            ck.expect(eq(v, np.asarray(eager[k])), f'{k}: lazy and eager values differ', case)
            w = want.get(k)
            if w is not None:
              if k.startswith('target/'):
                w = w.astype(save_dtype or np.float32)  # the default of Checkpointer
                w = w.astype(restore_dtype or w.dtype)
              ck.expect(eq(v, w), f'{k}: not the saved value', case, w, v)
            v2 = np.asarray(asyncio.run(x.get_async()))
            ck.expect(eq(v2, v), f'{k}: a second, asynchronous read differs', case)
            for c in casts:
              y = x.astype(jnp.dtype(c))
              ck.expect(y.dtype == c and eq(y.get(), v.astype(jnp.dtype(c))), f'{k}: after astype', dict(case, to=c))
            ck.expect(x.dtype == v.dtype, f'{k}: astype changed the handle', case)

  # ---- TensorFlow checkpoints
  ck.part('TensorFlow checkpoints')
  import tensorflow as tf
  with crashfs.Scratch() as s:
    d = s.new()
    vals = {f'v{i}/{dt}': src(dt, sh) for i, sh in enumerate(((2, 3), (), (4,)))
            for dt in ('float32', 'bfloat16', 'int32', 'int64', 'float16')}
    names = sorted(vals)
    tf.raw_ops.SaveV2(prefix=d + '/m', tensor_names=names, shape_and_slices=[''] * len(names),
                      tensors=[tf.constant(vals[n]) for n in names])
    ok, got = ck.guarded('loading', lambda: ci.load_tf_ckpt(d + '/m'))
    if ok:
      ck.expect(set(got) == set(vals), 'variables', None, sorted(vals), sorted(got))
      for order in (names, names[::-1]):
        for n in order:
          ck.case((n, order is names))
          if n not in got:
            continue
          inspect(got[n], vals[n], n)
          ck.expect(eq(got[n].get(), vals[n]), f'{n}: value', None, vals[n], got[n].get())
          ck.expect(eq(got[n].astype(np.float32).get(), vals[n].astype(np.float32)), f'{n}: cast')
