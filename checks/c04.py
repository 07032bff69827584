"""C04: a checkpoint restores exactly what was saved."""
import asyncio
import itertools
import os
import shutil

import jax
import jax.numpy as jnp
import numpy as np
from flax.core import freeze

import lib_ckpt as lc
from mc import crashfs

N_DEVICES = 4
TECHNIQUE = 'hist'
LEVEL = 'exploration'
RULE = ('every combination of parameter tree (ranks 0-3, nesting, dotted/slashed names), '
        'optimizer family, parameter dtype, save/restore dtype, leaf container (numpy, '
        'device, lazy), mesh and partitioning at save and at restore, mutable '
        'collections; all save/restore histories of length two on one checkpointer; all '
        'single-leaf structure and shape faults; distinct = configuration')
ASSUMPTIONS = ['one process; device meshes are simulated CPU devices',
               'values are exactly representable unless a narrowing cast is requested']

SHAPES = {
    'r1': {'a': (4,)},
    'r0-3': {'s': (), 'v': (3,), 'm': (4, 2), 't': (2, 4, 3)},
    'nest': {'x': {'target': {'z': (4, 4), 'w': (1,)}, 'y.q': (2,)}, 'k_1': {'0': (2, 2)}},
    'one': {'a': {'b': {'c': {'d': (1, 1)}}}},
}


def build(kind, tree, dtype, step, mutables, lib=jnp, salt=0):
  from t5x import train_state as ts, optimizers, adafactor
  from flax.linen import partitioning as fp
  import optax
  n = [0]

  def mk(sh):
    n[0] += 1
    v = lc.value(step, n[0] + salt, sh, np.float32)
    if dtype == 'mixed':
      d = (jnp.float32, jnp.bfloat16)[n[0] % 2]
    else:
      d = dtype
    return lib.asarray(v).astype(d)

  names = ('p', 'q', 'r')

  def walk(t):
    ps, ax = {}, {}
    for k, v in t.items():
      if isinstance(v, dict):
        ps[k], ax[k] = walk(v)
      else:
        ps[k] = mk(v)
        ax[k + '_axes'] = fp.AxisMetadata(names=names[:len(v)])
    return ps, ax

  params, axes = walk(tree)
  variables = {'params': params, 'params_axes': axes}
  if mutables:
    variables['stats'] = {'mean': mk((4, 4)).astype(jnp.float32),
                          'deep': {'n': lib.asarray(np.int32(step + 3)),
                                   'h': lib.asarray(lc.value(step, 7, (4,))).astype(jnp.bfloat16)}}
    variables['stats_axes'] = {'mean_axes': fp.AxisMetadata(names=('p', 'q')),
                               'deep': {'n_axes': fp.AxisMetadata(names=()),
                                        'h_axes': fp.AxisMetadata(names=('p',))}}
  if mutables == 2:
    variables['cache'] = {'c': lib.asarray(np.arange(4, dtype=np.int32) + step)}
    variables['cache_axes'] = {'c_axes': fp.AxisMetadata(names=('q',))}
  if kind == 'multi':
    from flax import traverse_util
    first = []

    def sel(path, _):
      if not first:
        first.append(path)
      return path == first[0]

    od = optimizers.MultiOptimizer((
        (traverse_util.ModelParamTraversal(sel), adafactor.Adafactor(
            0.1, min_dim_size_to_factor=2, beta1=0.9, logical_factor_rules={
                n_: adafactor.FactorDim.NONE for n_ in names})),))
  elif kind == 'adafactor':
    od = adafactor.Adafactor(0.1, min_dim_size_to_factor=2, beta1=0.9,
                             logical_factor_rules={
                                 n: adafactor.FactorDim.ROW if n == 'p' else
                                 adafactor.FactorDim.COLUMN for n in names})
  elif kind == 'chain':
    od = optimizers.wrap_optax_optimizer(
        lambda **k: optax.chain(optax.clip(1.0), optax.scale_by_adam(),
                                optax.trace(0.9), optax.scale(-0.1)))()
  else:
    od = lc.optimizer_def(kind)
  st = ts.FlaxOptimTrainState.create(od, freeze(variables))
  st = st.replace_step(jnp.asarray(step, jnp.int32))
  opt = st._optimizer  # pylint: disable=protected-access
  leaves, td = jax.tree_util.tree_flatten(opt.state.param_states)
  leaves = [(x if not jnp.issubdtype(jnp.asarray(x).dtype, jnp.floating) else
             lib.asarray(lc.value(step, 30 + i + salt, np.shape(x))).astype(x.dtype))
            for i, x in enumerate(leaves)]
  opt = opt.replace(state=opt.state.replace(
      param_states=jax.tree_util.tree_unflatten(td, leaves)))
  return st.replace(_optimizer=opt)


def expect_diff(saved, got, save_dtype, restore_dtype):
  """None if `got` is what `saved` must restore to."""
  fa, fb = lc.flat(saved.state_dict()), lc.flat(got.state_dict())
  if set(fa) != set(fb):
    return f'different entries {sorted(set(fa) ^ set(fb))[:4]}'
  for k, x in fa.items():
    y = fb[k]
    if x is None or y is None:
      if x is not y:
        return f'{k}: None became a value'
      continue
    if x.shape == () and x.dtype == object:
      continue
    want = x
    if k.startswith('target/'):
      if save_dtype is not None:
        want = np.asarray(jnp.asarray(want).astype(save_dtype))
      if restore_dtype is not None:
        want = np.asarray(jnp.asarray(want).astype(restore_dtype))
    if want.shape != y.shape:
      return f'{k}: shape {want.shape} became {y.shape}'
    if want.dtype != y.dtype:
      return f'{k}: dtype {want.dtype} became {y.dtype}'
    if want.tobytes() != y.tobytes():
      return f'{k}: {want.ravel()[:4]} became {y.ravel()[:4]}'
  return None


RULES = (('batch', 'data'), ('p', 'model'), ('q', 'data'), ('r', None))
RULES2 = (('batch', 'data'), ('p', None), ('q', 'model'), ('r', None))


def mesh(shape, rules=RULES, **kw):
  return lc.mesh_partitioner(shape, rules, **kw)


def place(part, st):
  """The state laid out on the mesh as training would have it."""
  axes = part.get_mesh_axes(st)
  fn = part.partition(lambda s: s, in_axis_resources=(axes,), out_axis_resources=axes)
  return fn(st)


def check(ck):
  from t5x import checkpoints, checkpoint_importer as ci
  bf, f32 = jnp.bfloat16, jnp.float32

  with crashfs.Scratch() as scratch:
    def roundtrip(st, abstract, part_s, part_r, sd, rd, case, it=None, **rkw):
      d = scratch.new()
      def go():
        c = checkpoints.Checkpointer(st, part_s, d, save_dtype=sd)
        c.save(st)
        del c
        r = checkpoints.Checkpointer(abstract, part_r, d, restore_dtype=rd)
        return r.restore(step=int(np.asarray(st.step)), **rkw)
      ok, got = ck.guarded('save and restore', go, case)
      scratch.clear(d)
      return got if ok else None

    ck.part('trees x optimizers x dtypes')
    kinds = ('sgd', 'adam', 'adafactor', 'multi', 'chain')
    p1 = mesh((1, 1))
    i = 0
    for tname, kind, dt, sd, rd, mut in itertools.product(
        SHAPES, kinds, (f32, bf, 'mixed'), (f32, bf, None), (None, f32, bf), (0, 1, 2)):
      i += 1
      if kind == 'multi' and dt == 'mixed':
        continue
      # quick: a Latin-square like cover; thorough: the full product
      key = (list(SHAPES).index(tname) + 2 * kinds.index(kind) +
             3 * (f32, bf, 'mixed').index(dt) + 4 * (f32, bf, None).index(sd) +
             5 * (None, f32, bf).index(rd) + 6 * mut)
      if not ck.thorough and key % 7:
        continue
      case = dict(tree=tname, optimizer=kind, dtype=str(dt), save_dtype=str(sd),
                  restore_dtype=str(rd), mutables=mut)
      st = build(kind, SHAPES[tname], dt, 3, mut, jnp if i % 2 else np)
      ab = build(kind, SHAPES[tname], dt, 0, mut, salt=5)
      ck.case(str(case), sample=case)
      if dt == 'mixed' and sd is None:
        continue
      got = roundtrip(st, ab, p1, p1, sd, rd, case)
      if got is not None:
        bad = expect_diff(st, got, sd, rd)
        ck.expect(bad is None, f'restored state differs: {bad}', case)

    ck.part('similar names')
    for tree in ({'y': {'z': (2, 2)}, 'y.z': (2, 2)}, {'y': {'z': (2,)}, 'y_z': (2,)},
                 {'a': {'b.c': (2,)}, 'b': {'c': (2,)}}, {'A': (2,), 'a': (2,)}):
      case = dict(tree=tree)
      ck.case(str(case), sample=case)
      st = build('sgd', tree, f32, 3, 0)
      got = roundtrip(st, build('sgd', tree, f32, 0, 0), p1, p1, f32, None, case)
      if got is not None:
        bad = expect_diff(st, got, f32, None)
        ck.expect(bad is None, f'restored state differs: {bad}', case,
                  sig='dotted-name-collision' if 'y.z' in tree else None)

    ck.part('meshes')
    meshes = [((1, 1), RULES), ((4, 1), RULES), ((1, 4), RULES), ((2, 2), RULES), ((2, 2), RULES2)]
    for (ns, rs), (nr, rr), kind, mut in itertools.product(
        meshes, meshes, ('adam', 'adafactor'), (0, 1)):
      if not ck.thorough and (meshes.index((ns, rs)) + meshes.index((nr, rr)) + mut + (kind == 'adam')) % 2:
        continue
      case = dict(save_mesh=(ns, rs), restore_mesh=(nr, rr), optimizer=kind, mutables=mut)
      tree = {'m': (4, 4), 't': (4, 8, 3), 'v': (8,), 'd': {'e': (12, 4)}}
      st = build(kind, tree, f32, 7, mut)
      ab = build(kind, tree, f32, 0, mut, salt=3)
      ps, pr = mesh(ns, rs), mesh(nr, rr)
      ok, placed = ck.guarded('place', lambda: place(ps, st), case)
      ck.case(str(case), sample=case)
      if not ok:
        continue
      got = roundtrip(placed, ab, ps, pr, f32, None, case)
      if got is None:
        continue
      bad = expect_diff(st, got, f32, None)
      ck.expect(bad is None, f'restored state differs: {bad}', case)
      axes = lc.flat_axes(pr.get_mesh_axes(ab).state_dict())
      for k, x in lc.flat_raw(got.state_dict()).items():
        ax = axes.get(k)
        if ax is None or not isinstance(x, jax.Array):
          continue
        want = jax.sharding.NamedSharding(pr.mesh, ax)
        ck.expect(x.sharding.is_equivalent_to(want, x.ndim),
                  f'{k} restored with the wrong layout', case, str(want), str(x.sharding))

    ck.part('lazy leaves and lazy restore')
    host = mesh((1, 1), params_on_devices=False)
    for tname, kind, lazy_in, sd, rd in itertools.product(
        ('r0-3', 'nest'), ('adam', 'adafactor'), (False, True), (f32, bf), (None, bf)):
      case = dict(tree=tname, optimizer=kind, lazy_leaves=lazy_in, save_dtype=str(sd),
                  restore_dtype=str(rd))
      st = build(kind, SHAPES[tname], f32, 5, 1, np)
      src = st
      if lazy_in:
        def lazy(x):
          x = np.asarray(x)
          return ci.LazyThreadPoolArray(x.shape, x.dtype, lambda: x)
        src = st.restore_state(jax.tree_util.tree_map(lazy, st.state_dict()))
      ab = build(kind, SHAPES[tname], f32, 0, 1, np, salt=3)
      d = scratch.new()
      def go():
        checkpoints.Checkpointer(st, p1, d, save_dtype=sd).save(src)
        r = checkpoints.Checkpointer(ab, host, d, restore_dtype=rd)
        return r.restore(step=5, lazy_parameters=True), r.restore(step=5)
      ok, got = ck.guarded('save and lazy restore', go, case)
      ck.case(str(case), sample=case)
      if ok:
        lz, eager = got
        leaves = jax.tree_util.tree_leaves(lz.state_dict())
        ck.expect(any(isinstance(x, ci.LazyArray) for x in leaves),
                  'lazy restore returned loaded arrays', case)
        meta = {k: (tuple(x.shape), str(x.dtype)) for k, x in lc.flat_raw(lz.state_dict()).items()
                if isinstance(x, ci.LazyArray)}
        loaded = lz.restore_state(jax.tree_util.tree_map(
            lambda x: x.get() if isinstance(x, ci.LazyArray) else x, lz.state_dict()))
        for what, g in (('lazy', loaded), ('eager', eager)):
          bad = expect_diff(st, g, sd, rd)
          ck.expect(bad is None, f'{what} restore differs: {bad}', case)
        for k, x in lc.flat(loaded.state_dict()).items():
          if k in meta:
            ck.expect(meta[k] == (x.shape, str(x.dtype)),
                      f'{k}: announced {meta[k]}, loaded {x.shape} {x.dtype}', case)
        # Without an optimizer: everything, and only parameters cast.
        okk, raw = ck.guarded('load_t5x_checkpoint', lambda: checkpoints.load_t5x_checkpoint(
            d, 5, restore_dtype=rd), case)
        if okk:
          bad = expect_diff(st, Bare(raw), sd, rd)
          ck.expect(bad is None, f'load_t5x_checkpoint differs: {bad}', case)
        okk, raw = ck.guarded('lazy load_t5x_checkpoint', lambda: jax.tree_util.tree_map(
            lambda x: x.get(), checkpoints.load_t5x_checkpoint(
                d, 5, restore_dtype=rd, lazy_parameters=True)), case)
        if okk:
          bad = expect_diff(st, Bare(raw), sd, rd)
          ck.expect(bad is None, f'lazy load_t5x_checkpoint differs: {bad}', case)
        # A moved checkpoint stays readable.
        d2 = os.path.join(scratch.new(), 'moved', 'deep')
        shutil.copytree(d, d2)
        scratch.clear(d)
        okk, g = ck.guarded('restore after moving', lambda: checkpoints.Checkpointer(
            ab, p1, scratch.new()).restore(path=os.path.join(d2, 'checkpoint_5')), case)
        if okk:
          bad = expect_diff(st, g, sd, None)
          ck.expect(bad is None, f'moved checkpoint differs: {bad}', case)

    ck.part('unpartitioned leaves')
    for rd, sd in itertools.product((None, bf), (f32, bf)):
      st = build('adam', SHAPES['nest'], f32, 5, 1, np)
      case = dict(axes='none for some parameters', save_dtype=str(sd), restore_dtype=str(rd))

      class NoAxes:
        """Some leaves are not partitionable and live in the msgpack file."""

        def __init__(self, part):
          self._p = part

        def __getattr__(self, n):
          return getattr(self._p, n)

        def get_mesh_axes(self, s):
          ax = self._p.get_mesh_axes(s)
          sd_ = ax.state_dict()
          sd_['target']['x']['target']['w'] = None
          sd_['target']['k_1']['0'] = None
          class S:
            def state_dict(self):
              return sd_
          return S()

      d = scratch.new()
      def go():
        checkpoints.Checkpointer(st, NoAxes(p1), d, save_dtype=sd).save(st)
        return (checkpoints.Checkpointer(st, NoAxes(p1), d, restore_dtype=rd).restore(step=5),
                checkpoints.Checkpointer(st, p1, d, restore_dtype=rd).restore(step=5))
      ok, got = ck.guarded('save and restore', go, case)
      ck.case(str(case), sample=case)
      if ok:
        for g in got:
          bad = expect_diff(st, g, sd, rd)
          ck.expect(bad is None, f'restored state differs: {bad}', case)
      scratch.clear(d)

    ck.part('histories on one checkpointer')
    states = {s: build('adam', SHAPES['r0-3'], f32, s, 1, salt=s) for s in (0, 1, 10)}
    its = {s: lc.Iterator(100 + s) for s in states}
    ops = [('s', s) for s in states] + [('r', s) for s in states]
    for hist in itertools.product(ops, repeat=ck.pick(3, 4)):
      if hist[0][0] == 'r' or not any(o == 'r' for o, _ in hist):
        continue
      seen = set()
      if any(o == 'r' and not (seen.add(0) or ('s', s) in hist) for o, s in hist):
        continue
      # only histories whose restores follow the save
      ok_order = all(('s', s) in hist[:i] for i, (o, s) in enumerate(hist) if o == 'r')
      if not ok_order:
        continue
      d = scratch.new()
      it = lc.Iterator()
      case = dict(history=hist)
      ck.case(str(case), sample=case)
      def run():
        c = checkpoints.Checkpointer(states[0], p1, d, dataset_iterator=it)
        out, ref = [], {}
        for i, (o, s) in enumerate(hist):
          if o == 's':
            if s not in ref:
              ref[s] = it.pos = 10 * i + s
            c.save(states[s])
          else:
            it.pos = -1
            g = c.restore(step=s)
            out.append((s, g, it.pos, ref[s]))
        return out
      ok, out = ck.guarded('history', run, case)
      if ok:
        for s, g, pos, want in out:
          bad = expect_diff(states[s], g, f32, None)
          ck.expect(bad is None, f'step {s} restored wrongly: {bad}', case)
          ck.expect(pos == want, 'dataset iterator of another step', case, want, pos)
      scratch.clear(d)

    ck.part('transformations')
    st = build('adam', SHAPES['nest'], f32, 5, 0)
    d = scratch.new()
    def f_add(sdict, tgt, is_resuming=False):
      return dict(sdict, marks=sdict.get('marks', ()) + ('f',))
    order = []
    def t(name):
      def fn(sdict, tgt, is_resuming=False):
        order.append(name)
        sdict = dict(sdict)
        sdict['target'] = dict(sdict['target'])
        sdict['target']['k_1'] = {'0': np.full((2, 2), ord(name) + 0.0, np.float32)}
        return sdict
      return fn
    def go():
      checkpoints.Checkpointer(st, p1, d).save(st)
      r = checkpoints.Checkpointer(st, p1, d)
      outs = []
      for seq in itertools.product('ab', repeat=2):
        order.clear()
        g = r.restore(step=5, state_transformation_fns=[t(x) for x in seq])
        outs.append((seq, tuple(order), float(np.asarray(g.params['k_1']['0'])[0, 0])))
      return outs
    ok, outs = ck.guarded('transformed restore', go)
    if ok:
      for seq, got, v in outs:
        ck.case(seq, sample=dict(transforms=seq))
        ck.expect(got == seq and v == ord(seq[-1]), 'transformations applied in another order',
                  seq, seq, (got, v))
    # fallback state fills what the checkpoint lacks, and only that
    from flax import traverse_util
    full = traverse_util.flatten_dict(st.state_dict(), sep='/')
    others = build('adam', SHAPES['nest'], f32, 6, 0, salt=40)
    fall = traverse_util.flatten_dict(others.state_dict(), sep='/')
    names = [k for k in full if k.startswith('target/') or '/mu/' in k]
    for drop in itertools.chain(itertools.combinations(names, 1), itertools.combinations(names, 2)):
      def dropper(sdict, tgt, is_resuming=False):
        from t5x import state_utils
        fl = state_utils.flatten_state_dict(sdict, keep_empty_nodes=True)
        for n in drop:
          fl.pop(n)
        return traverse_util.unflatten_dict(fl, sep='/')
      fb = traverse_util.unflatten_dict({n: fall[n] for n in drop}, sep='/')
      case = dict(missing=drop)
      ck.case(str(case), sample=case)
      ok, g = ck.guarded('restore with fallback', lambda: checkpoints.Checkpointer(
          st, p1, d).restore(step=5, state_transformation_fns=[dropper], fallback_state=fb), case)
      if ok:
        gf = lc.flat(g.state_dict())
        for k in full:
          want = np.asarray(fall[k] if k in drop else full[k])
          ck.expect(gf[k].tobytes() == want.tobytes(), f'{k} wrong with a fallback state',
                    case, want, gf[k])
      ck.expect_raises('restore with a missing entry and no fallback',
                       lambda: checkpoints.Checkpointer(st, p1, d).restore(
                           step=5, state_transformation_fns=[dropper]), case)
      if not ck.thorough and len(drop) == 2 and drop[0] != names[0]:
        break

    ck.part('refusals')
    base = SHAPES['r0-3']
    for name, sh in base.items():
      for ns in {sh + (1,), sh[:-1] + (sh[-1] * 2,) if sh else (1,), sh[:-1] + (sh[-1] - 1,) if sh else (2,),
                 sh[::-1] if sh != sh[::-1] else sh + (2,)}:
        other = dict(base, **{name: ns})
        for kind in ('sgd', 'adam'):
          sst = build(kind, base, f32, 5, 0)
          ab = build(kind, other, f32, 0, 0)
          dd = scratch.new()
          checkpoints.Checkpointer(sst, p1, dd).save(sst)
          case = dict(saved=sh, expected=ns, name=name, optimizer=kind)
          ck.case(str(case), sample=case)
          for part in (p1, host):
            ck.expect_raises('restoring a parameter of another shape',
                             lambda: checkpoints.Checkpointer(ab, part, dd).restore(step=5),
                             dict(case, params_on_devices=part.params_on_devices))
          scratch.clear(dd)
    ck.expect_raises('lazy restore to devices', lambda: checkpoints.Checkpointer(
        st, p1, d).restore(step=5, lazy_parameters=True))
    ck.expect_raises('step and path', lambda: checkpoints.Checkpointer(
        st, p1, d).restore(step=5, path=os.path.join(d, 'checkpoint_5')), exc=ValueError)
    for tree in ({'k_1': {'0': (2, 2)}}, dict(SHAPES['nest'], extra=(2,))):
      ab = build('adam', tree, f32, 0, 0)
      if 'extra' in tree:
        ck.expect_raises('restoring a tree with a parameter the checkpoint lacks',
                         lambda: checkpoints.Checkpointer(ab, p1, d).restore(step=5))
      ck.case(str(tree))


class Bare:
  def __init__(self, sd):
    self._sd = sd

  def state_dict(self):
    return self._sd
