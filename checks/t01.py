"""T01: train states against a model that keeps their parts separately."""
import itertools

import numpy as np

TECHNIQUE = 'hist'
LEVEL = 'exploration'
RULE = ('parameter trees x mutable collections x optimizers x every sequence of up to three (four) '
        'operations {gradient step, replace parameters / step / mutables, serialize and restore}; every '
        'single missing axis; distinct = (layout, operation sequence)')
ASSUMPTIONS = ['the optimizer itself is checked by O01-O03']


def layouts():
  """name -> {path: (shape, axes)}."""
  return dict(
      one={'w': ((2,), ('x',))},
      nested={'a/kernel': ((2, 3), ('x', 'y')), 'a/bias': ((3,), ('y',)), 'b/c/scale': ((), ())},
      alike={'step': ((2,), ('x',)), 'params/w': ((2, 2), ('x', 'y')), 'target': ((1,), ('z',))})


def mutables():
  """name -> {collection: ({path: (shape, axes)}, annotated?)}."""
  return dict(
      none={},
      stats={'batch_stats': ({'mean': ((3,), ('y',)), 'l/var': ((2, 2), ('x', 'y'))}, True)},
      plain={'fp8': ({'amax': ((4,), ('h',))}, False)},
      two={'batch_stats': ({'mean': ((3,), ('y',))}, True), 'params_state': ({'w/w': ((2,), ('x',))}, True)})


def check(ck):
  import flax
  import jax
  import jax.numpy as jnp
  import optax
  from flax import traverse_util
  from flax.core import freeze, unfreeze
  from flax.linen import partitioning as fp
  from jax.sharding import PartitionSpec as P
  from t5x import adafactor, optimizers, train_state

  fl = lambda d: traverse_util.flatten_dict(unfreeze(d), sep='/')
  un = lambda d: traverse_util.unflatten_dict(d, sep='/')

  def values(tree, seed):
    r = np.random.RandomState(seed)
    return un({k: jnp.asarray(r.randn(*s), jnp.float32) for k, (s, _) in tree.items()})

  axes_of = lambda tree: un({k + '_axes': fp.AxisMetadata(names=a) for k, (_, a) in tree.items()})

  def eq(a, b):
    a, b = fl(a) if isinstance(a, (dict, flax.core.FrozenDict)) else {'': a}, fl(b) if isinstance(
        b, (dict, flax.core.FrozenDict)) else {'': b}
    if set(a) != set(b):
      return False
    return all(jax.tree_util.tree_structure(a[k]) == jax.tree_util.tree_structure(b[k]) and all(
        np.array_equal(np.asarray(x), np.asarray(y)) and np.asarray(x).dtype == np.asarray(y).dtype
        for x, y in zip(jax.tree_util.tree_leaves(a[k]), jax.tree_util.tree_leaves(b[k]))) for k in a)

  optims = dict(
      adafactor=lambda: adafactor.Adafactor(0.1, beta1=0.9, min_dim_size_to_factor=2,
                                            logical_factor_rules=dict(x='row', y='column', z='none', h='none')),
      adam=lambda: optimizers.adam(0.1),
      chain=lambda: optimizers.chain([optax.clip(0.5), optax.sgd(0.1, momentum=0.5)]),
      multi=lambda: optimizers.MultiOptimizer([
          (traverse_util.ModelParamTraversal(lambda p, _: p.endswith(('w', 'kernel'))), adafactor.Adafactor(0.1))]))

  OPS = ('grad', 'grad-keep', 'params', 'step', 'mutables', 'drop', 'restore', 'bytes')

  def explore(lname, mname, oname, seq, kind):
    lay, mut = layouts()[lname], mutables()[mname]
    case = dict(layout=lname, mutables=mname, optimizer=oname, operations=seq, state=kind)
    variables = dict(params=values(lay, 0), params_axes=axes_of(lay))
    for c, (t, ann) in mut.items():
      variables[c] = values(t, 7)
      if ann:
        variables[c + '_axes'] = axes_of(t)
    variables = freeze(variables)
    mk = optims[oname]
    muts0 = {c: values(t, 7) for c, (t, _) in mut.items()}
    if kind == 'train':
      make = lambda: train_state.FlaxOptimTrainState.create(mk(), variables)
    else:
      make = lambda: train_state.InferenceState.create(variables)
    ok, s = ck.guarded('creating', make, case)
    if not ok:
      return
    ref = None
    if kind == 'train':
      d = mk()
      if hasattr(d, 'set_param_axes'):
        d.set_param_axes(un({k: P(*a) for k, (_, a) in lay.items()}))
      ref = d.create(freeze(values(lay, 0)))
    # the model: parameters, optimizer state, step, mutables
    m = dict(params=values(lay, 0), muts=muts0, step=0)

    def compare(s, what):
      c = dict(case, after=what)
      ck.expect(eq(s.params, m['params']), 'parameters', c, m['params'], s.params)
      ck.expect(int(s.step) == m['step'], 'step', c, m['step'], s.step)
      ck.expect(eq(s.flax_mutables, m['muts']), 'mutable collections', c, m['muts'], s.flax_mutables)
      if kind == 'train':
        a, b = jax.tree_util.tree_leaves(s.param_states), jax.tree_util.tree_leaves(ref.state.param_states)
        ck.expect(len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b)), 'optimizer state', c)
      sd = s.state_dict()
      keys = {'target', 'state'} | ({'flax_mutables'} if m['muts'] else set())
      ck.expect(set(sd) == keys and eq(sd['target'], m['params']) and int(sd['state']['step']) == m['step'] and
                eq(sd.get('flax_mutables', {}), m['muts']), 'serialized form', c, sorted(keys), sorted(sd))
      ck.expect(('param_states' in sd['state']) == (kind == 'train'), 'optimizer state in the serialized form', c)
      return sd

    def scribble(d):
      for k in list(d):
        if isinstance(d[k], dict):
          scribble(d[k])
        else:
          d[k] = None

    scribble(compare(s, 'creation'))  # the serialized form is a copy
    compare(s, 'scribbling on the serialized form')
    for t, op in enumerate(seq):
      before = s
      snap = jax.tree_util.tree_map(np.asarray, before.state_dict())
      if op.startswith('grad'):
        if kind != 'train':
          ck.expect_raises('a gradient step on an inference state', lambda: s.apply_gradient({}, learning_rate=0.1),
                           case, NotImplementedError)
          continue
        g = freeze(values(lay, 20 + t))
        new = freeze({c: values(x, 30 + t) for c, (x, _) in mut.items()}) if op == 'grad' else s.flax_mutables
        ok, s = ck.guarded(op, lambda: s.apply_gradient(g, learning_rate=0.3, flax_mutables=new), case)
        if not ok:
          return
        ref = ref.replace(target=freeze(m['params'])).apply_gradient(g, learning_rate=0.3)
        m.update(params=unfreeze(ref.target), step=m['step'] + 1, muts=unfreeze(new))
      elif op == 'params':
        p = values(lay, 40 + t)
        ok, s = ck.guarded(op, lambda: s.replace_params(freeze(p)), case)
        m['params'] = p
      elif op == 'step':
        ok, s = ck.guarded(op, lambda: s.replace_step(jnp.asarray(100 + t)), case)
        m['step'] = 100 + t
        if kind == 'train':
          ref = ref.replace(state=ref.state.replace(step=jnp.asarray(100 + t)))
      elif op in ('mutables', 'drop'):
        new = {c: values(x, 50 + t) for c, (x, _) in mut.items()} if op == 'mutables' else {}
        ok, s = ck.guarded(op, lambda: s.replace_flax_mutables(freeze(new)), case)
        m['muts'] = new
      else:
        sd = s.state_dict()
        if op == 'bytes':
          sd = flax.serialization.msgpack_restore(flax.serialization.msgpack_serialize(
              jax.tree_util.tree_map(np.asarray, sd)))
        other = jax.tree_util.tree_map(lambda x: jnp.zeros_like(x), make())
        ok, s = ck.guarded(op, lambda: other.restore_state(sd), case)
        if ok:
          s = jax.tree_util.tree_map(jnp.asarray, s)
      if not ok:
        return
      ck.transition()
      compare(s, seq[:t + 1])
      ck.expect(eq(before.state_dict(), snap), 'the previous state was changed in place', dict(case, after=seq[:t + 1]))
    # axes
    if kind == 'train':
      base = s
    else:
      base = s if not seq else make()
    if 'params' == seq[-1:] or not seq or seq[-1] == 'grad':
      base = make()
      ok, ax = ck.guarded('axes', base.as_logical_axes, case)
      if ok:
        ck.expect(fl(ax.params) == {k: P(*a) for k, (_, a) in lay.items()}, 'axes of the parameters', case, None, ax.params)
        want = {f'{c}/{k}': P(*a) for c, (t, ann) in mut.items() if ann for k, (_, a) in t.items()}
        ck.expect(fl(ax.flax_mutables) == want, 'axes of the mutable collections', case, want, ax.flax_mutables)
        ck.expect(ax.step is None, 'axes of the step', case, None, ax.step)
        if kind == 'train':
          isn = lambda x: x is None or isinstance(x, P)
          a = jax.tree_util.tree_structure(jax.tree_util.tree_map(lambda _: 0, ax.param_states, is_leaf=isn))
          b = jax.tree_util.tree_structure(jax.tree_util.tree_map(lambda _: 0, base.param_states, is_leaf=isn))
          ck.expect(a == b, 'structure of the optimizer axes', case, b, a)
          for x, y in zip(jax.tree_util.tree_leaves(ax.param_states, is_leaf=isn),
                          jax.tree_util.tree_leaves(base.param_states, is_leaf=isn)):
            ck.expect(x is None or len(x) == np.ndim(y), 'rank of an axis annotation', case)

  for kind in ('train', 'inference'):
    ck.part(kind)
    for lname, mname in itertools.product(layouts(), mutables()):
      for oname in (optims if kind == 'train' else ('adam',)):
        main = lname == 'nested' and mname in ('two', 'none') and oname in ('adafactor', 'adam')
        ops = OPS if mname != 'none' else [o for o in OPS if o not in ('grad-keep', 'mutables', 'drop')]
        if kind != 'train':
          ops = [o for o in ops if o != 'grad-keep']
        depth = ck.pick(3 if main and mname == 'two' and oname == 'adam' and kind == 'inference' else 2 if main or kind != 'train' else 1,
                        3 if main or kind != 'train' else 2)
        for n in range(depth + 1):
          for seq in itertools.product(ops, repeat=n):
            ck.case((lname, mname, oname, seq), sample=dict(layout=lname, mutables=mname, optimizer=oname, ops=seq)
                    if n == 2 else None)
            explore(lname, mname, oname, seq, kind)
        if not main and depth == 1 and kind == 'train':
          for seq in itertools.product(('grad', 'step', 'params'), ('restore',), ('grad',)):
            ck.case((lname, mname, oname, seq))
            explore(lname, mname, oname, seq, kind)

  # ---- axes that are missing
  ck.part('missing axes')
  for lname, mname in itertools.product(layouts(), mutables()):
    lay, mut = layouts()[lname], mutables()[mname]
    colls = {'params': lay, **{c: t for c, (t, ann) in mut.items() if ann}}
    for coll, t in colls.items():
      for gone in t:
        ck.case((lname, mname, coll, gone))
        v = dict(params=values(lay, 0), params_axes=axes_of(lay))
        for c, (x, ann) in mut.items():
          v[c] = values(x, 7)
          if ann:
            v[c + '_axes'] = axes_of(x)
        rest = {k: a for k, a in t.items() if k != gone}
        v[coll + '_axes'] = axes_of(rest)
        for what, fn in dict(train=lambda: train_state.FlaxOptimTrainState.create(optimizers.adam(0.1), freeze(v)),
                             inference=lambda: train_state.InferenceState.create(freeze(v))).items():
          ck.expect_raises('a leaf without an axis annotation', fn, dict(layout=lname, collection=coll, without=gone, state=what),
                           ValueError)
    v = freeze(dict(params=values(lay, 0)))
    ck.expect_raises('an optimizer that needs axes, without axes', lambda: train_state.FlaxOptimTrainState.create(
        adafactor.Adafactor(0.1), v), lname, ValueError)
    ok, s = ck.guarded('no axes at all', lambda: train_state.FlaxOptimTrainState.create(optimizers.adam(0.1), v), lname)
    ck.expect(not ok or s.params_axes is None, 'axes out of nothing', lname)
