"""O02: MultiOptimizer, every assignment of parameters to optimizers."""
import itertools

import numpy as np

TECHNIQUE = 'hist'
LEVEL = 'exploration'
RULE = ('every assignment of four (five) parameters to {none, optimizer 1, 2, 3} x learning-rate override '
        'kind x three updates with a save and restore between any two; every pair of overlapping claims; '
        'distinct = (assignment, override, history)')
ASSUMPTIONS = ['traversals select by path', 'sub-optimizers keep one state per parameter (wrapped optax '
               'transformations do not: recorded as a known finding)']


def momentum_def(optimizers, lr, mu):
  """A plain optimizer with one array of state per parameter."""
  import jax
  from flax import struct

  @struct.dataclass
  class HP:
    learning_rate: float
    mu: float

  class Momentum(optimizers.OptimizerDef):

    def __init__(self):
      super().__init__(HP(lr, mu))

    def init_state(self, params):
      import jax.numpy as jnp
      return optimizers.OptimizerState(jnp.asarray(0), jax.tree_util.tree_map(jnp.zeros_like, params))

    def apply_gradient(self, hp, params, state, grads):
      m = jax.tree_util.tree_map(lambda a, g: hp.mu * a + g, state.param_states, grads)
      # the step takes part, so that a wrong one shows
      s = hp.learning_rate / (1.0 + state.step)
      return (jax.tree_util.tree_map(lambda p, a: p - s * a, params, m),
              optimizers.OptimizerState(state.step + 1, m))

    def derive_logical_axes(self, optimizer, axes):
      return optimizers.Optimizer(self, optimizers.OptimizerState(None, axes), axes)
  return Momentum()


def check(ck):
  import jax
  import jax.numpy as jnp
  from flax import traverse_util
  from flax.core import freeze, unfreeze
  from jax.sharding import PartitionSpec as P
  from t5x import adafactor, optimizers

  fl = lambda d: traverse_util.flatten_dict(unfreeze(d), sep='/', keep_empty_nodes=True)
  un = lambda d: traverse_util.unflatten_dict(d, sep='/')
  NAMES = ('a/kernel', 'a/bias', 'b/c/kernel', 'b/scale', 'z')
  SHAPES = ((2, 3), (3,), (4, 2), (), (1,))
  AX = dict(zip(NAMES, (P('x', 'y'), P('y'), P('q', None), P(), P('s'))))
  subs = [momentum_def(optimizers, 0.1, 0.5),
          adafactor.Adafactor(0.2, beta1=0.9, factored=True, min_dim_size_to_factor=2),
          adafactor.Adafactor(0.3, factored=False, multiply_by_parameter_scale=False, decay_rate=0.5)]

  def trav(keys):
    paths = {'/' + k for k in keys}
    return traverse_util.ModelParamTraversal(lambda path, _: path in paths)

  n = ck.pick(4, 5)
  names, shapes = NAMES[:n], SHAPES[:n]
  r = np.random.RandomState(0)
  values = {k: jnp.asarray(r.randn(*s), jnp.float32) for k, s in zip(names, shapes)}
  grads = [{k: jnp.asarray(r.randn(*s), jnp.float32) for k, s in zip(names, shapes)} for _ in range(3)]

  same = lambda a, b: (jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b) and all(
      np.array_equal(np.asarray(x), np.asarray(y))
      for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b))))

  OV = [dict(), dict(learning_rate=0.7), 'each']

  # what each optimizer does to each subset of the parameters, alone
  cache = {}

  def alone(i, keys, ov):
    key = (i, keys, str(ov))
    if key not in cache:
      o = subs[i].create(un({k: values[k] for k in keys}))
      seq = []
      for t in range(3):
        kw = ov if ov != 'each' else dict(hyper_params=subs[i].hyper_params.replace(learning_rate=0.05 * (i + 1 + t)))
        o = o.apply_gradient(un({k: grads[t][k] for k in keys}), **kw)
        seq.append((fl(o.target), fl(o.state.param_states)))
      cache[key] = seq
    return cache[key]

  ck.part('assignments')
  for assign in itertools.product((None, 0, 1, 2), repeat=n):
    groups = [tuple(k for k, a in zip(names, assign) if a == i) for i in range(3)]
    used = [i for i in range(3) if groups[i]]
    frozen = sum(a is None for a in assign) % 2 == 1
    wrap = freeze if frozen else (lambda x: x)
    case = dict(assignment=dict(zip(names, assign)), frozen=frozen)
    # with and without the optimizers that match nothing
    for listed in ({tuple(used), (0, 1, 2)} if ck.thorough or assign[0] is None else {tuple(used)}):
      if not listed:
        continue
      order = listed if sum(a or 0 for a in assign) % 2 else listed[::-1]
      d = optimizers.MultiOptimizer([(trav(groups[i]), subs[i]) for i in order])
      ok, first = ck.guarded('creating', lambda: d.create(wrap(un(values))), case)
      if not ok:
        continue
      ck.case((assign, listed), sample=case if len(used) == 3 else None)
      st = fl(first.state.param_states)
      ck.expect(set(st) == set(names) and all((st[k] is None) == (a is None) for k, a in zip(names, assign)),
                'state of unmatched parameters', case, None, sorted(st))
      for ov in (OV if ck.thorough or assign[-1] is not None else OV[2:]):
        o = first
        c = dict(case, overrides=ov)
        for t in range(3):
          kw = ov
          if ov == 'each':
            kw = dict(hyper_params=[d.hyper_params[j].replace(learning_rate=0.05 * (i + 1 + t)) for j, i in enumerate(order)])
          if t == (1 + len(used)) % 3 or ck.thorough:
            sd = jax.tree_util.tree_map(np.asarray, o.state_dict())
            blank = d.create(wrap(un({k: jnp.zeros_like(v) for k, v in values.items()})))
            ok, back = ck.guarded('restoring', lambda: blank.restore_state(sd), c)
            if not ok:
              break
            ck.expect(same(back.target, o.target) and same(back.state, o.state), 'restored state differs', dict(c, t=t))
            o = jax.tree_util.tree_map(jnp.asarray, back)
          ok, o = ck.guarded('updating', lambda: o.apply_gradient(wrap(un(grads[t])), **kw), dict(c, t=t))
          if not ok:
            break
          ck.transition()
          tg, st = fl(o.target), fl(o.state.param_states)
          ck.expect(int(o.state.step) == t + 1, 'step', dict(c, t=t), t + 1, o.state.step)
          ck.expect(list(tg) == list(fl(wrap(un(values)))) or set(tg) == set(names), 'parameters lost', c)
          for k, a in zip(names, assign):
            if a is None:
              ck.expect(np.array_equal(tg[k], values[k]), 'a parameter no optimizer claims changes', dict(c, t=t, name=k),
                        values[k], tg[k])
              ck.expect(st[k] is None, 'state of an unclaimed parameter', dict(c, t=t, name=k))
            else:
              wt, ws = alone(a, groups[a], ov)[t]
              ck.expect(np.array_equal(tg[k], wt[k]), 'differs from the optimizer alone', dict(c, t=t, name=k), wt[k], tg[k])
              ck.expect(same(st[k], ws[k]), 'optimizer state differs from the optimizer alone', dict(c, t=t, name=k))
      # axes
      ok, la = ck.guarded('deriving axes', lambda: d.derive_logical_axes(first, wrap(un({k: AX[k] for k in names}))), case)
      if ok:
        ck.expect(fl(la.target) == {k: AX[k] for k in names} and la.state.step is None, 'axes of the parameters', case)
        ls = fl(la.state.param_states)
        for k, a, sh in zip(names, assign, shapes):
          if a is None:
            ck.expect(ls[k] is None, 'axes of an unclaimed parameter', dict(case, name=k), None, ls[k])
          elif a == 0:
            ck.expect(ls[k] == AX[k], 'axes', dict(case, name=k), AX[k], ls[k])
          else:
            fact = a == 1 and len(sh) == 2
            want = dict(v_row=None, v_col=None, v=None if fact or sh == (1,) else AX[k], m=AX[k] if a == 1 else None)
            ck.expect(vars(ls[k]) == want, 'axes', dict(case, name=k), want, vars(ls[k]))
      # axes reach the sub-optimizer for its own parameters only
  ck.part('axis rules')
  for assign in itertools.product((None, 0, 1), repeat=3):
    ck.case(assign)
    # each knows the axes of its own parameters only
    ads = [adafactor.Adafactor(0.1, logical_factor_rules={'b': 'batch', **({'u': 'row', 'v': 'column'} if assign[2] == i else {}), **(
        {'x': 'row', 'y': 'column'} if i in assign[:2] else {})}, min_dim_size_to_factor=1)
           for i in range(2)]
    ps = {'a/k': jnp.ones((2, 2, 3)), 'b/k': jnp.ones((2, 3, 2)), 'c': jnp.ones((3, 2, 2))}
    ax = {'a/k': P('b', 'x', 'y'), 'b/k': P('x', 'b', 'b'), 'c': P('u', 'v', 'v')}
    groups = [tuple(k for k, a in zip(ps, assign) if a == i) for i in range(2)]
    d = optimizers.MultiOptimizer([(trav(groups[i]), ads[i]) for i in range(2)])
    ok, _ = ck.guarded('setting axes', lambda: d.set_param_axes(un(ax)), assign)
    ok, o = ck.guarded('creating', lambda: d.create(un(ps)), assign)
    if ok:
      st = fl(o.state.param_states)
      for k, a in zip(ps, assign):
        fact = k != 'b/k'
        ck.expect(st[k] is None if a is None else (st[k].v.shape == (1,)) == fact, 'factored', dict(assign=assign, name=k))

  # ---- overlaps
  ck.part('overlaps')
  sets = [s for m in range(0, n + 1) for s in itertools.combinations(names, m)]
  for a, b in itertools.product(sets, repeat=2):
    for third in ((), (names[0],)):
      over = set(a) & set(b) or set(third) & (set(a) | set(b))
      if not ck.thorough and not over:
        continue
      case = dict(first=a, second=b, third=third)
      ck.case((a, b, third))
      d = optimizers.MultiOptimizer([(trav(a), subs[0]), (trav(b), subs[1]), (trav(third), subs[2])])
      if over:
        ck.expect_raises('overlapping claims', lambda: d.create(un(values)), case, ValueError)
      else:
        ck.guarded('disjoint claims', lambda: d.create(un(values)), case)

  # ---- wrapped optax transformations, which the class documents as working
  ck.part('wrapped optax')
  for name, make in dict(adam=lambda: optimizers.adam(0.1), sgd=lambda: optimizers.sgd(0.1, momentum=0.9)).items():
    for who in (names[:1], names[:2], names):
      ck.case((name, who))
      d = optimizers.MultiOptimizer([(trav(who), make())])
      ok, o = ck.guarded('creating with a wrapped optax optimizer', lambda: d.create(un(values)), dict(optimizer=name, claims=who),
                         sig='optax-sub-optimizers')
      if ok:
        ok, o = ck.guarded('updating with a wrapped optax optimizer', lambda: o.apply_gradient(un(grads[0])),
                           dict(optimizer=name, claims=who), sig='optax-sub-optimizers')
      if ok:
        w = make().create(un({k: values[k] for k in who})).apply_gradient(un({k: grads[0][k] for k in who}))
        ck.expect(all(np.array_equal(fl(o.target)[k], fl(w.target)[k]) for k in who), 'differs from the optimizer alone',
                  dict(optimizer=name, claims=who))
