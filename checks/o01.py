"""O01: serialization, stepping and annotations of wrapped optax optimizers."""
import itertools

import numpy as np

TECHNIQUE = 'hist'
LEVEL = 'exploration'
RULE = ('every exported optimizer and every chain of up to two (three) transformations of an '
        'alphabet of all registered states x parameter trees, save and restore after each of '
        'three updates, every single entry removed or added; distinct = (chain, tree, history)')
ASSUMPTIONS = ['transformations whose state has a registered partition rule; optax itself is '
               'trusted as the reference for the update']


def alphabet():
  """name -> transformation; one for every registered kind of state."""
  import jax
  import jax.numpy as jnp
  import optax
  kern = lambda p: jax.tree_util.tree_map_with_path(lambda k, _: 'k' in str(k[-1]), p)
  lab = lambda p: jax.tree_util.tree_map_with_path(
      lambda k, _: 'one' if 'k' in str(k[-1]) else 'two', p)
  return dict(
      clip=lambda: optax.clip(0.5),
      trace=lambda: optax.trace(0.9),
      adam=lambda: optax.scale_by_adam(),
      belief=lambda: optax.scale_by_belief(),
      lion=lambda: optax.scale_by_lion(),
      rss=lambda: optax.scale_by_rss(),
      rms=lambda: optax.scale_by_rms(),
      stddev=lambda: optax.scale_by_stddev(),
      trust=lambda: optax.scale_by_trust_ratio(),
      schedule=lambda: optax.scale_by_schedule(lambda c: 1.0 / (c + 1)),
      zero_nans=lambda: optax.zero_nans(),
      noise=lambda: optax.add_noise(0.1, 0.5, 3),
      ema=lambda: optax.ema(0.8),
      decay=lambda: optax.add_decayed_weights(0.01),
      masked=lambda: optax.masked(optax.scale_by_adam(), kern),
      steps=lambda: optax.MultiSteps(optax.adam(0.1), 2).gradient_transformation(),
      finite=lambda: optax.apply_if_finite(optax.trace(0.5), 3),
      inject=lambda: injected(optax.scale_by_adam()),
      cond=lambda: optax.conditionally_transform(optax.trace(0.5), lambda s: s % 2 == 0),
      multi=lambda: optax.multi_transform(dict(one=optax.adam(0.1), two=optax.sgd(0.2, momentum=0.5)), lab),
  )


def injected(inner):
  """Hyperparameters kept in the state (the state type that has a rule)."""
  import jax.numpy as jnp
  import optax

  def init(params):
    return optax.InjectHyperparamsState(
        count=jnp.zeros([], jnp.int32), hyperparams=dict(rate=jnp.asarray(0.1), other=jnp.asarray(2.)),
        inner_state=inner.init(params))

  def update(updates, state, params=None):
    import jax
    updates, new = inner.update(updates, state.inner_state, params)
    updates = jax.tree_util.tree_map(lambda u: u * state.hyperparams['rate'], updates)
    return updates, optax.InjectHyperparamsState(
        count=state.count + 1, hyperparams=dict(rate=state.hyperparams['rate'] * 0.5, other=jnp.asarray(2.)),
        inner_state=new)
  return optax.GradientTransformation(init, update)


def trees():
  from jax.sharding import PartitionSpec as P
  # tree of (shape, axes)
  return dict(
      one=dict(k=((2, 3), P('a', 'b'))),
      nested=dict(m=dict(k=((2, 3), P('a', 'b')), bias=((3,), P('b'))), s=((), P())),
      deep=dict(a=dict(b=dict(k=((3, 1, 2), P('x', None, 'y')))), k=((1,), P('z'))))


def check(ck):
  import flax
  import jax
  import jax.numpy as jnp
  import optax
  from flax import traverse_util
  from flax.core import freeze, unfreeze
  from jax.sharding import PartitionSpec as P
  from t5x import optimizers

  is_leaf = lambda x: isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], P)
  fl = lambda d: traverse_util.flatten_dict(unfreeze(d), keep_empty_nodes=True, sep='/')

  def build(tree, seed, frozen):
    r = np.random.RandomState(seed)
    t = jax.tree_util.tree_map(lambda x: jnp.asarray(r.randn(*x[0]) if x[0] else r.randn(), jnp.float32), tree,
                               is_leaf=is_leaf)
    return freeze(t) if frozen else t

  def axes(tree, frozen):
    t = jax.tree_util.tree_map(lambda x: x[1], tree, is_leaf=is_leaf)
    return freeze(t) if frozen else t

  def host(x):
    if isinstance(x, jax.Array) and jnp.issubdtype(x.dtype, jax.dtypes.prng_key):
      return np.asarray(jax.random.key_data(x))
    return np.asarray(x)

  same = lambda a, b: (jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b) and all(
      np.array_equal(host(x), host(y), equal_nan=True) and host(x).dtype == host(y).dtype
      for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b))))

  def explore(name, make, tree, tname, frozen, full):
    """One optimizer on one tree."""
    case = dict(optimizer=name, tree=tname, frozen=frozen)
    params = build(tree, 0, frozen)
    ax = axes(tree, frozen)
    tx = make()
    init = lambda: optimizers.OptaxWrapper(tx).create(params)
    ok, opt = ck.guarded('creating', init, case)
    if not ok:
      return
    step = lambda o, g: o.apply_gradient(g, learning_rate=0.5)
    ref = lambda g, s, p: (lambda u, s2: (optax.apply_updates(p, u), s2))(*tx.update(g, s, p))
    rp, rs = params, tx.init(params)
    opts, grads = [opt], []
    for t in range(3):
      g = build(tree, 10 + t, frozen)
      if 'zero_nans' in name and t == 1:
        g = jax.tree_util.tree_map(lambda x: x.at[(0,) * x.ndim].set(np.nan) if x.ndim else x, g)
      grads.append(g)
      ok, opt = ck.guarded('updating', lambda: step(opt, g), case)
      if not ok:
        return
      rp, rs = ref(g, rs, rp)
      ck.expect(int(opt.state.step) == t + 1, 'the step does not advance by one', case, t + 1, opt.state.step)
      ck.expect(same(opt.target, rp) and same(opt.state.param_states, rs),
                'the update is not that of the transformation', dict(case, step=t))
      opts.append(opt)
    for t, o in enumerate(opts):
      c = dict(case, updates=t)
      ck.case(str(c), sample=c if t == 2 else None)
      ok, sd = ck.guarded('serializing', o.state_dict, c)
      if not ok:
        return
      flat = fl(sd)
      empty = [k for k, v in flat.items() if v is traverse_util.empty_node or v is None]
      ck.expect(not empty, 'empty entries in the serialized form', c, None, empty)
      ck.expect(set(sd) == {'target', 'state'} and 'step' in sd['state'], 'layout of the state', c, None, sorted(sd))
      n_leaves = len(jax.tree_util.tree_leaves((o.target, o.state)))
      ck.expect(len(flat) == n_leaves, 'entries lost or invented', c, n_leaves, sorted(flat))
      keyed = any(isinstance(x, jax.Array) and jnp.issubdtype(x.dtype, jax.dtypes.prng_key)
                  for x in jax.tree_util.tree_leaves(sd))  # has no byte form in this jax
      raw = sd if keyed else flax.serialization.msgpack_restore(flax.serialization.msgpack_serialize(
          jax.tree_util.tree_map(np.asarray, sd)))
      for how, src in (('direct', sd), ('bytes', raw)):
        blank = init()
        ok, back = ck.guarded('restoring', lambda: blank.restore_state(src), dict(c, how=how))
        if ok:
          ck.expect(same(back.target, o.target) and same(back.state.param_states, o.state.param_states)
                    and int(back.state.step) == t, 'restored state differs', dict(c, how=how))
          if t < 3:
            nxt = step(jax.tree_util.tree_map(lambda x: x if isinstance(x, jax.Array) else jnp.asarray(x), back), grads[t])
            ck.expect(same(nxt.target, opts[t + 1].target) and
                      same(nxt.state.param_states, opts[t + 1].state.param_states),
                      'training continues differently after restoring', dict(c, how=how))
      if t == 2 and full:
        for k in flat:
          less = {p: v for p, v in flat.items() if p != k}
          ck.case((str(c), k))
          ck.expect_raises('a missing entry', lambda: init().restore_state(
              traverse_util.unflatten_dict(less, sep='/')), dict(c, missing=k), Exception)
        for k in sorted({p.rsplit('/', 1)[0] + '/surplus' for p in flat}):
          more = dict(flat)
          more[k] = np.zeros(2)
          ck.case((str(c), k))
          blank = init()
          try:
            back = blank.restore_state(traverse_util.unflatten_dict(more, sep='/'))
          except Exception:  # refusing is as good as ignoring
            continue
          ck.expect(same(back.target, o.target) and same(back.state.param_states, o.state.param_states),
                    'a surplus entry changes what is restored', dict(c, surplus=k))
    # ---- annotations
    ok, la = ck.guarded('annotating', lambda: opt.optimizer_def.derive_logical_axes(opts[0], ax), case)
    if not ok:
      return
    got, have = fl(la.state_dict()), fl(opts[0].state_dict())
    ck.expect(set(got) == set(have), 'annotations for another tree', case, sorted(have), sorted(got))
    pax = {k: v for k, v in fl(ax).items()}
    shapes = {k: np.shape(v) for k, v in fl(params).items()}
    for k, v in have.items():
      g = got.get(k)
      want = None
      if k.startswith('target/'):
        want = pax[k[7:]]
      else:
        own = [p for p in pax if k.endswith('/' + p)]
        if own and np.shape(v) == shapes[max(own, key=len)] and 'hyperparams' not in k:
          want = pax[max(own, key=len)]
      if 'found_nan' in k:
        want = None
      ck.expect(g == want or (want == P() and g in (None, P())), f'annotation of {k}', case, want, g)
      ck.expect(g is None or len(g) == np.ndim(v), f'rank of the annotation of {k}', case, np.shape(v), g)
    ck.expect(jax.tree_util.tree_structure(jax.tree_util.tree_map(lambda _: 0, opts[0].state)) ==
              jax.tree_util.tree_structure(jax.tree_util.tree_map(
                  lambda _: 0, la.state, is_leaf=lambda x: x is None or isinstance(x, P))),
              'annotations do not have the structure of the state', case)

  # ---- exported optimizers
  ck.part('optimizers')
  o = optimizers
  exported = dict(
      adabelief=lambda: o.adabelief(0.1), adagrad=lambda: o.adagrad(0.1), adam=lambda: o.adam(0.1),
      adamw=lambda: o.adamw(0.1), adamw_schedule=lambda: o.adamw(optax.linear_schedule(0.1, 0., 5)),
      fromage=lambda: o.fromage(0.1), lars=lambda: o.lars(0.1), lamb=lambda: o.lamb(0.1),
      lion=lambda: o.lion(0.1), noisy_sgd=lambda: o.noisy_sgd(0.1), radam=lambda: o.radam(0.1),
      rmsprop=lambda: o.rmsprop(0.1), rmsprop_all=lambda: o.rmsprop(0.1, centered=True, momentum=0.5),
      sgd=lambda: o.sgd(0.1), momentum=lambda: o.sgd(0.1, momentum=0.9), yogi=lambda: o.yogi(0.1),
      chain=lambda: o.chain([optax.clip(1.), optax.adam(0.1)]), chain1=lambda: o.chain([optax.sgd(0.1)]))
  for name, make in exported.items():
    ok, w = ck.guarded(f'making {name}', make)
    if not ok:
      continue
    ck.expect(isinstance(w, optimizers.OptaxWrapper), f'{name} is not wrapped')
    for tname, tree in trees().items():
      for frozen in (False, True):
        if frozen and tname != 'nested' and not ck.thorough:
          continue
        explore(name, lambda: w.optax_optimizer, tree, tname, frozen, tname == 'nested')

  # ---- chains
  ck.part('chains')
  al = alphabet()
  n = 0
  for k in (1, 2, 3):
    for names in itertools.product(al, repeat=k):
      if k == 3 and not (ck.thorough and names[0] in ('masked', 'multi', 'clip') and
                         names[2] in ('steps', 'finite', 'adam')):
        continue
      n += 1
      if k == 2 and not ck.thorough and (
          names[0] > names[1] or not {'clip', 'decay', 'masked', 'multi', 'steps', 'finite', 'inject', 'cond'} & set(names)
          or not {'adam', 'multi', 'masked', 'decay', 'clip', 'trust', 'ema'} & set(names)
          or {'steps', 'finite', 'cond'} & set(names) and not {'adam', 'masked'} & set(names)):
        continue
      for tname, tree in trees().items():
        if (k > 1 or not ck.thorough and names[0] not in ('masked', 'multi', 'inject')) and tname != 'nested':
          continue
        explore('/'.join(names), lambda: optax.chain(*(al[x]() for x in names), optax.scale(-0.1)),
                tree, tname, k == 1 or n % 2 == 0, k == 1)
      # nested combinators
      if k == 1:
        x = names[0]
        for wrap, fn in dict(
            steps=lambda t: optax.MultiSteps(t, 2).gradient_transformation(),
            masked=lambda t: optax.masked(t, lambda p: jax.tree_util.tree_map(lambda _: True, p)),
            partly=lambda t: optax.masked(t, lambda p: jax.tree_util.tree_map(lambda x: x.ndim != 1, p)),
            finite=lambda t: optax.apply_if_finite(t, 2),
            nested=lambda t: optax.chain(optax.chain(t), optax.chain(optax.identity(), t))).items():
          if not ck.thorough and wrap not in ('masked', 'partly') and x not in ('adam', 'multi', 'masked', 'zero_nans'):
            continue
          explore(f'{wrap}({x})', lambda: fn(al[x]()), trees()['nested'], 'nested', False, False)

  # ---- unknown states
  ck.part('unregistered states')
  import typing

  class OddState(typing.NamedTuple):
    x: typing.Any
  odd = optax.GradientTransformation(lambda p: OddState(p), lambda u, s, p=None: (u, s))
  for names in itertools.product(('odd', 'adam', 'clip', 'masked'), repeat=2):
    if 'odd' not in names:
      continue
    ck.case(names)
    tx = optax.chain(*(odd if x == 'odd' else al[x]() for x in names))
    params = build(trees()['nested'], 0, False)
    opt = optimizers.OptaxWrapper(tx).create(params)
    ck.expect_raises('a state without a rule', lambda: opt.optimizer_def.derive_logical_axes(
        opt, axes(trees()['nested'], False)), names, ValueError)
