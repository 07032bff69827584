"""O04: resolution of Adafactor's factoring rules and the axes derived for its state."""
import itertools
import re

import numpy as np

TECHNIQUE = 'enum'
LEVEL = 'exploration'
RULE = ('every rule list up to length three (four) over a pattern alphabet x parameter names; every '
        'axis-role tuple up to rank four; every shape from a set x rule; distinct = (rules, names) or '
        '(roles, shape, hyperparameters)')
ASSUMPTIONS = ['momentum, where used, has beta1 > 0']


def check(ck):
  import jax
  import jax.numpy as jnp
  from flax.core import freeze, unfreeze
  from flax import traverse_util
  from jax.sharding import PartitionSpec as P
  from t5x import adafactor
  F = adafactor.FactorDim
  fl = lambda d: traverse_util.flatten_dict(unfreeze(d), sep='/')

  # ---- first match wins
  ck.part('rule lists')
  pats = ('kernel', '^a', 'a/b', 'bias$', r'b/.*', '.*', 'kernel$', '^kernel')
  names = ('a/kernel', 'a/b/kernel', 'b/bias', 'kernel/bias', 'c/kernel_2')
  params = traverse_util.unflatten_dict({n: jnp.zeros((2,)) for n in names}, sep='/')
  for n in range(0, ck.pick(3, 4) + 1):
    for rules in itertools.product(pats, repeat=n):
      ck.case(rules, sample=rules if n == 2 else None)
      m = adafactor.HParamMap([(r, i) for i, r in enumerate(rules)])
      want = {}
      for name in names:
        hit = [i for i, r in enumerate(rules) if re.search(r, name)]
        if hit:
          want[name] = hit[0]
          ok, got = ck.guarded('looking a name up', lambda: m[name], dict(rules=rules, name=name))
          ck.expect(not ok or got == hit[0], 'not the first matching rule', dict(rules=rules, name=name), hit[0], got)
        else:
          ck.expect_raises('a name without a rule', lambda: m[name], dict(rules=rules, name=name), KeyError)
      if len(want) < len(names):
        ck.expect_raises('a tree with a name without a rule', lambda: m(params), rules, KeyError)
      else:
        for wrap in (lambda x: x, freeze):
          ok, tree = ck.guarded('mapping a tree', lambda: m(wrap(params)), rules)
          ck.expect(not ok or fl(tree) == want, 'mapped tree', rules, want, tree)

  # ---- axes to roles
  ck.part('axis roles')
  words = dict(row=F.ROW, col=F.COLUMN, column=F.COLUMN, batch=F.BATCH, none=F.NONE, unfactorized=F.NONE,
               ROW=F.ROW, Batch=F.BATCH)
  table = {('ax' + w): w for w in words}
  table.update({'en' + k: v for k, v in dict(R=F.ROW, C=F.COLUMN, B=F.BATCH, N=F.NONE).items()})
  role = lambda a: words[a[2:]] if a.startswith('ax') else table[a]
  axes_all = ('axrow', 'axcolumn', 'axbatch', 'axnone', 'enR', 'enC', 'axcol', 'axunfactorized', 'enB', 'axROW')
  for rank in range(1, 5):
    for axes in itertools.product(axes_all[:{1: 10, 2: 10, 3: 7, 4: 4}[rank] if not ck.thorough else 10 - 2 * (rank > 3)], repeat=rank):
      roles = tuple(role(a) for a in axes)
      shape = (3, 4, 5, 2)[:rank]
      full = {F.ROW, F.COLUMN} <= set(roles)
      case = dict(axes=axes, roles=[r.name for r in roles])
      ck.case(axes, sample=case if rank == 3 else None)
      d = adafactor.Adafactor(0.1, logical_factor_rules=table, min_dim_size_to_factor=2, beta1=0.5 if rank % 2 else None)
      ax = {'m': {'w': P(*axes)}, 'z': P('axrow')}
      if full and F.NONE in roles:
        ck.expect_raises('an incomplete specification', lambda: d.set_param_axes(ax), case, ValueError)
        continue
      ok, _ = ck.guarded('setting the axes', lambda: d.set_param_axes(freeze(ax) if rank == 2 else ax), case)
      if not ok:
        continue
      p = {'m': {'w': jnp.ones(shape)}, 'z': jnp.ones((3,))}
      ok, opt = ck.guarded('creating', lambda: d.create(p), case)
      if not ok:
        continue
      st = opt.state.param_states['m']['w']
      if rank <= 2 and F.BATCH not in roles:  # the rank heuristic
        rows, cols = ((0,), (1,)) if rank == 2 else ((), ())
        avg = tuple(range(rank))
      elif full:
        rows = tuple(i for i, r in enumerate(roles) if r == F.ROW)
        cols = tuple(i for i, r in enumerate(roles) if r == F.COLUMN)
      else:
        rows = cols = ()
      if rows:
        ck.expect(st.v_row.shape == tuple(s for i, s in enumerate(shape) if i not in cols) and
                  st.v_col.shape == tuple(s for i, s in enumerate(shape) if i not in rows) and st.v.shape == (1,),
                  'shapes of the statistics', case, [rows, cols], [st.v_row.shape, st.v_col.shape, st.v.shape])
      else:
        ck.expect(st.v.shape == shape and st.v_row.shape == (1,) == st.v_col.shape, 'shapes of the statistics', case,
                  shape, [st.v_row.shape, st.v_col.shape, st.v.shape])
      # batched dimensions are scaled on their own
      if F.BATCH in roles and rank > 1:
        b = roles.index(F.BATCH)
        g = np.random.RandomState(0).randn(*shape).astype(np.float32)
        big = g * np.float32(100)
        sl = tuple(slice(0, 1) if i == b else slice(None) for i in range(rank))
        big[sl] = g[sl]
        z = jnp.ones((3,))
        one = opt.apply_gradient({'m': {'w': jnp.asarray(g)}, 'z': z}).target['m']['w']
        two = opt.apply_gradient({'m': {'w': jnp.asarray(big)}, 'z': z}).target['m']['w']
        ck.expect(np.allclose(one[sl], two[sl], rtol=1e-6), 'one element of a batch influences another', case, one[sl], two[sl])
      # annotations
      ok, la = ck.guarded('deriving axes', lambda: d.derive_logical_axes(opt, ax), case)
      if ok:
        s = la.state.param_states['m']['w']
        want = dict(v_row=None, v_col=None, v=None if rows else P(*axes), m=P(*axes) if rank % 2 else None)
        ck.expect(vars(s) == want and la.state.step is None and la.target == ax, 'derived axes', case, want, vars(s))
        for f in ('v', 'm', 'v_row', 'v_col'):
          a = getattr(s, f)
          ck.expect(a is None or len(a) == getattr(st, f).ndim, 'rank of an annotation', dict(case, field=f))
  ck.expect_raises('an axis without a role', lambda: adafactor.Adafactor(
      0.1, logical_factor_rules={'a': 'row'}).set_param_axes({'w': P('a', 'b')}), None, KeyError)
  ck.expect_raises('a role that does not exist', lambda: adafactor.Adafactor(
      0.1, logical_factor_rules={'a': 'diagonal'}).set_param_axes({'w': P('a')}), None, KeyError)
  d = adafactor.Adafactor(0.1)
  d.set_param_axes({'w': P('a')})
  ck.expect(d.hyper_params.factor_map is None, 'axes are used though no rules were given')

  # the standard table
  ck.part('standard table')
  std = dict(adafactor.standard_logical_factor_rules())
  want = dict(vocab='COLUMN', embed='ROW', mlp='COLUMN', heads='COLUMN', kv='COLUMN', joined_kv='COLUMN',
              relpos_buckets='NONE', layers='BATCH', stack='BATCH', layer_norm_scale='NONE', mlp_activations='COLUMN')
  for k, v in want.items():
    ck.case(k)
    ck.expect(std.get(k) == F[v], f'role of {k}', k, v, std.get(k))
  for axes in itertools.permutations(('layers', 'embed', 'heads', 'kv'), 3):
    ck.case(axes)
    d = adafactor.Adafactor(0.1, logical_factor_rules=adafactor.standard_logical_factor_rules(), min_dim_size_to_factor=1)
    d.set_param_axes({'w': P(*axes)})
    st = d.create({'w': jnp.ones((3, 4, 5))}).state.param_states['w']
    fact = 'embed' in axes
    ck.expect((st.v.shape == (1,)) == fact, 'factored?', axes, fact, st.v.shape)

  # ---- shapes and the heuristic
  ck.part('heuristic')
  sizes = (1, 2, 3, 4)
  for rank in range(0, 3):
    for shape in itertools.product(sizes, repeat=rank):
      for lim, factored, rule in itertools.product((1, 2, 3, 5), (True, False), ('none', 'map')):
        if not factored and rule == 'map':
          continue
        case = dict(shape=shape, min_dim_size_to_factor=lim, factored=factored, rule=rule)
        ck.case(str(case))
        kw = dict(factor_map=adafactor.HParamMap([('x', adafactor.HEURISTIC_RULE), ('.*', None)])) if rule == 'map' else {}
        d = adafactor.Adafactor(0.1, factored=factored, min_dim_size_to_factor=lim, **kw)
        o = d.create({'x': jnp.ones(shape), 'q': jnp.ones((4, 4))})
        st = o.state.param_states['x']
        fact = factored and rank == 2 and min(shape) >= lim
        if fact:
          lo, hi = (1, 0) if shape[0] > shape[1] else (0, 1)
          ck.expect(st.v_row.shape == (shape[lo],) and st.v_col.shape == (shape[hi],) and st.v.shape == (1,),
                    'shapes of the statistics', case, None, [st.v_row.shape, st.v_col.shape])
        else:
          ck.expect(st.v.shape == shape and st.v_row.shape == (1,), 'shapes of the statistics', case, shape, st.v.shape)
        q = o.state.param_states['q']
        ck.expect((q.v.shape == (1,)) == (factored and rule == 'none' and lim <= 4), 'the other parameter', case, None, q.v.shape)
        ax = {'x': P(*'abc'[:rank]), 'q': P('q', 'r')}
        ok, la = ck.guarded('deriving axes', lambda: d.derive_logical_axes(o, ax), case)
        if ok:
          s = la.state.param_states['x']
          ck.expect(s.v_row is None and s.v_col is None and s.m is None and
                    (s.v == ax['x'] if not fact and shape != (1,) else s.v is None), 'derived axes', case, None, vars(s))
