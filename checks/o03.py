"""O03: Adafactor against an independent float64 reference."""
import itertools

import numpy as np

TECHNIQUE = 'enum'
LEVEL = 'exploration'
RULE = ('the product of the hyperparameter alphabets; every dimension-role tuple for ranks 1-4; '
        'every gradient history of length three (four) over six kinds of gradients; each update '
        'compared with the reference; distinct = (hyperparameters, shape, roles, history)')
ASSUMPTIONS = ['float32 arithmetic, compared at relative tolerance 2e-5 with the float64 reference',
               'skip_nan_updates is documented for NaN results only; infinities are left out']


class Ref:
  """The documented update, per parameter, in float64."""

  def __init__(self, hp, roles, shape):
    self.hp = dict(learning_rate=0.1, factored=True, multiply_by_parameter_scale=True, beta1=None,
                   decay_rate=0.8, step_offset=0, clipping_threshold=1.0, weight_decay_rate=None,
                   min_dim_size_to_factor=128, epsilon1=1e-30, epsilon2=1e-3,
                   weight_decay_rate_lr_exponent=None, global_norm_clip_threshold=None,
                   max_parameter_scale=None, skip_nan_updates=False)
    self.hp.update(hp)
    r = len(shape)
    if not self.hp['factored']:
      roles = None
    batch = () if roles is None else tuple(i for i, x in enumerate(roles) if x == 'B')
    if self.hp['factored'] and r <= 2 and not batch:
      big = sorted(range(r), key=lambda i: shape[i])[-2:]
      ok = r == 2 and shape[big[0]] >= self.hp['min_dim_size_to_factor']
      self.rows, self.cols = ((big[0],), (big[1],)) if ok else ((), ())
    elif roles is None:
      self.rows, self.cols = (), ()
    else:
      self.rows = tuple(i for i, x in enumerate(roles) if x == 'R')
      self.cols = tuple(i for i, x in enumerate(roles) if x == 'C')
    self.fact = bool(self.rows or self.cols)
    self.avg = tuple(i for i in range(r) if i not in batch)
    z = np.zeros(shape)
    self.v = z
    self.vr = z.mean(self.cols, keepdims=True) if self.fact else z
    self.vc = z.mean(self.rows, keepdims=True) if self.fact else z
    self.m = z

  def step(self, t, p, g, lr=None, scale_param=None):
    h = self.hp
    lr = h['learning_rate'] if lr is None else lr
    p, g = np.asarray(p, np.float64), np.asarray(g, np.float64)
    with np.errstate(all='ignore'):
      d = 1 - (t - h['step_offset'] + 1.0) ** -h['decay_rate']
      sq = g * g + h['epsilon1']
      if self.fact:
        vr = d * self.vr + (1 - d) * sq.mean(self.cols, keepdims=True)
        vc = d * self.vc + (1 - d) * sq.mean(self.rows, keepdims=True)
        y = g / np.sqrt(vr / vr.mean(self.rows, keepdims=True) * vc)
        v = self.v
      else:
        v, vr, vc = d * self.v + (1 - d) * sq, self.vr, self.vc
        y = g / np.sqrt(v)
      rms = lambda x: np.sqrt((x * x).mean(self.avg, keepdims=True))
      if h['clipping_threshold'] is not None:
        y = y / np.maximum(1, rms(y) / h['clipping_threshold'])
      s = lr
      if h['multiply_by_parameter_scale'] if scale_param is None else scale_param:
        q = np.maximum(rms(p), h['epsilon2'])
        if h['max_parameter_scale'] is not None:
          q = np.minimum(q, h['max_parameter_scale'])
        s = s * q
      u, m = s * y, self.m
      if h['beta1'] is not None:
        u = m = h['beta1'] * self.m + (1 - h['beta1']) * u
      wd = h['weight_decay_rate']
      if h['weight_decay_rate_lr_exponent']:
        wd = (wd or 1.0) * lr ** h['weight_decay_rate_lr_exponent']
      new = p * (1 - (wd or 0)) - u
      if h['skip_nan_updates']:
        keep = lambda a, b: np.where(np.isnan(a), b, a)
        v, vr, vc, m, new = (keep(v, self.v), keep(vr, self.vr), keep(vc, self.vc), keep(m, self.m), keep(new, p))
    self.v, self.vr, self.vc, self.m = v, vr, vc, m
    return new


def close(a, b, tol=2e-5, scale=0.0):
  a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
  if a.shape != b.shape:
    return False
  with np.errstate(all='ignore'):
    return bool(np.all((np.isnan(a) & np.isnan(b)) | (a == b) | (np.abs(a - b) <= tol * (np.abs(b) + scale + 1e-3 * np.max(
        np.where(np.isfinite(b), np.abs(b), 0), initial=0)) + 1e-30)))


def check(ck):
  import jax
  import jax.numpy as jnp
  from flax.core import FrozenDict, freeze
  from t5x import adafactor

  F = adafactor.FactorDim
  ROLE = dict(B=F.BATCH, R=F.ROW, C=F.COLUMN, N=F.NONE)

  def grad(kind, shape, seed):
    r = np.random.RandomState(seed)
    g = np.asarray(r.randn(*shape), np.float32)
    if kind == 'zero':
      g = np.zeros_like(g)
    if kind == 'large':
      g = g * np.float32(1e4)
    if kind == 'tiny':
      g = g * np.float32(1e-6)
    if kind == 'sparse':
      g = np.where(np.arange(g.size).reshape(g.shape) % 3 == 0, g, 0).astype(np.float32)
    if kind == 'nan':
      g = g.copy()
      g[(-1,) * g.ndim] = np.nan
    return g

  def explore(case, hp, leaves, kinds, fmap=None, scale_map=None, tol=2e-5, lrs=None):
    """leaves: name -> (shape, roles or None)."""
    kw = dict(hp)
    if fmap is not None:
      kw['factor_map'] = adafactor.HParamMap(fmap)
    if scale_map is not None:
      kw['multiply_by_parameter_scale'] = adafactor.HParamMap(scale_map)
    kw.setdefault('learning_rate', 0.1)
    ok, d = ck.guarded('constructing', lambda: adafactor.Adafactor(**kw), case)
    if not ok:
      return
    params, refs = {}, {}
    for i, (n, (shape, roles)) in enumerate(leaves.items()):
      a = np.asarray(np.random.RandomState(i).randn(*shape) * (1e-4 if i % 2 else 0.3), np.float32)
      node = params
      *up, last = n.split('/')
      for q in up:
        node = node.setdefault(q, {})
      node[last] = jnp.asarray(a)
      refs[n] = Ref(hp, roles, shape)
    get = lambda tree, n: get(tree[n.split('/', 1)[0]], n.split('/', 1)[1]) if '/' in n else tree[n]
    frozen = len(kinds) % 2 == 0
    ok, opt = ck.guarded('creating', lambda: d.create(freeze(params) if frozen else params), case)
    if not ok:
      return
    cur = {n: np.asarray(get(params, n), np.float64) for n in leaves}
    for t, kind in enumerate(kinds):
      gs = {n: grad(kind, shape, 100 * t + j) for j, (n, (shape, _)) in enumerate(leaves.items())}
      gt = {}
      for n, g in gs.items():
        node = gt
        *up, last = n.split('/')
        for q in up:
          node = node.setdefault(q, {})
        node[last] = jnp.asarray(g)
      clipped = {n: np.asarray(g, np.float64) for n, g in gs.items()}
      T = hp.get('global_norm_clip_threshold')
      if T:
        norm = np.sqrt(sum((g * g).sum() for g in clipped.values()))
        clipped = {n: g * (min(1.0, T / norm) if norm else 1.0) for n, g in clipped.items()}
      over = {} if lrs is None else dict(learning_rate=lrs[t])
      if t == 1:  # the order of a dictionary's entries means nothing
        flip = lambda x: {k: flip(x[k]) for k in reversed(list(x))} if isinstance(x, (dict, FrozenDict)) else x
        ps = flip(opt.state.param_states)
        opt = opt.replace(state=opt.state.replace(param_states=freeze(ps) if isinstance(opt.state.param_states, FrozenDict) else ps))
      if t == 2:  # save and restore in between
        sd = jax.tree_util.tree_map(np.asarray, opt.state_dict())
        fresh = adafactor.Adafactor(**kw).create(jax.tree_util.tree_map(jnp.zeros_like, opt.target))
        ok, opt = ck.guarded('restoring', lambda: jax.tree_util.tree_map(jnp.asarray, fresh.restore_state(sd)), case)
        if not ok:
          return
      ok, opt = ck.guarded('updating', lambda: opt.apply_gradient(freeze(gt) if frozen else gt, **over), dict(case, step=t))
      if not ok:
        return
      ck.transition()
      ck.expect(int(opt.state.step) == t + 1, 'step count', case, t + 1, opt.state.step)
      for n, (shape, roles) in leaves.items():
        ref = refs[n]
        sp = None
        if scale_map is not None:
          import re
          sp = next(v for r, v in scale_map if re.search(r, n))
        want = ref.step(t, cur[n], clipped[n], None if lrs is None else lrs[t], sp)
        got = get(opt.target, n)
        c = dict(case, parameter=n, shape=shape, roles=roles, step=t, gradients=kinds[:t + 1])
        ck.expect(got.dtype == jnp.float32 and close(got, want, tol, np.abs(cur[n]) + np.abs(want - cur[n])), 'parameter after the update', c, want, got)
        st = get(opt.state.param_states, n)
        if ref.fact:
          vr, vc = np.squeeze(ref.vr, ref.cols), np.squeeze(ref.vc, ref.rows)
          ck.expect(close(st.v_row, vr, tol) and close(st.v_col, vc, tol), 'row and column statistics', c,
                    [vr, vc], [st.v_row, st.v_col])
          ck.expect(st.v.size <= 1 or not ref.rows or not ref.cols,
                    'full statistics are stored though the parameter is factored', c, None, st.v)
        else:
          ck.expect(close(st.v, ref.v, tol), 'second moment', c, ref.v, st.v)
          ck.expect(st.v_row.size <= 1 and st.v_col.size <= 1, 'unused statistics are stored', c)
        if ref.hp['beta1'] is not None:
          ck.expect(close(st.m, ref.m, max(tol, 1e-4)), 'momentum', c, ref.m, st.m)
        else:
          ck.expect(st.m.size <= 1, 'unused momentum is stored', c)
        # the reference continues from the implementation's values
        cur[n] = np.asarray(got, np.float64)
        if ref.fact:
          ref.vr = np.expand_dims(np.asarray(st.v_row, np.float64), ref.cols)
          ref.vc = np.expand_dims(np.asarray(st.v_col, np.float64), ref.rows)
        else:
          ref.v = np.asarray(st.v, np.float64)
        if ref.hp['beta1'] is not None:
          ref.m = np.asarray(st.m, np.float64)

  # ---- hyperparameters
  ck.part('hyperparameters')
  leaves = {'a/kernel': ((4, 6), None), 'b/w': ((5, 4), None), 'small': ((2, 6), None), 'bias': ((6,), None),
            's': ((), None), 'one': ((1,), None)}
  grid = dict(
      factored=[True, False], multiply_by_parameter_scale=[True, False], beta1=[None, 0.9],
      weight_decay_rate=[None, 0.01], weight_decay_rate_lr_exponent=[None, 2.0],
      clipping_threshold=[1.0, None], global_norm_clip_threshold=[None, 0.5],
      max_parameter_scale=[None, 0.2], step_offset=[0], skip_nan_updates=[False, True])
  names = list(grid)
  for i, vals in enumerate(itertools.product(*grid.values())):
    hp = dict(zip(names, vals), min_dim_size_to_factor=4)
    flips = sum(v != grid[k][0] for k, v in hp.items() if k in grid)
    if not ck.thorough and flips > 3 and i % 7:
      continue
    ck.case(vals, sample=hp if i == 100 else None)
    use = leaves if ck.thorough or flips <= 2 else {k: leaves[k] for k in ('a/kernel', 'small')}
    explore(hp, hp, use, ('plain', 'sparse', 'large') if flips < 3 else ('plain', 'plain'))
  for hp in (dict(decay_rate=0.5), dict(decay_rate=1.0), dict(epsilon1=0.1), dict(epsilon2=0.5), dict(step_offset=-3),
             dict(clipping_threshold=2.5), dict(learning_rate=3.0, weight_decay_rate=0.1),
             dict(learning_rate=0.5, weight_decay_rate=0.3, weight_decay_rate_lr_exponent=1.0),
             dict(max_parameter_scale=1e-3), dict(epsilon2=1e-6), dict(beta1=0.5, decay_rate=0.3),
             dict(min_dim_size_to_factor=5), dict(min_dim_size_to_factor=1), dict(min_dim_size_to_factor=7)):
    hp.setdefault('min_dim_size_to_factor', 4)
    ck.case(str(hp))
    explore(hp, hp, leaves, ('plain', 'sparse', 'large', 'plain'))
    explore(dict(hp, schedule=True), hp, leaves, ('plain', 'plain', 'plain'), lrs=[0.3, 0.0, 0.02])
  for rules in itertools.product((True, False), repeat=3):
    sm = [('kernel|w$', rules[0]), ('^b', rules[1]), ('.*', rules[2])]
    ck.case(rules)
    explore(dict(scale_rules=sm), dict(min_dim_size_to_factor=4), leaves, ('plain', 'plain'), scale_map=sm)
  ck.expect_raises('an update without a learning rate', lambda: adafactor.Adafactor().create(
      {'a': jnp.ones(2)}).apply_gradient({'a': jnp.ones(2)}), None, Exception)

  # ---- dimension roles
  ck.part('dimension roles')
  shapes = {1: [(3,)], 2: [(2, 3), (1, 4)], 3: [(2, 3, 4), (3, 1, 2)], 4: [(2, 3, 1, 2), (2, 2, 3, 2)]}
  for rank in (1, 2, 3, 4):
    for roles in itertools.product('BRCN', repeat=rank):
      if rank == 4 and not ck.thorough and ('B' in roles[2:] or roles.count('N') > 1):
        continue
      for shape in shapes[rank][:None if ck.thorough else 1 + (rank < 4)]:
        for j, hp in enumerate((dict(), dict(beta1=0.9, clipping_threshold=0.5, max_parameter_scale=0.2))):
          if j and not ck.thorough and (rank == 4 or shape != shapes[rank][0]):
            continue
          ck.case((roles, shape, j), sample=dict(roles=roles, shape=shape))
          one_sided = ('R' in roles) != ('C' in roles)
          explore(dict(hp, roles=roles), dict(hp, min_dim_size_to_factor=2), {'x/y': (shape, roles)},
                  ('plain',) * (2 if one_sided or not ck.thorough else 3),
                  fmap=[('nothing', None), ('x/y', tuple(ROLE[x] for x in roles)), ('x', None)])
  ck.expect_raises('a rank three parameter without a rule', lambda: adafactor.Adafactor().create(
      {'a': jnp.ones((2, 2, 2))}), None, ValueError)
  for rank, shape in ((1, (2,)), (2, (2, 3)), (3, (2, 3, 4))):
    for n in (1, 2, 3, 4):
      if n != rank:
        ck.expect_raises('a rule of the wrong rank', lambda: adafactor.Adafactor(
            factor_map=adafactor.HParamMap([('.*', (F.ROW,) * n)])).create({'a': jnp.ones(shape)}),
                         dict(rank=rank, rule=n), ValueError)
  ck.expect_raises('rules though nothing is factored', lambda: adafactor.Adafactor(
      factored=False, factor_map=adafactor.HParamMap([('.*', None)])), None, ValueError)

  # ---- gradient histories
  ck.part('gradient histories')
  kinds = ('plain', 'zero', 'large', 'tiny', 'sparse', 'nan')
  for hist in itertools.product(kinds, repeat=ck.pick(3, 4)):
    if hist.count('nan') > 1 and not ck.thorough:
      continue
    for j, hp in enumerate((dict(skip_nan_updates=True, beta1=0.9), dict(skip_nan_updates=True, clipping_threshold=None),
                            dict(beta1=0.9))):
      if 'nan' not in hist and j:
        continue
      ck.case((hist, j))
      explore(dict(hp, gradients=hist), dict(hp, min_dim_size_to_factor=2),
              {'k': ((2, 3), None), 'b': ((3,), None)} if j else {'k': ((2, 3), None), 'b': ((), None)}, hist)

  # ---- storage types
  ck.part('storage types')
  for pd, md, beta in itertools.product(('float32', 'bfloat16'), ('float32', 'bfloat16'), (None, 0.9)):
    case = dict(parameters=pd, momentum=md, beta1=beta)
    ck.case(str(case))
    p = {'k': jnp.asarray(np.random.RandomState(0).randn(4, 4), pd), 'b': jnp.ones((3,), pd)}
    d = adafactor.Adafactor(0.1, beta1=beta, dtype_momentum=jnp.dtype(md), min_dim_size_to_factor=2)
    o = d.create(p)
    for n in p:
      st = o.state.param_states[n]
      ck.expect(all(x.dtype == jnp.float32 for x in (st.v, st.v_row, st.v_col)) and (beta is None or st.m.dtype == md),
                'types of the initial statistics', dict(case, n=n), None, [x.dtype for x in (st.v, st.v_row, st.v_col, st.m)])
    refs = {n: Ref(dict(beta1=beta, min_dim_size_to_factor=2), None, p[n].shape) for n in p}
    for t in range(3):
      g = {n: jnp.asarray(grad('plain', p[n].shape, t), pd) for n in p}
      before = o
      o = o.apply_gradient(g)
      for n in p:
        want = refs[n].step(t, np.asarray(before.target[n], np.float64), np.asarray(g[n], np.float64))
        tol = 2e-2 if pd == 'bfloat16' else 2e-5
        # the stored momentum may be scaled in its own type; what is new in the update is not rounded to it
        room = np.abs(np.asarray(before.state.param_states[n].m, np.float64)) * 2 ** -8 if beta and md == 'bfloat16' else 0
        ck.expect(o.target[n].dtype == pd and close(o.target[n], want, tol, 1.0 + np.max(room) / tol), 'parameter', dict(case, n=n, t=t), want, o.target[n])
        st = o.state.param_states[n]
        ck.expect(all(x.dtype == jnp.float32 for x in (st.v, st.v_row, st.v_col)), 'statistics are not kept in float32', case)
        ck.expect(beta is None or st.m.dtype == md, 'storage type of the momentum', case, md, st.m.dtype)
        refs[n].m = np.asarray(st.m, np.float64) if beta else refs[n].m
