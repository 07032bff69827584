"""M07: metrics do not depend on how the data was grouped and merged."""
import itertools

import numpy as np

LEVEL = 'model_checking'
RULE = ('state = multiset of partial results merged so far; transition = one '
        'real merge; all merge trees over all orders of up to 5 leaves, then '
        'all set-steps / set-duration orders and compute; batch metrics for all '
        'splits of small batches into chunks')
ASSUMPTIONS = ['step counts and durations are set on merged metrics as documented']


def trees(items):
  """All binary merge trees over the items in order."""
  if len(items) == 1:
    yield items[0]
    return
  for i in range(1, len(items)):
    for a in trees(items[:i]):
      for b in trees(items[i:]):
        yield (a, b)


def check(ck):
  import jax
  import jax.numpy as jnp
  from clu import metrics as clu_metrics
  from t5x import metrics as M
  from t5x import models

  vals = [0.0, 1.5, -2.0, [1.0, 2.0, -4.0], [[3.0, 1.0], [0.5, -2.0]]]

  def tot(i):
    return float(np.sum(vals[i]))

  def leaf(kind, i):
    v = jnp.asarray(vals[i])
    if kind == 'sum':
      return M.Sum.from_model_output(v)
    if kind == 'avg':
      return M.AveragePerStep.from_model_output(v)
    if kind == 'avg3':
      return M.AveragePerStep.from_model_output(v, steps=i + 1)
    if kind == 'rate':
      return M.TimeRate.from_model_output(jnp.asarray(tot(i)))
    if kind == 'spt':
      return M.StepsPerTime.from_model_output()
    if kind == 'spt3':
      return M.StepsPerTime.from_model_output(steps=i + 1)
    if kind == 'time':
      return M.Time()
    raise ValueError(kind)

  def close(a, b):
    return np.allclose(np.asarray(a, np.float64), b, rtol=1e-5, atol=1e-6)

  nmax = ck.pick(4, 5)
  for kind in ['sum', 'avg', 'avg3', 'rate', 'spt', 'spt3', 'time']:
    ck.part(f'merge trees: {kind}')
    memo = {}

    def build(t):
      if t in memo:
        return memo[t]
      if isinstance(t, int):
        r = leaf(kind, t)
      else:
        a, b = build(t[0]), build(t[1])
        ck.transition()
        r = a.merge(b)
      memo[t] = r
      return r

    def leaves(t):
      return [t] if isinstance(t, int) else leaves(t[0]) + leaves(t[1])

    for n in range(1, nmax + 1):
      for sub in itertools.combinations(range(5), n):
        for order in itertools.permutations(sub):
          for t in trees(order):
            ok, r = ck.guarded('merge', lambda: build(t), dict(kind=kind, tree=t))
            if not ok:
              continue
            ck.state((kind, tuple(sorted(leaves(t)))))
            ck.trace()
            ck.case(n=1, sample=dict(kind=kind, tree=t))
            total = sum(tot(i) for i in sub)
            steps = sum((i + 1) if kind.endswith('3') else 1 for i in sub)
            case = dict(kind=kind, tree=t)
            if kind == 'sum':
              ck.expect(close(r.compute(), total), 'merged sum', case, total, r.compute())
            elif kind in ('avg', 'avg3'):
              ck.expect(close(r.compute(), total / steps), 'merged average per step',
                        case, total / steps, r.compute())
            elif kind == 'rate':
              if order == sub:
                ck.expect_raises('rate without duration', r.compute, case, ValueError)
              r2 = r.replace_duration(4.0)
              ck.expect(close(r2.compute(), total / 4), 'merged rate', case,
                        total / 4, r2.compute())
            elif kind.startswith('spt'):
              if order == sub:
                ck.expect_raises('rate without duration', r.compute, case, ValueError)
              r2 = r.replace_duration(4.0)
              ck.expect(close(r2.compute(), steps / 4), 'merged steps per time', case,
                        steps / 4, r2.compute())
            elif kind == 'time':
              if order == sub:
                ck.expect_raises('time without duration', r.compute, case, ValueError)
              ck.expect(close(r.replace_duration(2.5).compute(), 2.5),
                        'merged time', case, 2.5)

  # ---- set steps / duration on a metric tree, in either order, repeatedly
  ck.part('set steps and duration')

  def tree():
    return {'a': leaf('sum', 3), 'b': {'c': leaf('avg', 1), 'd': leaf('rate', 3)},
            'e': leaf('spt', 0), 'f': leaf('time', 0),
            'g': clu_metrics.Average(total=jnp.asarray(6.), count=jnp.asarray(4))}

  ops = [('steps', 2), ('steps', 5), ('dur', 4.0), ('dur', 0.5)]
  for seq in [s for k in range(1, 5) for s in itertools.product(ops, repeat=k)]:
    t = tree()
    st, du, avg_steps = 1, None, 1
    for o, v in seq:
      ck.transition()
      if o == 'steps':
        t = M.set_step_metrics_num_steps(t, v)
        st = v
      else:
        t = M.set_time_metrics_duration(t, v)
        du = v
    ck.state(('set', st, du))
    ck.trace()
    ck.case(sample=dict(sequence=seq))
    exp = dict(a=-1.0, c=1.5 / st, g=1.5)
    got = dict(a=t['a'].compute(), c=t['b']['c'].compute(), g=t['g'].compute())
    if du is not None:
      exp.update(d=-1.0 / du, e=st / du, f=du)
      got.update(d=t['b']['d'].compute(), e=t['e'].compute(), f=t['f'].compute())
    else:
      for m in (t['b']['d'], t['e'], t['f']):
        ck.expect_raises('duration unset', m.compute, seq, ValueError)
    ck.expect(all(close(got[k], exp[k]) for k in exp), 'metric tree values after '
              'setting steps and duration', seq, exp, {k: float(v) for k, v in got.items()})
  # Steps that were never known must not be read.
  for m in (M.AveragePerStep(total=jnp.asarray(1.), steps=None),
            M.StepsPerTime(steps=None, duration=2.0)):
    ck.expect_raises('steps unset', m.compute, repr(m), ValueError)
  ck.expect_raises('total unset', M.AveragePerStep(steps=2).compute, None, ValueError)

  # ---- zero element built from abstract shapes is neutral
  ck.part('zero from shapes')
  for kind in ['sum', 'avg', 'avg3', 'rate', 'spt3']:
    for i in range(5):
      m = leaf(kind, i)
      shp = jax.eval_shape(lambda: leaf(kind, i))
      z = M.shape_obj_to_defined_obj(shp)
      ck.expect(type(z) is type(m), 'zero metric type', kind)
      if kind != 'spt3':
        first = jax.tree.leaves(m)[0]
        ck.expect(np.shape(first) == (), 'totals of a batch are not scalars', dict(kind=kind, i=i), (), np.shape(first))
      for mm in (z.merge(m), m.merge(z)):
        ck.transition()
        ck.case((kind, i))
        a, b = jax.tree.leaves(mm), jax.tree.leaves(m)
        ck.expect(len(a) == len(b) and all(close(x, y) for x, y in zip(a, b)),
                  'merging a zero-initialized metric changes it',
                  dict(kind=kind, i=i), b, a)
      for x, y in zip(jax.tree.leaves(z), jax.tree.leaves(shp)):
        ck.expect(x.shape == y.shape and x.dtype == y.dtype and not np.any(x),
                  'zero metric has wrong shape or value', dict(kind=kind, i=i))

  # ---- counting packed examples
  ck.part('packed example count')
  L = ck.pick(5, 6)
  rows = []
  for lay in itertools.product([0, 1], repeat=L):  # 1: a new example starts
    for pad in range(L + 1):
      for start in (1, 3):
        r, cur = [], start
        for j in range(L - pad):
          if lay[j] and j:
            cur += 1
          r.append(cur)
        rows.append((tuple(r + [0] * pad), len(set(r))))
  rows = sorted(set(rows))
  cnt = jax.jit(jax.vmap(models.count_packed_examples))
  pairs = [(a, b) for a in rows for b in rows]
  got = np.asarray(cnt(np.array([[a[0], b[0]] for a, b in pairs], np.int32)))
  for (a, b), g in zip(pairs, got):
    ck.case()
    if int(g) != a[1] + b[1]:
      ck.violation('wrong number of packed examples', dict(rows=[a[0], b[0]]),
                   a[1] + b[1], int(g))
  ck.case('count')

  # ---- the metrics of a batch, split in every way and merged
  ck.part('base metrics over batch splits')
  B, Lb, V = 3, 2, 3
  combos = list(itertools.product([0, 1, 2], repeat=Lb))
  pick = [(a, b, c) for a in combos for b in combos for c in combos]
  step = ck.pick(7, 1)
  base_logits = np.array([[[0.1, 2.0, -1.0], [1.0, 0.0, 3.0]],
                          [[5.0, 2.0, 1.0], [-1.0, 0.5, 0.0]],
                          [[0.0, 0.25, -2.0], [2.0, 1.0, 0.0]]], np.float32)

  def metrics(lo, t, m, seg, z):
    per = jnp.sum(lo * 0.125, -1) * m
    loss = jnp.sum(per)
    zl = loss * 0.25 if z else None
    return models.compute_base_metrics(
        logits=lo, targets=t, mask=m, loss=loss, z_loss=zl,
        segment_ids={'enc': seg, 'none': None, 'one': seg[:, :1]} if seg is not None else None)

  jm = {}
  for z in (False, True):
    for s in (False, True):
      jm[z, s] = jax.jit(lambda lo, t, m, seg, z=z: metrics(lo, t, m, seg, z)) if s else (
          jax.jit(lambda lo, t, m, seg=None, z=z: metrics(lo, t, m, None, z)))
  mask_pats = [np.array([[1, 1], [1, 0], [1, 1]], np.float32),
               np.array([[0, 1], [0, 0], [1, 0]], np.float32),
               np.ones((3, 2), np.float32)]
  splits = [[3], [1, 2], [2, 1], [1, 1, 1]]
  segs = np.array([[1, 2], [1, 0], [1, 1]], np.int32)

  def computed(mm, steps):
    mm = M.set_step_metrics_num_steps(mm, steps)
    mm = M.set_time_metrics_duration(mm, 2.0)
    return {k: np.asarray(v.compute(), np.float64) for k, v in mm.items()}

  merge = jax.jit(lambda a, b: jax.tree.map(
      lambda x, y: x.merge(y), a, b, is_leaf=M.is_metric_obj))
  for tg in pick[::step]:
    t = np.array(tg, np.int32)
    for mi, mask in enumerate(mask_pats):
      for z, s in jm:
        segb = segs if s else None
        n_tok = B * Lb
        nonpad = mask.sum()
        loss = (base_logits.sum(-1) * 0.125 * mask).sum()
        corr = ((base_logits.argmax(-1) == t) * mask).sum()
        nd = jax.device_count()
        for sp in splits:
          acc, i = None, 0
          for n in sp:
            sl = slice(i, i + n)
            i += n
            args = (base_logits[sl], t[sl], mask[sl]) + ((segb[sl],) if s else ())
            m = jm[z, s](*args)
            ck.transition()
            acc = m if acc is None else merge(acc, m)
          if mi == 1 and nonpad == 0:
            continue
          got = computed(acc, len(sp))
          k = len(sp)
          exp = {
              'accuracy': corr / nonpad, 'loss': loss / k,
              'loss_per_nonpadding_target_token': loss / nonpad,
              'loss_per_all_target_tokens': loss / n_tok,
              'timing/seqs_per_second': B / 2.0,
              'timing/steps_per_second': k / 2.0, 'timing/seconds': 2.0,
              'timing/seqs': B, 'timing/seqs_per_second_per_core': B / nd / 2.0,
              'timing/target_tokens_per_second': n_tok / 2.0,
              'timing/target_tokens_per_second_per_core': n_tok / nd / 2.0,
              'non_padding_fraction/loss_weights': nonpad / n_tok,
          }
          if z:
            zl = loss * 0.25
            exp.update({'z_loss': zl / k, 'z_loss_per_all_target_tokens': zl / n_tok,
                        'cross_ent_loss': (loss - zl) / k,
                        'cross_ent_loss_per_all_target_tokens': (loss - zl) / n_tok})
          if s:
            exp.update({'effective_batch_size/enc': 4 / k,
                        'non_padding_fraction/enc': 5 / 6,
                        'effective_batch_size/one': 3 / k, 'non_padding_fraction/one': 1.0,
                        'non_padding_fraction/overall': 8 / 9})
          ck.state(('batch', k, z, s, mi))
          ck.trace()
          ck.case((tg, mi, z, s, tuple(sp)), sample=dict(targets=t, split=sp))
          bad = {kk: (exp[kk], float(got.get(kk, np.nan))) for kk in exp
                 if kk not in got or not close(got[kk], exp[kk])}
          ck.expect(not bad, 'merged batch metrics differ from the data',
                    dict(targets=t, mask=mask, split=sp, z=z), None, bad)
