"""T02: microbatched gradients, metrics and randomness equal the full-batch step."""
import itertools

import numpy as np

TECHNIQUE = 'enum'
LEVEL = 'exploration'
MANUAL_GC = True  # trainers close threads when collected
RULE = ('every batch size and microbatch count up to the bound (divisors and non-divisors, None, 0, 1) x every '
        'batch over a small alphabet of exactly representable values; every way of cutting a run into restarted '
        'segments; distinct = (size, count, batch) or (configuration, cut)')
ASSUMPTIONS = ['loss and gradients are sums over examples, as T5X models are required to provide']


def check(ck):
  import clu.metrics as cm
  import flax
  import jax
  import jax.numpy as jnp
  from flax import traverse_util
  from t5x import adafactor, metrics as M, optimizers, partitioning, train_state as ts_lib, trainer as tl
  flat = lambda t: traverse_util.flatten_dict(flax.core.unfreeze(t), sep='/')

  class Model:
    """Sums over examples; with mutables it logs the rows and the rngs it was called with."""

    def __init__(self, mutable):
      self.mutable = mutable

    def loss_fn(self, params, batch, rng, flax_mutables=None):
      x, y, z, wt = (batch[k] for k in ('x', 'y', 'z', 'wt'))
      dot = x @ params['w']
      per = wt * (dot * y + jnp.einsum('ij,bij->b', params['b']['k'], z) + dot * dot)
      loss = per.sum()
      metrics = {
          'loss': M.AveragePerStep.from_model_output(loss),
          'sum': M.Sum.from_model_output(per),
          'mean': cm.Average.from_model_output(y, mask=wt.astype(bool)),
          'rate': M.TimeRate.from_model_output(wt.sum()),
          'steps': M.StepsPerTime.from_model_output(),
      }
      if flax_mutables is None:
        return loss, metrics
      i = flax_mutables['i']
      n = y.shape[0]
      raw = jax.random.key_data(rng) if jnp.issubdtype(rng.dtype, jax.dtypes.prng_key) else rng
      new = {
          'i': i + 1,
          'rows': jax.lax.dynamic_update_slice(flax_mutables['rows'], y, (i * n,)),
          'keys': jax.lax.dynamic_update_slice(flax_mutables['keys'], raw[None], (i, 0)),
          'last': y[-1] * 1.0,
      }
      return loss, (metrics, type(flax_mutables)(new) if isinstance(flax_mutables, flax.core.FrozenDict) else new)

    def eval_fn(self, params, batch, flax_mutables=None):
      loss, aux = self.loss_fn(params, batch, jnp.zeros(2, jnp.uint32), flax_mutables)
      return loss, aux if flax_mutables is None else aux[0]

  class TS:
    def __init__(self, params, mutables):
      self.params, self.flax_mutables = params, mutables

  def mut(size):
    return {'i': jnp.int32(0), 'rows': jnp.full((size,), -9.), 'keys': jnp.zeros((size, 2), jnp.uint32),
            'last': jnp.float32(-9)}

  params = {'w': jnp.array([1., -2., 3.]), 'b': {'k': jnp.array([[1., 2.], [0., -1.]])}}
  w, k = np.array([1., -2., 3.]), np.array([[1., 2.], [0., -1.]])

  def batches(B):
    """All y-rows and weights over the alphabet, with rows that differ by position."""
    yw = list(itertools.product(((0., 1.), (2., 1.), (-1., 1.), (3., 0.))[:4 if B <= ck.pick(4, 5) else 2], repeat=B))
    y = np.array([[a for a, _ in r] for r in yw], np.float32)
    wt = np.array([[b for _, b in r] for r in yw], np.float32)
    n = len(yw)
    pos = np.arange(B, dtype=np.float32)
    x = np.stack([pos + y, 1 - pos + 0 * y, 0 * y + (pos % 3)], -1).astype(np.float32)
    z = np.stack([np.stack([y, pos + 0 * y], -1), np.stack([pos * y, 1 + 0 * y], -1)], -2).astype(np.float32)
    return n, {'x': x, 'y': y, 'z': z, 'wt': wt}

  def reference(b):
    x, y, z, wt = b['x'], b['y'], b['z'], b['wt']
    dot = x @ w
    per = wt * (dot * y + np.einsum('ij,...bij->...b', k, z) + dot ** 2)
    return {'w': np.einsum('nb,nbi->ni', wt * (y + 2 * dot), x), 'b/k': np.einsum('nb,nbij->nij', wt, z)}, per

  # ---- accumulate_grads_microbatched
  ck.part('microbatches')
  rng = jax.random.PRNGKey(7)
  for B in range(1, ck.pick(9, 13)):
    n, data = batches(B)
    grads_want, per = reference(data)
    for mutable in (False, True):
      for nm in [None, 0] + list(range(1, B + 3)):
        for frozen in (False, True) if mutable and B in (2, 4) else (False,):
          m = nm or 1
          case = dict(batch=B, microbatches=nm, mutables=mutable)
          init = mut(max(B, m)) if mutable else {}
          if frozen:
            init = flax.core.freeze(init)
          step = lambda b, nm=nm, init=init, mutable=mutable: tl.accumulate_grads_microbatched(
              Model(mutable), TS(params, init), b, rng, nm)
          if B % m:
            ck.case((B, nm, mutable))
            ck.expect_raises('an indivisible batch', lambda: jax.eval_shape(step, jax.tree.map(lambda a: a[0], data)),
                             case, AssertionError)
            continue
          ck.case((B, nm, mutable, frozen), n=n, sample=case if (B, nm) == (6, 3) else None)
          ok, out = ck.guarded('accumulating gradients', lambda: jax.jit(jax.vmap(step))(data), case)
          if not ok:
            continue
          g, met, mu = jax.tree.map(np.asarray, out)
          g = flat(g)
          for name, want in grads_want.items():
            bad = np.nonzero((g[name] != want).reshape(n, -1).any(1))[0]
            ck.expect(not len(bad), 'gradient of %s' % name, dict(case, y=data['y'][bad[:1]]), want[bad[:1]],
                      g[name][bad[:1]])
            ck.expect(g[name].dtype == np.float32, 'gradient dtype', case, 'float32', g[name].dtype)
          met = M.set_step_metrics_num_steps(M.set_time_metrics_duration(met, 2.0), 1)
          with np.errstate(all='ignore'):
            mean = (data['y'] * data['wt']).sum(1) / data['wt'].sum(1)
          got = {a: np.asarray(jax.vmap(lambda v: v.compute())(jax.tree.map(jnp.asarray, met[a])) if a == 'mean' else
                               met[a].compute()) for a in met}
          want = {'loss': per.sum(1), 'sum': per.sum(1), 'rate': data['wt'].sum(1) / 2, 'steps': np.full((), .5),
                  'mean': mean}
          ck.expect(set(got) == set(want), 'metrics', case, sorted(want), sorted(got))
          for a in want:
            same = np.isclose(got[a], want[a], rtol=1e-6, equal_nan=True) if a == 'mean' else got[a] == want[a]
            bad = np.nonzero(~np.broadcast_to(same, (n,)))[0]
            ck.expect(not len(bad), 'metric %s' % a, dict(case, y=data['y'][bad[:1]], wt=data['wt'][bad[:1]]),
                      np.broadcast_to(want[a], (n,))[bad[:1]], np.broadcast_to(got[a], (n,))[bad[:1]])
          if not mutable:
            ck.expect(mu is None or not jax.tree.leaves(mu), 'mutables appear', case, None, mu)
          else:
            ck.expect((mu['i'] == m).all(), 'calls of the model', case, m, mu['i'][:1])
            ck.expect((mu['rows'][:, :B] == data['y']).all(), 'rows seen, in order', case, data['y'][:2], mu['rows'][:2])
            ck.expect((mu['last'] == data['y'][:, -1]).all(), 'mutables of the last microbatch', case)
            keys = {tuple(r) for r in mu['keys'][0][:m]}
            ck.expect(len(keys) == m and (mu['keys'] == mu['keys'][:1]).all(), 'dropout rng per microbatch', case,
                      '%d distinct' % m, sorted(keys))

  # ---- whole steps
  ck.part('updated state')
  opts = {
      'sgd': lambda: optimizers.sgd(learning_rate=0.5),
      'adafactor': lambda: adafactor.Adafactor(learning_rate=0.5, min_dim_size_to_factor=2, clipping_threshold=None,
                                               epsilon1=1e-30, multiply_by_parameter_scale=False),
  }
  partr = partitioning.PjitPartitioner(num_partitions=1)

  defs = {a: f() for a, f in opts.items()}

  class Cached:
    """The real partitioner; the step of one configuration is compiled once for all of its segments."""

    def __init__(self):
      self.fn = None

    def __getattr__(self, a):
      return getattr(partr, a)

    def partition(self, fn, **kw):
      if self.fn is None:
        self.fn = partr.partition(fn, **kw)
      return self.fn

  def make(opt, mutables=None, p=params):
    o = defs[opt].create(jax.tree.map(jnp.array, p))
    return ts_lib.FlaxOptimTrainState(o, flax_mutables=flax.core.freeze(mutables) if mutables else flax.core.FrozenDict())

  def state_np(s):
    return {a: np.asarray(v) for a, v in flat(flax.serialization.to_state_dict(s.state_dict())).items()}

  B = 6
  n, data = batches(B)
  chosen = [jax.tree.map(lambda a: jnp.asarray(a[i]), data) for i in range(1, n, n // ck.pick(4, 12))]
  for opt in opts:
    for mutable in (False, True):
      outs = {}
      for nm in (None, 1, 2, 3, 6):
        def step(s, b, nm=nm, mutable=mutable):
          return tl.train_with_lr(s, b, 0.25, rng, Model(mutable), nm, tl.WeightMetricsComputer())
        f = jax.jit(step)
        for bi, b in enumerate(chosen):
          case = dict(optimizer=opt, microbatches=nm, mutables=mutable, y=b['y'])
          ck.case(('step', opt, mutable, nm, bi))
          ok, out = ck.guarded('one step', lambda: f(make(opt, mut(B) if mutable else None), b), case)
          if not ok:
            continue
          s, met = out
          got = {a: v for a, v in state_np(s).items() if 'flax_mutables' not in a}
          ck.expect(int(s.step) == 1, 'step counter', case, 1, int(s.step))
          if mutable:
            rows = np.asarray(s.flax_mutables['rows'])
            ck.expect((rows == np.asarray(b['y'])).all(), 'mutables of the new state', case, b['y'], rows)
          if nm is None:
            outs[bi] = got, met
            new, g = np.asarray(s.params['w']), np.asarray(reference({a: np.asarray(v)[None] for a, v in b.items()})[0]['w'])[0]
            if opt == 'sgd':
              ck.expect((new == w - 0.5 * g).all() or (new == w - 0.25 * g).all(), 'sgd update', case, w - 0.25 * g, new)
            val = lambda a: float(np.asarray(met[a].replace_steps(1).compute()))
            gk = np.asarray(reference({a: np.asarray(v)[None] for a, v in b.items()})[0]['b/k'])[0]
            rms = lambda a: float(np.sqrt(np.mean(np.square(np.asarray(a, np.float64)))))
            want = {'weight_rms/w': rms(new), 'weight_gradient_rms/w': rms(g), 'weight_gradient_rms/b/k': rms(gk),
                    'weight_gradient_norm': float(np.sqrt((g ** 2).sum() + (gk ** 2).sum())),
                    'weight_update_rms/w': rms(new - w), 'weight_max/w': float(np.abs(new).max()),
                    'weight_update_divided_by_weight_rms/w': rms((new - w) / w)}
            for a, v in want.items():
              ck.expect(a in met and np.isclose(val(a), v, rtol=1e-5), 'metric %s' % a, case, v, a in met and val(a))
          else:
            base, met0 = outs[bi]
            bad = [a for a in base if not np.array_equal(base[a], got.get(a))]
            ck.expect(not bad and set(base) == set(got), 'updated state', case, {a: base[a] for a in bad[:1]},
                      {a: got.get(a) for a in bad[:1]})
            for a in ('learning_rate', 'learning_rate/current'):
              ck.expect(float(met[a].compute()) == 0.25, 'reported learning rate', case, .25, float(met[a].compute()))
            ck.expect(set(met) == set(met0), 'metric names', case, sorted(met0), sorted(met))

  # ---- per-step randomness and restarts
  ck.part('restarted runs')
  total = ck.pick(4, 6)

  def logmut():
    return {'i': jnp.int32(0), 'rows': jnp.full((12 * total,), -9.), 'keys': jnp.zeros((12 * total, 2), jnp.uint32),
            'last': jnp.float32(-9)}
  lr = lambda s: 0.5 / (1. + s)
  logs = {}
  ax = None
  for opt, nm, seed, by_step, start in itertools.product(opts, (None, 2), (0, 1), (False, True), (0, 5)):
    if by_step and seed or start and (opt == "adafactor" or by_step) and not ck.thorough:
      continue
    base = jax.random.PRNGKey(seed)

    cached = Cached()

    def trainer(state, fresh, nm=nm, base=base, cached=cached):
      axes = jax.tree.map(lambda _: partitioning.PartitionSpec(), state)
      return tl.Trainer(model=Model(True), train_state=state, partitioner=partr if fresh else cached, eval_names=(), summary_dir=None,
                        train_state_axes=axes, rng=base, learning_rate_fn=lr, num_microbatches=nm)

    def run(cuts, fresh=False, by_step=by_step):
      s = make(opt, logmut())
      s = s.replace_step(jnp.asarray(start, jnp.int32)) if start else s
      done = 0
      for c in cuts:
        t = trainer(s, fresh)
        try:
          its = iter([jax.tree.map(jnp.asarray, chosen[(start + i) % len(chosen)]) for i in range(done, done + c)])
          if by_step:
            for i in range(c):
              t.train(its, 1, start_step=start + done + i)
          else:
            t.train(its, c)
          s = t.train_state
          done += c
          # the state goes through a checkpoint-like round trip
          host = jax.tree.map(np.asarray, s.state_dict())
          s = make(opt, logmut()).restore_state(host)
          s = jax.tree.map(jnp.asarray, s)
        finally:
          t.close()
      return state_np(s)

    ok, want = ck.guarded('an uninterrupted run', lambda: run((total,)), dict(optimizer=opt, microbatches=nm))
    if not ok:
      continue
    ki = [a for a in want if a.endswith('keys')][0]
    used = total * (nm or 1)
    keys = [tuple(r) for r in want[ki][:used]]
    logs[opt, nm, seed, by_step, start] = keys
    ck.expect(len(set(keys)) == used, 'dropout rngs of different steps', dict(optimizer=opt, microbatches=nm, seed=seed),
              '%d distinct' % used, len(set(keys)))
    for bits in range(1, 2 ** (total - 1)):
      cuts, cur = [], 1
      for i in range(total - 1):
        if bits >> i & 1:
          cuts.append(cur)
          cur = 1
        else:
          cur += 1
      cuts.append(cur)
      case = dict(optimizer=opt, microbatches=nm, seed=seed, first=start, segments=cuts, one_step_calls=by_step)
      ck.case(('cut', opt, nm, seed, by_step, start, tuple(cuts)), sample=case if bits == 2 else None)
      ok, got = ck.guarded('a restarted run', lambda: run(cuts, fresh=bits in (1, 2) and not seed), case)
      if ok:
        bad = [a for a in want if not np.array_equal(want[a], got.get(a))]
        ck.expect(not bad, 'restarted run differs', case, {a: want[a] for a in bad[:1]}, {a: got.get(a) for a in bad[:1]})
  for (opt, nm, seed, by, start), keys in logs.items():
    other = logs.get((opt, nm, 1 - seed, by, start))
    if other:
      ck.expect(not set(keys) & set(other), 'rngs of different seeds', dict(microbatches=nm, first=start))
    per = nm or 1
    if start == 0:
      later = logs.get((opt, nm, seed, by, 5))
      ck.expect(later is None or not set(keys[:total * per]) & set(later) or total > 5,
                'rng of a step does not depend on the step', dict(microbatches=nm))
    ref = logs.get(('sgd', nm, seed, False, start))
    ck.expect(ref is None or ref == keys, 'rngs depend on more than seed and step', dict(optimizer=opt, microbatches=nm))

  # ---- what a trainer reports
  ck.part('reports of a trainer')

  class Rep:
    """Metrics of one batch: its sum, count and mean, scaled by weight and mutable."""

    def loss_fn(self, params, batch, rng, flax_mutables=None):
      s = self.f(params, batch, flax_mutables)
      loss = (params['w'] ** 2).sum() / 2
      return loss, (s, flax_mutables) if flax_mutables else s

    def f(self, params, batch, mutables):
      x = batch['x'].astype(jnp.float32)
      k = params['w'][0] * (mutables['k'] if mutables else 1.)
      return {'sum': M.Sum.from_model_output(x.sum() * k), 'mean': cm.Average.from_model_output(x.reshape(-1)),
              'per_step': M.AveragePerStep.from_model_output(x.sum() * k), 'rows': M.Sum.from_model_output(jnp.float32(x.shape[0])),
              'int': M.Sum.from_model_output(jnp.float32(jnp.issubdtype(batch['x'].dtype, jnp.integer)))}

    def eval_fn(self, params, batch, flax_mutables=None):
      return jnp.float32(0), self.f(params, batch, flax_mutables)

  # every batch specification: shape x type
  specs = [((2,), np.float32), ((3,), np.float32), ((2, 2), np.float32), ((2,), np.int32), ((3,), np.int32)]
  par2 = {'w': jnp.array([2., 1.])}

  def fill(spec, i):
    return {'x': (np.arange(np.prod(spec[0])).reshape(spec[0]) + i + 1).astype(spec[1])}
  for mutable, compiled in itertools.product((False, True), (False, True, 'late')):
    mutables = {'k': jnp.float32(3)} if mutable else None
    state = make('sgd', mutables, par2)
    axes = jax.tree.map(lambda _: partitioning.PartitionSpec(), state)
    for a, b in itertools.product(range(len(specs)), repeat=2):
      for na, nb in ck.pick([(2, 1)], [(2, 1), (1, 3)]):
        if a > b and not ck.thorough:
          continue
        case = dict(mutables=mutable, compiled=compiled, sets=[(specs[i][0], np.dtype(specs[i][1]).name, n) for i, n in ((a, na), (b, nb))])
        ck.case(str(case), sample=case if (a, b) == (0, 3) else None)
        t = tl.Trainer(model=Rep(), train_state=state, partitioner=partr, eval_names=('a', 'b'), summary_dir=None,
                       train_state_axes=axes, rng=jax.random.PRNGKey(0), learning_rate_fn=lr, num_microbatches=None)

        def go(t=t, a=a, b=b, na=na, nb=nb, compiled=compiled):
          out = []
          if compiled is True:
            t.compile_eval({'a': fill(specs[a], 0), 'b': fill(specs[b], 0)})
          for rep in range(2):
            if compiled == 'late' and rep == 1:
              t.compile_eval({'b': fill(specs[b], 0), 'a': fill(specs[a], 0)})
            out.append(t.eval({'a': iter([fill(specs[a], i) for i in range(na)]), 'b': iter([fill(specs[b], 5 + i) for i in range(nb)])}))
          return out
        try:
          ok, outs = ck.guarded('evaluating', go, case)
        finally:
          t.close()
        if not ok:
          continue
        for out in outs:
          ck.expect(set(out) == {'a', 'b'}, 'evaluated sets', case, None, sorted(out))
          for nm_, i, first, n_ in (('a', a, 0, na), ('b', b, 5, nb)):
            xs = [fill(specs[i], first + j)['x'].astype(np.float64) for j in range(n_)]
            tot = sum(x.sum() for x in xs) * 2 * (3 if mutable else 1)
            want = {'sum': tot, 'mean': np.mean([v for x in xs for v in x.reshape(-1)]), 'per_step': tot / n_,
                    'rows': sum(len(x) for x in xs), 'int': n_ * (specs[i][1] == np.int32)}
            got = {m_: float(np.asarray(getattr(out[nm_][m_], 'value', out[nm_][m_]))) for m_ in want if m_ in out[nm_]}
            ck.expect(set(got) == set(want) and all(np.isclose(got[m_], want[m_], rtol=1e-6) for m_ in want),
                      'reported evaluation', dict(case, set=nm_), want, got)
  for start, cuts, by in itertools.product((0, 4), [c for k_ in (1, 2) for c in itertools.product((1, 2, 3), repeat=k_)], (False, True)):
    case = dict(first=start, calls=cuts, start_given=by)
    ck.case(('rate', start, cuts, by))
    state = make('sgd', None, par2)
    state = state.replace_step(jnp.asarray(start, jnp.int32)) if start else state
    axes = jax.tree.map(lambda _: partitioning.PartitionSpec(), state)
    t = tl.Trainer(model=Rep(), train_state=state, partitioner=partr, eval_names=(), summary_dir=None,
                   train_state_axes=axes, rng=jax.random.PRNGKey(0), learning_rate_fn=lr, num_microbatches=None)
    try:
      s0 = start
      for c in cuts:
        ok, r = ck.guarded('training', lambda: t.train(iter([fill(specs[0], i) for i in range(c)]), c, **(
            dict(start_step=s0) if by else {})).result(), case)
        if not ok:
          break
        rates = [lr(float(s)) for s in range(s0, s0 + c)]
        xs = [fill(specs[0], i)['x'].sum() for i in range(c)]
        s0 += c
        val = lambda a: float(np.asarray(getattr(r[a], 'value', r[a])))
        for a, w_ in (('learning_rate', np.mean(rates)), ('learning_rate/current', rates[-1]), ('rows', 2 * c)):
          ck.expect(a in r and np.isclose(val(a), w_, rtol=1e-6), 'reported %s' % a, dict(case, until=s0), w_, a in r and val(a))
        ck.expect(int(t.train_state.step) == s0, 'step of the state', case, s0, int(t.train_state.step))
        del xs
    finally:
      t.close()
