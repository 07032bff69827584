"""M09: stacking, rematerialization and library choice do not change the network."""
import itertools

import numpy as np

import lib_layers as ll
from mc import par

TECHNIQUE = 'enum'
LEVEL = 'exploration'
RULE = ('every combination of scanning, stacking axis, rematerialization policy, depth and options of the scalable '
        'network, with the same weights, on the same batches: outputs, gradients, dropout, caches and each decoding '
        'step; the other libraries with the same weights; axis names of every variable; distinct = the combination and computation')
ASSUMPTIONS = ['tolerance 1e-5 for outputs, 1e-4 for gradients', 'dropout is compared between rematerialization policies only, '
               'as scanning splits the random keys differently']


enc = np.array([[1, 2, 0], [3, 1, 2], [4, 0, 0], [2, 2, 2]], np.int32)
dec = np.array([[0, 1, 2, 1], [0, 2, 2, 3], [0, 4, 0, 0], [0, 3, 0, 2]], np.int32)
tgt = np.array([[1, 2, 1, 1], [2, 2, 3, 0], [4, 0, 0, 0], [3, 1, 2, 4]], np.int32)
es = np.array([[1, 1, 0], [1, 1, 2], [1, 0, 0], [1, 2, 3]], np.int32)
ds = np.array([[1, 1, 1, 1], [1, 2, 2, 0], [1, 0, 0, 0], [1, 2, 2, 3]], np.int32)


def build(name, cfg):
  import jax
  net = ll.network(name)
  base = dict(vocab_size=5, dtype='float32', emb_dim=4, num_heads=2, num_encoder_layers=2, num_decoder_layers=2, head_dim=3,
              mlp_dim=5, mlp_activations=('gelu', 'linear'), dropout_rate=0.3, logits_via_embedding=False)
  base.update(cfg)
  model = net.Transformer(net.T5Config(**base))
  one = np.ones((1, 2), np.int32)
  return model, jax.eval_shape(lambda k: model.init(k, one, one, one, decode=True, enable_dropout=False), jax.random.PRNGKey(0))


def stack(tree, axis):
  """Parameters of an unrolled network in the form of a scanned one."""
  import jax
  out = {}
  for part, sub in tree.items():
    if part not in ('encoder', 'decoder'):
      out[part] = sub
      continue
    layers = sorted((k for k in sub if k.startswith('layers_')), key=lambda k: int(k[7:]))
    rest = {k: v for k, v in sub.items() if k not in layers}
    out[part] = dict(rest, **{part: jax.tree_util.tree_map(lambda *x: np.stack(x, axis), *[sub[k] for k in layers])})
  return out


def run(model, params, grads, scanned):
  """Everything computed from the network."""
  import jax
  weights = np.random.RandomState(3).randn(4, 4, 5)

  def all_(p, k):
    res = {'outputs': (model.apply({'params': p}, enc, dec, tgt, enable_dropout=False),
                       model.apply({'params': p}, enc, dec, tgt, es, ds, enable_dropout=False)),
           'dropout': model.apply({'params': p}, enc, dec, tgt, enable_dropout=True, rngs={'dropout': k})}
    if grads:
      res['gradients'] = jax.grad(lambda p: (
          model.apply({'params': p}, enc, dec, tgt, es, ds, enable_dropout=False) * weights).sum())(p)
    encoded = model.apply({'params': p}, enc, enable_dropout=False, method=model.encode)
    _, vs = model.apply({'params': p}, np.ones_like(enc), np.ones_like(dec), np.ones_like(dec), decode=True, enable_dropout=False,
                        mutable=['cache'])
    return res, encoded, vs['cache']

  res, encoded, cache = jax.jit(all_)(params, jax.random.PRNGKey(7))
  step = jax.jit(lambda p, c, t: model.apply({'params': p, 'cache': c}, encoded, enc, t, t, enable_dropout=False, decode=True,
                                             max_decode_length=4, mutable=['cache'], method=model.decode))
  res['steps'] = []
  for t in range(4):
    out, vs = step(params, cache, dec[:, t:t + 1])
    cache = vs['cache']
    cache_ = ll.unbox(cache)['decoder']
    if scanned:
      one = cache_['decoder']
      n = one['self_attention']['cached_key'].shape[0]
      cache_ = {f'layers_{i}': jax.tree_util.tree_map(lambda a: a[i], one) for i in range(n)}
    res['steps'].append((out, {k: {x: v['self_attention'][x] for x in ('cached_key', 'cached_value', 'cache_index')}
                               for k, v in cache_.items() if k.startswith('layers_')}))
  return jax.tree_util.tree_map(np.asarray, res)


def weights_of(common):
  """Generic weights in the unrolled form."""
  _, v = build('scalable_t5', dict(common, scan_layers=False))
  return ll.randomize(ll.unbox(v['params']), 11)


def form(item):
  """One form of the scalable network: shapes wanted and found, results."""
  import jax
  cfg, common, scan, axis = item
  ll.mend_flax()
  try:
    params = weights_of(common)
    model, v = build('scalable_t5', cfg)
    mine = stack(params, axis) if scan else params
    shapes = tuple(jax.tree_util.tree_map(np.shape, t) for t in (mine, ll.unbox(v['params'])))
    return (shapes, run(model, mine, True, scan) if shapes[0] == shapes[1] else None), None
  except Exception as e:  # judged by the caller
    return None, f'{type(e).__name__}: {e}'


def check(ck):
  import jax
  ll.mend_flax()

  def close(what, case, want, got, tol):
    a, b = jax.tree_util.tree_flatten(want), jax.tree_util.tree_flatten(got)
    ck.expect(a[1] == b[1], what + ': structure', case, a[1], b[1])
    for x, y in zip(a[0], b[0]):
      x, y = np.asarray(x, np.float64), np.asarray(y, np.float64)
      if x.shape != y.shape or not np.allclose(x, y, rtol=tol, atol=tol * max(1, np.abs(x).max(initial=0))):
        ck.expect(False, what, case, x, y)
        return

  # ---- forms of the scalable network
  forms = [(False, None, r) for r in ('none', 'minimal', 'full')] + [(True, a, r) for a in (0, 1) for r in ('none', 'minimal', 'full')]
  groups = [((2, 2), False), ((1, 3), True)] + ([((2, 2), True), ((1, 3), False), ((3, 1), True), ((1, 1), False)] if ck.thorough else [])
  items = []
  for (n_enc, n_dec), shared in groups:
    common = dict(num_encoder_layers=n_enc, num_decoder_layers=n_dec, logits_via_embedding=shared)
    items += [(dict(common, scan_layers=s, remat_policy=p, **({} if a is None else dict(param_scan_axis=a))), common, s, a)
              for s, a, p in forms]
  ck.part('scalable')
  base, drop = {}, {}
  for (cfg, common, scan, axis), (res, err) in zip(items, par.pmap('m09', 'form', items, jobs=8)):
    case = dict(network='scalable_t5', **cfg)
    g = str(common)
    ck.case(str(case), n=8)
    masks = not scan and cfg['remat_policy'] != 'none' and (err or '').startswith('InvalidRngError') and 'dropout' in err
    ck.expect(err is None, 'running the network', case, None, err, sig='unrolled-remat-arguments' if masks else None)
    if err is not None:
      continue
    (a, b), res = res
    ck.expect(a == b, 'shapes of the parameters', case, a, b)
    if res is None:
      continue
    ck.transition(len(res['steps']))
    first = base.setdefault(g, res)
    close('outputs', case, first['outputs'], res['outputs'], 1e-5)
    if first['gradients'].keys() == res['gradients'].keys() and 'layers_0' in first['gradients']['decoder']:
      want = stack(first['gradients'], axis) if scan else first['gradients']
      close('gradients', case, want, res['gradients'], 1e-4)
    close('decoding steps and caches', case, first['steps'], res['steps'], 1e-5)
    close('dropout', case, drop.setdefault((g, scan), res['dropout']), res['dropout'], 1e-5)
    ck.expect(not np.allclose(res['dropout'], res['outputs'][0], atol=1e-3), 'dropout has no effect', case)

  # ---- the other libraries
  for name, shared in itertools.product(('t5', 'gpu'), (False, True)):
    ck.part(f'{name} {shared}')
    case = dict(network=name, logits_via_embedding=shared)
    model, v = build(name, dict(logits_via_embedding=shared))
    params = weights_of(dict(logits_via_embedding=shared))
    # one table of biases shared by all layers; kernels of two dimensions
    one = {}
    for part, sub in params.items():
      if part in ('encoder', 'decoder'):
        one[part] = {k: {a: b for a, b in w.items() if a != 'relpos_bias'} if k.startswith('layers_') else w for k, w in sub.items()}
        one[part]['relpos_bias'] = sub['layers_0']['relpos_bias']
      else:
        one[part] = sub
    tied = jax.tree_util.tree_map(lambda x: x, params)
    for part in ('encoder', 'decoder'):
      for k in tied[part]:
        if k.startswith('layers_'):
          tied[part][k] = dict(tied[part][k], relpos_bias=params[part]['layers_0']['relpos_bias'])
    shapes = ll.unbox(v['params'])
    ok, flat = ck.guarded('parameters', lambda: jax.tree_util.tree_map(lambda s, x: np.reshape(x, s.shape), shapes, one), case)
    if not ok:
      continue
    m2, _ = build('scalable_t5', dict(logits_via_embedding=shared, scan_layers=False))
    want = run(m2, tied, False, False)
    got = run(model, flat, False, False)
    ck.case(str(case), n=3 + len(got['steps']))
    close('outputs', case, want['outputs'], got['outputs'], 1e-5)
    close('decoding steps and caches', case, want['steps'], got['steps'], 1e-5)
    ck.expect(not np.allclose(got['dropout'], got['outputs'][0], atol=1e-3), 'dropout has no effect', case)

  # ---- axis names
  ck.part('axis names')
  known = {'vocab', 'embed', 'mlp', 'heads', 'kv', 'joined_kv', 'relpos_buckets', 'layers'}
  for name, cfg in [('t5', {}), ('gpu', {}), ('gpu', dict(scale_attn_logits=True))] + [
      ('scalable_t5', dict(scan_layers=s, remat_policy=r, **({} if a is None else dict(param_scan_axis=a)))) for s, a, r in forms]:
    model, v = build(name, cfg)
    case = dict(network=name, **cfg)
    ck.case(('axes', str(case)))
    axes = {jax.tree_util.keystr(k).replace('_axes', ''): tuple(a.names) for k, a in jax.tree_util.tree_leaves_with_path(
        v['params_axes'], is_leaf=lambda x: hasattr(x, 'names'))}
    for k, x in jax.tree_util.tree_leaves_with_path(ll.unbox(v['params'])):
      k = jax.tree_util.keystr(k)
      names = axes.pop(k, None)
      stacked = "['encoder']['encoder']" in k or "['decoder']['decoder']" in k
      ck.expect(names is not None and len(names) == np.ndim(x) and set(names) <= known and
                (names.index('layers') if 'layers' in names else None) == (cfg.get('param_scan_axis', 1) if stacked else None),
                'axis names of a parameter', dict(case, parameter=k, shape=np.shape(x)), None, names)
    ck.expect(not axes, 'axis names without a parameter', case, None, axes)
