"""M08: building blocks compute their definition."""
import itertools

import numpy as np

import lib_layers as ll

TECHNIQUE = 'enum'
LEVEL = 'exploration'
RULE = ('every input rank up to 4, every ordered selection of contracted axes in both signs, every features form; '
        'every id pattern, input type and flag of the embedding; every activation tuple up to three; every option '
        'of the attention function; each against its definition in double precision, with the shape, type and axis '
        'names of every parameter; distinct = (library, block, options, input shape)')
ASSUMPTIONS = ['one set of generic parameter values per shape', 'tolerance 1e-5 relative in float32, 4% in bfloat16',
               'initial scales are compared within 10% on kernels of more than 10000 entries, with one fixed key']


def gelu(x):
  return 0.5 * x * (1 + np.tanh(np.sqrt(2 / np.pi) * (x + 0.044715 * x ** 3)))


ACT = {'linear': lambda x: x, 'relu': lambda x: np.maximum(x, 0), 'gelu': gelu, 'swish': lambda x: x / (1 + np.exp(-x)),
       'tanh': np.tanh, 'sigmoid': lambda x: 1 / (1 + np.exp(-x))}


def softmax(x):
  e = np.exp(x - x.max(-1, keepdims=True))
  return e / e.sum(-1, keepdims=True)


def check(ck):
  import jax
  import jax.numpy as jnp
  key = jax.random.PRNGKey(0)
  rng = np.random.RandomState(0)

  def near(what, case, want, got, dtype='float32'):
    ck.expect(str(got.dtype) == dtype and got.shape == want.shape, what + ': type or shape', case, (want.shape, dtype),
              (got.shape, str(got.dtype)))
    if got.shape == want.shape:
      r = {'float32': 1e-5, 'bfloat16': 4e-2}[dtype]
      scale = max(1.0, float(np.abs(want).max()) if want.size else 1.0)
      ck.expect(np.allclose(np.asarray(got, np.float64), want, rtol=r, atol=r * scale), what, case, want, got)

  def f64(tree):
    return jax.tree_util.tree_map(lambda a: np.asarray(a, np.float64), tree)

  def make(module, *args, **kw):
    v = module.init(key, *args, **kw)
    return ll.randomize(ll.unbox(v['params']), 1, 0.6), v

  def axes_ok(v, case, want):
    """Names of the axes of every parameter."""
    got = {jax.tree_util.keystr(k).replace("['params_axes']", ''): tuple(a.names)
           for k, a in jax.tree_util.tree_leaves_with_path(v.get('params_axes', {}), is_leaf=lambda x: hasattr(x, 'names'))}
    got = {k.strip("[]'").replace("']['", '/'): n for k, n in got.items()}
    ck.expect(got == want, 'parameter axis names', case, want, got)

  for name in ll.PACKAGES:
    lay = ll.layers(name)
    nd = name == 'scalable_t5'

    # ---- dense
    ck.part(f'dense {name}')
    for rank in range(1, 5):
      dims = (2, 3, 4, 5)[:rank]
      x = rng.randn(*dims).astype(np.float32)
      selections = [s for k in range(1, rank + 1) for s in itertools.permutations(range(rank), k)]
      if rank == 4 and not ck.thorough:
        selections = [(3,), (2, 3), (0, 3), (2, 0), (1, 2, 3), (3, 1, 0, 2)]
      for sel, (neg, features), dtype in itertools.product(
          selections, [(False, 6), (True, (6,)), (True, (2, 3)), (False, [3, 2]), (False, (1, 2, 2))], ('float32', 'bfloat16')):
        if dtype == 'bfloat16' and (neg or rank > 3):
          continue
        axis = tuple(a - rank if neg else a for a in sel)
        if len(sel) == 1 and features == 6:
          axis = axis[0]
        feats = (features,) if isinstance(features, int) else tuple(features)
        case = dict(library=name, input=dims, axis=axis, features=features, dtype=dtype)
        ck.case(str(case))
        names = ('a', 'b', 'c', 'd', 'e', 'f', 'g')
        kshape = tuple(dims[a] for a in sel) + feats
        pshape = kshape if nd else (int(np.prod(kshape[:len(sel)])), int(np.prod(feats)))
        mod = lay.DenseGeneral(features=features, axis=axis, dtype=jnp.dtype(dtype), kernel_axes=names[:len(pshape)])
        ok, res = ck.guarded('dense', lambda: make(mod, x), case)
        if not ok:
          continue
        p, v = res
        ck.expect(list(p) == ['kernel'] and p['kernel'].shape == pshape and
                  v['params']['kernel'].dtype == 'float32', 'kernel of a dense layer', case, pshape, jax.tree_util.tree_map(np.shape, p))
        axes_ok(v, case, {'kernel_axes': names[:len(pshape)]})
        if p['kernel'].shape == pshape:
          want = np.tensordot(x.astype(np.float64), p['kernel'].reshape(kshape).astype(np.float64), (sel, range(len(sel))))
          near('dense', case, want, mod.apply({'params': p}, x), dtype)

    # ---- embedding
    ck.part(f'embedding {name}')
    for one_hot, dtype, attend in itertools.product((False, True), ('float32', 'bfloat16'), (None, 'float32', 'bfloat16')):
      mod = lay.Embed(num_embeddings=4, features=3, one_hot=one_hot, dtype=jnp.dtype(dtype),
                      attend_dtype=None if attend is None else jnp.dtype(attend))
      p, v = make(mod, np.zeros((1, 1), np.int32))
      case = dict(library=name, one_hot=one_hot, dtype=dtype, attend_dtype=attend)
      ck.expect(p['embedding'].shape == (4, 3), 'embedding table', case, (4, 3), p['embedding'].shape)
      axes_ok(v, case, {'embedding_axes': ('vocab', 'embed')})
      E = p['embedding'].astype(np.float64)
      for ids, idt in itertools.product([np.array(list(itertools.product(range(4), repeat=n))).reshape((-1,) + (1,) * (r - 2) + (n,))
                                         for n in (1, 2, 3) for r in (2, 3)], ('int32', 'uint8', 'int8')):
        if idt != 'int32' and ids.ndim == 3:
          continue
        c = dict(case, ids=ids.shape, type=idt)
        ck.case(str(c), n=ids.size)
        if not one_hot and ids.ndim == 3:
          continue  # annotated as batch, length, embed
        near('embedding', c, E[ids], mod.apply({'params': p}, ids.astype(idt)), dtype)
      near('one id', case, E[np.array([3, 0])], mod.apply({'params': p}, np.array([3, 0])), dtype) if one_hot else None
      q = rng.randn(2, 2, 3).astype(np.float32)
      qd = q.astype(jnp.dtype(attend or dtype))
      got = mod.apply({'params': p}, qd, method=mod.attend)
      near('attend', case, qd.astype(np.float64) @ E.T, got, attend or dtype)
      for bad in (np.zeros((1, 2), np.float32), np.zeros((1, 2), bool)):
        ck.expect_raises('ids which are not integers', lambda: mod.apply({'params': p}, bad), dict(case, type=str(bad.dtype)), ValueError)
      cast = lay.Embed(num_embeddings=4, features=3, one_hot=one_hot, cast_input_dtype=jnp.int32)
      near('cast of ids', case, E[[[1, 3]]], cast.apply({'params': p}, np.array([[1., 3.]], np.float32)))

    # ---- normalization
    ck.part(f'normalization {name}')
    for shape, eps, dtype, scale in itertools.product([(1,), (3,), (2, 4), (2, 3, 5), (1, 2, 2, 2)], (1e-6, 0.5), ('float32', 'bfloat16'),
                                                      (0., 1e-3, 1., 1e4)):
      x = (rng.randn(*shape) * scale).astype(np.float32)
      case = dict(library=name, shape=shape, epsilon=eps, dtype=dtype, scale=scale)
      ck.case(str(case))
      mod = lay.LayerNorm(epsilon=eps, dtype=jnp.dtype(dtype))
      p, v = make(mod, x)
      ck.expect(p['scale'].shape == shape[-1:] and bool((v['params']['scale'] == 1).all()), 'initial scale', case)
      axes_ok(v, case, {'scale_axes': ('embed',)})
      for xin in (x, x.astype(jnp.bfloat16)):
        x64 = xin.astype(np.float64)
        want = x64 / np.sqrt((x64 ** 2).mean(-1, keepdims=True) + eps) * p['scale']
        near('root mean square normalization', dict(case, input=str(xin.dtype)), want, mod.apply({'params': p}, xin), dtype)

    # ---- feed-forward
    ck.part(f'feed-forward {name}')
    acts = [(a,) for a in ACT] + list(itertools.product(('relu', 'gelu', 'linear'), repeat=2)) + \
        [('gelu', 'linear', 'swish'), ('linear', 'tanh', 'sigmoid'), ('gelu', 'gelu', 'gelu')]
    for act, as_fn, dtype in itertools.product(acts, (False, True), ('float32', 'bfloat16')):
      if dtype == 'bfloat16' and (as_fn or len(act) > 2):
        continue
      x = rng.randn(2, 3, 4).astype(np.float32)
      given = tuple({'linear': lambda t: t}.get(a) or getattr(jax.nn, a) for a in act) if as_fn else act
      mod = lay.MlpBlock(intermediate_dim=5, activations=given, dtype=jnp.dtype(dtype))
      case = dict(library=name, activations=act, functions=as_fn, dtype=dtype)
      ck.case(str(case))
      p, v = make(mod, x, deterministic=True)
      names = ['wi'] if len(act) == 1 else [f'wi_{i}' for i in range(len(act))]
      shapes = {**{n: (4, 5) for n in names}, 'wo': (5, 4)}
      ck.expect({k: w['kernel'].shape for k, w in p.items()} == shapes, 'kernels of a feed-forward block', case, shapes)
      axes_ok(v, case, {**{f'{n}/kernel_axes': ('embed', 'mlp') for n in names}, 'wo/kernel_axes': ('mlp', 'embed')})
      P = f64(p)
      h = np.ones((2, 3, 5))
      for n, a in zip(names, act):
        h = h * ACT[a](x.astype(np.float64) @ P[n]['kernel'])
      near('feed-forward', case, h @ P['wo']['kernel'], mod.apply({'params': p}, x, deterministic=True), dtype)
    for rate in (0.0, 0.25, 0.5):
      mod = lay.MlpBlock(intermediate_dim=6, activations=('relu',), intermediate_dropout_rate=rate)
      x = np.abs(rng.randn(8, 3, 6)).astype(np.float32) + 0.1
      p = {'wi': {'kernel': np.eye(6, dtype=np.float32)}, 'wo': {'kernel': np.eye(6, dtype=np.float32)}}
      for k in range(4):
        case = dict(library=name, dropout=rate, key=k)
        ck.case(('mlp dropout', str(case)))
        out = np.asarray(mod.apply({'params': p}, x, deterministic=False, rngs={'dropout': jax.random.PRNGKey(k)}))
        m = out / x * (1 - rate)
        ck.expect(np.all((np.abs(m) < 1e-4) | (np.abs(m - 1) < 1e-4)) and np.allclose(m, m[:, :1], atol=1e-4) and
                  (rate == 0) == bool(np.all(np.abs(m - 1) < 1e-4)), 'dropout of a feed-forward block', case, None, m[:2])
    ck.expect_raises('an unknown activation', lambda: lay.MlpBlock(activations=('no_such_activation',)).init(
        key, np.ones((1, 1, 2)), deterministic=True), name)
    ck.expect_raises('an activation of a wrong kind', lambda: lay.MlpBlock(activations=(3,)).init(
        key, np.ones((1, 1, 2)), deterministic=True), name)

    # ---- attention function
    ck.part(f'attention {name}')
    for b, q, k, h, d, e in itertools.product((1, 2), (1, 3), (1, 3), (1, 2), (2,), (2, 3)):
      Q, K, V = (rng.randn(*s).astype(np.float32) for s in ((b, q, h, d), (b, k, h, d), (b, k, h, e)))
      for bshape in [None, (b, h, q, k), (1, h, q, k), (b, 1, q, k), (1, 1, 1, k), (b, 1, 1, 1)]:
        B = None if bshape is None else rng.randn(*bshape).astype(np.float32)
        for dtype, f32 in (('float32', False), ('float32', True), ('bfloat16', False), ('bfloat16', True)):
          case = dict(library=name, batch=b, query=q, keys=k, heads=h, value_dim=e, bias=bshape, dtype=dtype, float32_logits=f32)
          ck.case(str(case))
          a = [t.astype(jnp.dtype(dtype)) for t in (Q, K, V)]
          L = np.einsum('bqhd,bkhd->bhqk', a[0].astype(np.float64), a[1].astype(np.float64)) + (0 if B is None else B)
          want = np.einsum('bhqk,bkhe->bqhe', softmax(L), a[2].astype(np.float64))
          near('dot product attention', case, want, lay.dot_product_attention(
              *map(jnp.asarray, a), bias=B, deterministic=True, dtype=jnp.dtype(dtype), float32_logits=f32), dtype)
      case = dict(library=name, batch=b, query=q, keys=k, heads=h)
      bad = [(Q[:, :, :, :1], K, V), (Q, K, np.concatenate([V, V], 1)), (Q, np.concatenate([K, K], 0), V),
             (Q, np.concatenate([K, K], 2), V), (Q[0], K, V)]
      for i, t in enumerate(bad):
        ck.case(('mismatch', str(case), e, i))
        ck.expect_raises('mismatched query, key and value', lambda: lay.dot_product_attention(
            *map(jnp.asarray, t), deterministic=True), dict(case, mismatch=i))
    # values = identity shows the weights
    for rate, k in itertools.product((0.0, 0.25, 0.5), range(4)):
      Q, K = rng.randn(4, 3, 2, 2).astype(np.float32), rng.randn(4, 5, 2, 2).astype(np.float32)
      V = np.broadcast_to(np.eye(5, dtype=np.float32)[None, :, None], (4, 5, 2, 5))
      W = softmax(np.einsum('bqhd,bkhd->bhqk', Q.astype(np.float64), K)).transpose(0, 2, 1, 3)
      case = dict(library=name, dropout=rate, key=k)
      ck.case(('attention dropout', str(case)))
      out = np.asarray(lay.dot_product_attention(Q, K, V, dropout_rng=jax.random.PRNGKey(k), dropout_rate=rate, deterministic=False))
      m = out / W * (1 - rate)
      ck.expect(np.all((np.abs(m) < 1e-3) | (np.abs(m - 1) < 1e-3)) and np.allclose(m, m[:, :1], atol=1e-3) and
                (rate == 0) == bool(np.all(np.abs(m - 1) < 1e-3)), 'dropout of attention weights', case, None, m[0, :, 0])
      out = lay.dot_product_attention(Q, K, V, dropout_rng=jax.random.PRNGKey(k), dropout_rate=rate, deterministic=True)
      ck.expect(np.allclose(out, W, atol=1e-5), 'dropout while deterministic', case)

    # ---- attention module
    for h, d, dtype, f32, scaled, bias, mask in itertools.product(
        (1, 2), (1, 3), ('float32', 'bfloat16'), (False, True), (False, True), (False, True), (None, 'one', 'row')):
      if scaled and name != 'gpu':
        continue
      if not ck.thorough and dtype == 'bfloat16' and (h, d) != (2, 3):
        continue
      opts = dict(scale_attn_logits=scaled) if name == 'gpu' else {}
      mod = lay.MultiHeadDotProductAttention(num_heads=h, head_dim=d, dtype=jnp.dtype(dtype), float32_logits=f32, **opts)
      x, y = rng.randn(2, 2, 4).astype(np.float32), rng.randn(2, 3, 4).astype(np.float32)
      B = rng.randn(1, h, 2, 3).astype(np.float32) if bias else None
      M = {None: None, 'one': np.array([[1, 0, 1], [1, 1, 0]], np.float32)[None, None], 'row': np.array(
          [[0, 1, 1], [1, 0, 0]], np.float32)[:, None, None]}[mask]
      if M is not None:
        M = np.broadcast_to(M, (2, 1, 2, 3)).astype(dtype)
      case = dict(library=name, heads=h, head_dim=d, dtype=dtype, float32_logits=f32, scaled=scaled, bias=bias, mask=mask)
      ck.case(str(case))
      p, v = make(mod, x, y, deterministic=True)
      shapes = {n: ((4, h, d) if nd else (4, h * d)) for n in ('query', 'key', 'value')}
      shapes['out'] = (h, d, 4) if nd else (h * d, 4)
      ck.expect({k: w['kernel'].shape for k, w in p.items()} == shapes, 'kernels of attention', case, shapes)
      ax = {f'{n}/kernel_axes': ('embed', 'heads', 'kv') if nd else ('embed', 'joined_kv') for n in ('query', 'key', 'value')}
      ax['out/kernel_axes'] = ('heads', 'kv', 'embed') if nd else ('joined_kv', 'embed')
      axes_ok(v, case, ax)
      P = {n: w['kernel'].astype(np.float64).reshape((4, h, d) if n != 'out' else (h, d, 4)) for n, w in p.items()}
      Q, K, V = (np.einsum('ble,ehd->blhd', t.astype(np.float64), P[n]) for t, n in ((x, 'query'), (y, 'key'), (y, 'value')))
      if scaled:
        Q = Q / np.sqrt(d)
      L = np.einsum('bqhd,bkhd->bhqk', Q, K)
      L = L + (0 if B is None else B) + (0 if M is None else np.where(np.asarray(M, np.float32) > 0, 0, -1e10))
      want = np.einsum('bqhd,hde->bqe', np.einsum('bhqk,bkhd->bqhd', softmax(L), V), P['out'])
      got = mod.apply({'params': p}, x, y, M, B, deterministic=True)
      near('attention module', case, want, got, dtype)

    # ---- initial scales
    ck.part(f'initial values {name}')
    for h, d, e in ((4, 16, 200), (2, 60, 120))[:ck.pick(1, 2)]:
      x = np.zeros((1, 1, e), np.float32)
      v = lay.MultiHeadDotProductAttention(num_heads=h, head_dim=d).init(key, x, x, deterministic=True)
      want = dict(query=1 / np.sqrt(e * d), key=1 / np.sqrt(e), value=1 / np.sqrt(e), out=1 / np.sqrt(h * d))
      w = lay.MlpBlock(intermediate_dim=150).init(key, x, deterministic=True)
      want.update(wi=1 / np.sqrt(e), wo=1 / np.sqrt(150))
      for n, std in want.items():
        kernel = np.asarray({**ll.unbox(v['params']), **ll.unbox(w['params'])}[n]['kernel'])
        case = dict(library=name, kernel=n, heads=h, head_dim=d, features=e)
        ck.case(str(case))
        ck.expect(abs(kernel.std() / std - 1) < 0.1 and abs(kernel.mean()) < std / 10, 'initial scale of a kernel', case, std,
                  (float(kernel.mean()), float(kernel.std())))
