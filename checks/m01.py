"""M01: incremental decoding computes the same outputs as the full pass."""
import itertools

import numpy as np

import lib_layers as ll

TECHNIQUE = 'hist'
LEVEL = 'exploration'
RULE = ('every sequence over an alphabet up to a length is fed one token at a time through the cached decoder, '
        'and for the implementations with prefill through every split of prefill and steps, per row of a batch; '
        'every prefix length vector of a small batch; after every step the output is compared with the full pass; '
        'distinct = (implementation, options, sequence, split)')
ASSUMPTIONS = ['steps after the end of the cache are unspecified and left out',
               'the key mask given while decoding is the row of the full mask; tolerance 2e-5 of the largest output']


def check(ck):
  import jax
  import jax.numpy as jnp
  TOL = 2e-5

  def same(what, case, want, got, rows=None, desc=None):
    """Compares [rows, features], reporting the first row which differs."""
    want, got = np.asarray(want), np.asarray(got)
    if want.shape != got.shape:
      ck.expect(False, what + ': shape', case, want.shape, got.shape)
      return
    bad = ~np.isclose(want, got, rtol=TOL, atol=TOL).reshape(len(want), -1).all(-1)
    if rows is not None:
      bad &= rows
    if bad.any():
      i = int(np.nonzero(bad)[0][0])
      ck.expect(False, what, dict(case, row=i, **(desc(i) if desc else {})), want[i], got[i])

  def tokens(alphabet, length):
    return np.array(list(itertools.product(alphabet, repeat=length)), np.int32)

  # ---- attention modules
  ck.part('attention')
  heads, dim, emb = 2, 3, 4
  rng = np.random.RandomState(0)
  table = rng.randn(3, emb).astype(np.float32)
  variants = [(name, {}) for name in ll.PACKAGES] + [('gpu', dict(scale_attn_logits=True))]
  variants += [(name, dict(float32_logits=True)) for name in ll.PACKAGES]
  for name, opts in variants:
    lay = ll.layers(name)
    mod = lay.MultiHeadDotProductAttention(num_heads=heads, head_dim=dim, **opts)
    lengths = range(1, 6) if ck.thorough else [2] if opts else [1, 2, 4]
    for L in lengths:
      toks = tokens(range(3), L)
      x = table[toks]
      B = len(x)
      v0 = mod.init(jax.random.PRNGKey(0), x, x, decode=True, deterministic=True)
      params = ll.randomize(ll.unbox(v0['params']), 1, 0.7)
      bias_ = rng.randn(1, heads, L, L).astype(np.float32)
      keys_ = np.stack([rng.permutation(L) for _ in range(B)]) if L > 1 else np.zeros((B, 1), int)
      keymask_ = ((keys_ + 1) % 3 != 0)[:, None, None, :]  # [B, 1, 1, L]
      keymask_[..., 0] = True
      causal = np.tril(np.ones((L, L), bool))[None, None]
      for use_bias, use_mask in itertools.product((False, True), repeat=2):
        bias = bias_ if use_bias else None
        km = keymask_ if use_mask else np.ones((B, 1, 1, L), bool)
        case = dict(layers=name, options=opts, length=L, bias=use_bias, mask=use_mask)
        full = np.asarray(mod.apply({'params': params}, x, x, (causal & km).astype(np.float32), bias, deterministic=True))
        empty = v0['cache']
        step = jax.jit(lambda c, t, p=params, m=mod, b=bias, k=km.astype(np.float32) if use_mask else None: m.apply(
            {'params': p, 'cache': c}, t, t, k, b, decode=True, deterministic=True, mutable=['cache']))
        desc = lambda i: dict(sequence=toks[i])
        cache = empty
        for t in range(L):
          ck.case((str(case), 'step', t), n=B)
          ck.transition(B)
          out, vs = step(cache, x[:, t:t + 1])
          cache = vs['cache']
          same('one token at a time', dict(case, step=t), full[:, t], out[:, 0], desc=desc)
        for q in {0, 2, L + 1} - {1}:
          ck.expect_raises('several positions in one step', lambda: mod.apply(
              {'params': params, 'cache': empty}, np.zeros((B, q, emb), np.float32), np.zeros((B, q, emb), np.float32),
              decode=True, deterministic=True, mutable=['cache']), dict(case, positions=q), ValueError)
        ck.expect_raises('another batch size', lambda: mod.apply(
            {'params': params, 'cache': empty}, np.zeros((B + 1, 1, emb), np.float32), np.zeros((B + 1, 1, emb), np.float32),
            decode=True, deterministic=True, mutable=['cache']), case, ValueError)

        if name != 'decoder_only':
          continue
        # every split of every sequence, all in one batch
        split = np.repeat(np.arange(L + 1), B).astype(np.int32)
        X, K = np.tile(x, (L + 1, 1, 1)), np.tile(km, (L + 1, 1, 1, 1))
        N = len(X)
        big = mod.init(jax.random.PRNGKey(0), X, X, decode=True, deterministic=True)['cache']
        inside = np.arange(L)[None] < split[:, None]
        stepb = jax.jit(lambda c, t, k, p=params, m=mod, b=bias: m.apply(
            {'params': p, 'cache': c}, t, t, k, b, decode=True, deterministic=True, mutable=['cache']))
        for mode in ('causal', 'bidirectional', 'whole causal'):
          pair = inside[:, None, :, None] & inside[:, None, None, :]
          order = causal | pair if mode == 'bidirectional' else np.broadcast_to(causal, pair.shape)
          full = np.asarray(mod.apply({'params': params}, X, X, (order & K).astype(np.float32), bias, deterministic=True))
          pre = order & K if mode == 'whole causal' else order & pair & K
          c2 = dict(case, prefill=mode)
          out, vs = mod.apply({'params': params, 'cache': big}, X, X, pre.astype(np.float32), bias, deterministic=True,
                              prefill=True, prefill_lengths=split, mutable=['cache'])
          ck.case((str(c2), 'prefill'), n=N)
          d2 = lambda i: dict(sequence=toks[i % B], prefix=int(split[i]))
          for t in range(L):
            same('outputs of the prefill', dict(c2, position=t), full[:, t], out[:, t], rows=t < split, desc=d2)
          cache = vs['cache']
          for s in range(L):
            at = np.minimum(split + s, L - 1)
            live = split + s < L
            if not live.any():
              break
            ck.case((str(c2), 'after prefill', s), n=int(live.sum()))
            ck.transition(int(live.sum()))
            o, vs = stepb(cache, X[np.arange(N), at][:, None], K.astype(np.float32))
            cache = vs['cache']
            same('continuing after the prefill', dict(c2, step=s), full[np.arange(N), at], o[:, 0], rows=live, desc=d2)
        # lengths found from the mask
        if not use_mask:
          sel = split > 0
          pair = (inside[:, None, :, None] & inside[:, None, None, :])[sel]
          sub = jax.tree_util.tree_map(lambda a: a[sel] if np.ndim(a) else a, big)
          res = [mod.apply({'params': params, 'cache': sub}, X[sel], X[sel], pair.astype(np.float32), bias, deterministic=True,
                           prefill=True, prefill_lengths=pl, mutable=['cache']) for pl in (None, split[sel])]
          ck.case((str(case), 'lengths from the mask'), n=int(sel.sum()))
          ck.expect(all(np.array_equal(a, b) for a, b in zip(*map(jax.tree_util.tree_leaves, res))),
                    'prefill lengths found from the mask', case)
        ck.expect_raises('prefill and decode at once', lambda: mod.apply(
            {'params': params, 'cache': big}, X, X, None, bias, decode=True, prefill=True, prefill_lengths=split,
            deterministic=True, mutable=['cache']), case, ValueError)

  # ---- encoder-decoder networks
  ll.mend_flax()
  nets = [('t5', {}), ('gpu', {}), ('gpu', dict(scale_attn_logits=True)), ('scalable_t5', dict(scan_layers=True)),
          ('scalable_t5', dict(scan_layers=False)), ('t5', dict(logits_via_embedding=True)),
          ('scalable_t5', dict(scan_layers=True, param_scan_axis=0, logits_via_embedding=True))]
  for name, kw in nets:
    ck.part(f'network {name}')
    model, params = ll.encdec(name, seed=3, **kw)
    enc_all = np.array([p for p in itertools.product((0, 1, 3), repeat=3) if any(p)], np.int32)[::5]
    for L, alphabet in ([(1, 5), (2, 3), (3, 3), (5, 3)] if ck.thorough else [(4, 2)]) + ([(20, 0)] if not kw or ck.thorough else []):
      toks = tokens(range(alphabet), L) if alphabet else np.random.RandomState(4).randint(0, 5, (6, L)).astype(np.int32)
      idx = np.stack(np.meshgrid(np.arange(len(toks)), np.arange(len(enc_all)), indexing='ij'), -1).reshape(-1, 2)
      dec, enc = toks[idx[:, 0]], enc_all[idx[:, 1]]
      N = len(dec)
      def once(e, d, m=model, p=params):
        encoded = m.apply({'params': p}, e, enable_dropout=False, method=m.encode)
        full = m.apply({'params': p}, encoded, e, d, jnp.ones_like(d), enable_dropout=False, method=m.decode)
        _, vs = m.apply({'params': p}, jnp.ones_like(e), jnp.ones_like(d), jnp.ones_like(d), decode=True,
                        enable_dropout=False, mutable=['cache'])
        return encoded, full, vs

      encoded, full, vs = jax.jit(once)(enc, dec)
      full = np.asarray(full)
      step = jax.jit(lambda c, t, m=model, p=params, e=encoded, i=enc, n=L: m.apply(
          {'params': p, 'cache': c}, e, i, t, t, enable_dropout=False, decode=True, max_decode_length=n, mutable=['cache'],
          method=m.decode))
      cache = vs['cache']
      case = dict(network=name, options=kw, length=L)
      desc = lambda i: dict(encoder=enc[i], decoder=dec[i])
      for t in range(L):
        ck.case((str(case), t), n=N)
        ck.transition(N)
        out, vs = step(cache, dec[:, t:t + 1])
        cache = vs['cache']
        same('one token at a time', dict(case, step=t), full[:, t], out[:, 0], desc=desc)

  # ---- decoder-only network
  for kw in ({}, dict(logits_via_embedding=True, mlp_activations=('relu',))):
    ck.part('network decoder_only')
    model, params = ll.decoder(seed=5, **kw)

    def run(toks, split, bidirectional, L, case, prefill):
      """One batch through prefill and steps."""
      N = len(toks)
      pre = (np.arange(L)[None] < split[:, None]).astype(np.int32)
      full = np.asarray(whole[bidirectional](toks, pre))
      cache = init(toks)
      desc = lambda i: dict(tokens=toks[i], prefix=int(split[i]))
      if prefill:
        ck.case((str(case), 'prefill', split.tobytes(), toks.tobytes()), n=N)
        out, cache = fill[bidirectional](cache, toks * pre, pre, split)
        for t in range(L):
          same('outputs of the prefill', dict(case, position=t), full[:, t], out[:, t], rows=t < split, desc=desc)
      step = steps[L]
      start = split if prefill else np.zeros(N, np.int32)
      for s in range(L):
        at, live = np.minimum(start + s, L - 1), start + s < L
        if not live.any():
          break
        ck.case((str(case), 'step', s, split.tobytes(), toks.tobytes()), n=int(live.sum()))
        ck.transition(int(live.sum()))
        out, vs = step(cache, toks[np.arange(N), at][:, None])
        cache = vs['cache']
        same('step' + (' after the prefill' if prefill else ''), dict(case, step=s), full[np.arange(N), at], out[:, 0], rows=live, desc=desc)

    whole = {b: jax.jit(lambda t, c, m=model, p=params, b=b: m.apply(
        {'params': p}, t, jnp.ones_like(t), decoder_causal_attention=c if b else None, enable_dropout=False)) for b in (False, True)}
    init = jax.jit(lambda t, m=model, p=params: m.apply(
        {'params': p}, jnp.ones_like(t), jnp.ones_like(t), decode=True, enable_dropout=False, mutable=['cache'])[1]['cache'])

    def filled(c, t, pre, split, m, p, b):
      out, vs = m.apply({'params': p, 'cache': c}, decoder_input_tokens=t, decoder_target_tokens=pre,
                        decoder_causal_attention=pre if b else None, mutable=['cache'], enable_dropout=False,
                        prefill=True, prefill_lengths=split)
      return out, vs['cache']

    fill = {b: jax.jit(lambda c, t, pre, split, m=model, p=params, b=b: filled(c, t, pre, split, m, p, b)) for b in (False, True)}
    steps = {}
    for L in range(1, 7) if ck.thorough else (1, 3, 4):
      steps[L] = jax.jit(lambda c, t, m=model, p=params, n=L: m.apply(
          {'params': p, 'cache': c}, t, t, enable_dropout=False, decode=True, max_decode_length=n, mutable=['cache']))
      toks = tokens(range(3), L)
      case = dict(network='decoder_only', options=kw, length=L)
      run(toks, np.zeros(len(toks), np.int32), False, L, dict(case, prefill=False), False)
      every, splits = np.tile(toks, (L + 1, 1)), np.repeat(np.arange(L + 1), len(toks)).astype(np.int32)
      for bid in (False, True):
        run(every, splits, bid, L, dict(case, bidirectional=bid), True)
    L = 3
    for size in (1, 2, 3):
      toks = np.random.RandomState(size).randint(0, 5, (size, L)).astype(np.int32)
      for split in itertools.product(range(L + 1), repeat=size):
        for bid in (False, True) if ck.thorough or size < 3 else (True,):
          run(toks, np.array(split, np.int32), bid, L, dict(network='decoder_only', options=kw, batch=size, bidirectional=bid), True)
    ck.expect_raises('prefill and decode at once', lambda: model.apply(
        {'params': params}, np.ones((1, 2), np.int32), np.ones((1, 2), np.int32), enable_dropout=False, decode=True, prefill=True,
        prefill_lengths=np.ones(1, np.int32), mutable=['cache']), kw, ValueError)
