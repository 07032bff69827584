"""M04: prediction and scoring use the right prompt, cache and weights."""
import copy
import itertools

import numpy as np

import lib_decode as ld
import lib_layers as ll

TECHNIQUE = 'enum'
LEVEL = 'exploration'
RULE = ('every encoder input and every prompt over a small vocabulary up to a length, in batches of mixed items and alone, '
        'through both model classes with real small networks and with stand-in modules that decode their inputs, for every '
        'decoding function and option; every prediction and score is compared with what the full forward pass gives for that '
        'item alone; every weight pattern for scoring; distinct = (model, options, item)')
ASSUMPTIONS = ['prompts hold no padding between tokens', 'beam search with prompts of different lengths in one batch is compared '
               'for the items with the shortest prompt only (the others are searched beyond the output length)']
V, EOS = 6, 1


def logsm(x):
  x = np.asarray(x, np.float64)
  return x - np.log(np.exp(x - x.max(-1, keepdims=True)).sum(-1, keepdims=True)) - x.max(-1, keepdims=True)


def penalty(alpha, n):
  return ((5.0 + n) / 6.0)**alpha


def greedy(logp, prompt, L):
  """Sequence of length L and the log probability of what was generated."""
  seq, score = list(prompt), 0.0
  while len(seq) < L:
    p = logp(tuple(seq))
    t = int(np.argmax(p))
    score += p[t]
    seq.append(t)
    if t == EOS:
      break
  return seq + [0] * (L - len(seq)), score


def beam(logp, prompt, k, alpha, L, forced):
  """Hypotheses in descending order; forced prompts are stepped through."""
  live, fin = [(0.0, () if forced else tuple(prompt))], []
  for n in range(0 if forced else len(prompt), L):
    if n < len(prompt):
      live = [(0.0, tuple(prompt[:n + 1]))]
      continue
    cands = sorted(((s + lp, seq + (v,)) for s, seq in live for v, lp in enumerate(logp(seq))), key=lambda c: -c[0])[:2 * k]
    fin = sorted(fin + [(s / penalty(alpha, n + 1), seq) for s, seq in cands if seq[-1] == EOS], key=lambda c: -c[0])[:k]
    live = [c for c in cands if c[1][-1] != EOS][:k]
  out = fin or live
  return [(s, list(q) + [0] * (L - len(q))) for s, q in out]


def check(ck):
  import flax.linen as nn
  import jax
  import jax.numpy as jnp
  import seqio
  from t5x import decoding
  from t5x import losses
  from t5x import models
  voc = seqio.PassThroughVocabulary(V, EOS)
  voc_in = seqio.PassThroughVocabulary(V, 3)  # inputs end with a token of their own
  ck.expect(voc.eos_id == EOS and voc_in.eos_id == 3, 'stand-in vocabulary', None)

  def same(what, case, want, got, tol=2e-4):
    got = np.asarray(got)
    want = np.asarray(want)
    ck.expect(want.shape == got.shape and (np.array_equal(want, got) if want.dtype.kind in 'iub' else
                                           np.allclose(want, got, rtol=tol, atol=tol)), what, case, want, got)

  # ================================================================ greedy and beam on both models
  def judge(case, rows, logp, prompts, L, k, out, aux, fn, alpha, all_decodes, forced, cut=None, only=None):
    """rows: description of items; prompts: token lists which the output starts with."""
    out, sc = np.asarray(out), np.asarray(aux['scores'])
    shape = (len(rows), k, L) if all_decodes else (len(rows), L)
    ck.expect(out.shape == shape and sc.shape == shape[:-1], 'shape of the predictions', case, shape, (out.shape, sc.shape))
    if out.shape != shape:
      return
    for i, r in enumerate(rows):
      if only is not None and not only[i]:
        continue
      c = dict(case, item=r, row=i)
      shift = (lambda s: list(s)[cut[i]:] + [0] * cut[i]) if cut is not None else list
      if fn == 'sample':
        want, score = greedy(lambda q: logp(i, q), prompts[i], L)
        for o, s in zip(out[i], sc[i]) if all_decodes else [(out[i], sc[i])]:
          same('greedy continuation', c, shift(want), o)
          same('its score', c, score, s)
      else:
        hyps = beam(lambda q: logp(i, q), prompts[i], k, alpha, L, forced)
        got = list(zip(sc[i][::-1], out[i][::-1])) if all_decodes else [(sc[i], out[i])]
        for (ws, w), (s, o) in zip(hyps, got):
          same('best continuation' if not all_decodes else 'continuations', c, shift(w), o)
          same('their score', c, ws, s)

  SAMPLE = dict(topk=1, rescale_log_probs=False)
  BEAM = dict(alpha=0.6)
  calls = [('sample', 1, False), ('sample', 2, True), ('beam', 1, False), ('beam', 3, False), ('beam', 3, True)]

  # ---- encoder-decoder with real networks
  ll.mend_flax()
  nets = [('scalable_t5', dict(scan_layers=True))] + ([('t5', {}), ('gpu', {}), ('scalable_t5', dict(scan_layers=False))] if ck.thorough else [])
  L = 4
  seqs = np.array(list(itertools.product(range(V), repeat=L - 1)), np.int32)
  items = [list(p) for n in (1, 2) for p in itertools.product(range(1, 4), repeat=n)]
  prompts_all = [[]] + [[a] for a in (2, 3, 5)] + [[a, b] for a in (2, 3) for b in (2, 4)] + [[5, 4, 2]]
  for name, kw in nets:
    ck.part(f'encoder-decoder {name} {kw}')
    module, params = ll.encdec(name, vocab=V, seed=21, **kw)
    params = jax.tree_util.tree_map(lambda x: x * 1.5, params)
    table = {}
    # oracle: the full pass over every prefix
    full = jax.jit(lambda e, d: module.apply({'params': params}, e, d, jnp.ones_like(d), enable_dropout=False))
    E = np.array([(it + [0])[:2] for it in items], np.int32)
    inp = np.concatenate([np.zeros((len(seqs), 1), np.int32), seqs], 1)
    logits = np.asarray(full(np.repeat(E, len(inp), 0), np.tile(inp, (len(E), 1)))).reshape(len(E), len(inp), L, V)
    table = {(j, tuple(s[:n])): logsm(logits[j, a, n]) for j in range(len(E)) for a, s in enumerate(seqs) for n in range(L)
             if not any(s[n:])}
    for fn, k, all_decodes in calls:
      model = models.EncoderDecoderModel(module, voc_in, voc, None, decode_fn=decoding.temperature_sample if fn == 'sample' else decoding.beam_search)
      opts = SAMPLE if fn == 'sample' else BEAM
      for prompted in (False, True):
        for pad in (0, 1):
          if pad and (prompted or k > 1):
            continue
          rows = [(j, p) for j in range(len(E)) for p in prompts_all] if prompted else [(j, [4, 2, 1]) for j in range(len(E))]
          enc = np.array([list(E[j]) + [0] * pad for j, _ in rows], np.int32)
          dec = np.array([([0] + p + [EOS] + [0] * L)[:L] if prompted else ([0] + p)[:L] for j, p in rows], np.int32)
          case = dict(network=name, options=kw, decode=fn, num_decodes=k, all=all_decodes, prompted=prompted, padding=pad)
          call = jax.jit(lambda e, d: model.predict_batch_with_aux(
              params, dict(encoder_input_tokens=e, decoder_input_tokens=d), decoder_params=dict(opts),
              return_all_decodes=all_decodes, num_decodes=k, prompt_with_targets=prompted))
          ck.case(str(case), n=len(rows))
          ok, res = ck.guarded('predicting', lambda: call(enc, dec), case)
          if ok:
            judge(case, [dict(encoder=E[j], prompt=p if prompted else []) for j, p in rows], lambda i, q: table[rows[i][0], q],
                  [p if prompted else [] for _, p in rows], L, k, res[0], res[1], fn, 0.6, all_decodes, True)
            if not pad and k == 1:
              r = np.random.RandomState(0).permutation(len(rows))
              other = call(enc[r], dec[r])
              ck.case(('order', str(case)), n=len(rows))
              same('predictions depend on the order of the batch', case, np.asarray(res[0])[r], other[0])
              for i in (0, len(rows) - 1):
                one = call(enc[i:i + 1], dec[i:i + 1])
                same('an item alone', dict(case, item=rows[i]), np.asarray(res[0])[i:i + 1], one[0])
  # ---- decoder-only
  for bid in (False, True):
    ck.part(f'decoder-only, bidirectional inputs {bid}')
    module, params = ll.decoder(vocab=V, seed=23)
    params = jax.tree_util.tree_map(lambda x: x * 1.5, params)
    L = 5
    prompts = [list(p) for n in (0, 1, 2) for p in itertools.product((2, 4, 1) if n < 2 else (2, 3), repeat=n)] + [[4, 2, 1], [3, 3, 5, 1]]
    full = jax.jit(lambda d, c: module.apply({'params': params}, d, jnp.ones_like(d), decoder_causal_attention=c if bid else None,
                                             enable_dropout=False))
    table = {}
    for p in prompts:
      rest = L - 1 - len(p)
      tails = np.array(list(itertools.product(range(V), repeat=rest)), np.int32).reshape(V**rest, rest)
      rows = np.concatenate([np.tile(np.array([[0] + p], np.int32), (len(tails), 1)), tails], 1)
      lp = logsm(full(rows, np.tile((np.arange(L) <= len(p)).astype(np.int32), (len(rows), 1))))
      for a, t in enumerate(tails):
        for n in range(rest + 1):
          if not any(t[n:]):
            table[tuple(p), tuple(p) + tuple(t[:n])] = lp[a, len(p) + n]
    for fn, k, all_decodes in calls:
      model = models.DecoderOnlyModel(module, voc, None, decode_fn=decoding.temperature_sample if fn == 'sample' else decoding.beam_search,
                                      inputs_bidirectional_attention=bid)
      opts = SAMPLE if fn == 'sample' else BEAM
      call = jax.jit(lambda d, c: model.predict_batch_with_aux(
          params, dict(decoder_input_tokens=d, decoder_causal_attention=c), decoder_params=dict(opts), return_all_decodes=all_decodes,
          num_decodes=k))
      same_length = [[p for p in prompts if len(p) == n] for n in range(5)]
      batches = [prompts, prompts[::-1]] + (same_length if fn == 'beam' else []) + [[p] for p in (prompts[:2] + prompts[-2:])]
      for targets in (False, True):
        for rows in batches:
          if targets and len(rows) == 1:
            continue
          dec = np.zeros((len(rows), L), np.int32)
          for i, p in enumerate(rows):
            dec[i, 1:1 + len(p)] = p
            if targets:
              dec[i, 1 + len(p):] = np.array([5, 3, 1, 4])[:L - 1 - len(p)]
          cau = (np.arange(L)[None] <= np.array([[len(p)] for p in rows])).astype(np.int32)
          case = dict(network='decoder_only', bidirectional=bid, decode=fn, num_decodes=k, all=all_decodes, targets=targets, batch=rows)
          ck.case(str(case), n=len(rows))
          ok, res = ck.guarded('predicting', lambda: call(dec, cau), case)
          if ok:
            ends = [len(p) for p in rows]
            judge(case, [dict(prompt=p) for p in rows], lambda i, q: table[tuple(rows[i]), q], rows, L, k, res[0], res[1], fn, 0.6,
                  all_decodes, False, cut=ends, only=None if fn == 'sample' else [n == min(ends) for n in ends])

  # ---- stand-in modules: prefill in the decoder, scanned layers, positions
  ck.part('prefill of a decoder prompt')
  tab = ld.table(V, 5) + 0.0007 * np.arange(V, dtype=np.float32)  # no ties
  tab[:, 0] -= 20  # padding is not generated

  class Decoder(nn.Module):
    layers: int
    position: bool

    @nn.compact
    def __call__(self, item, tokens, decode, prefill, prefill_lengths):
      lead = (lambda x: jnp.stack([x] * self.layers)) if self.layers else (lambda x: x)
      get = (lambda x: x[-1]) if self.layers else (lambda x: x)
      B = tokens.shape[0]
      fresh = not self.has_variable('cache', 'cached_h')
      h_ = self.variable('cache', 'cached_h', lambda: lead(jnp.zeros(B, jnp.int32)))
      n_ = self.variable('cache', 'cache_index', lambda: lead(jnp.zeros((), jnp.int32)))
      if self.position:
        pos = PositionEmbedder(name='position_embedder')
      if fresh:
        if self.position:
          pos(False)
        return jnp.zeros(tokens.shape + (V,))
      if prefill:
        h = jnp.zeros(B, jnp.int32)
        for p in range(tokens.shape[1]):
          h = jnp.where(p < prefill_lengths, (h * 7 + tokens[:, p] + 1) % 9973, h)
        h_.value, n_.value = lead(h), lead(prefill_lengths.astype(jnp.int32))
        return jnp.zeros(tokens.shape + (V,))
      h = (get(h_.value) * 7 + tokens[:, 0] + 1) % 9973
      index = jnp.broadcast_to(jnp.reshape(get(n_.value), (-1,)), h.shape)
      h_.value, n_.value = lead(h), n_.value + 1
      x = jnp.asarray(tab)[(h * 3 + item * 11 + index * 5) % ld.N_TABLE]
      if self.position:
        x = jnp.where((pos(True) == index)[:, None], x, -x)
      return x[:, None]

  class PositionEmbedder(nn.Module):

    @nn.compact
    def __call__(self, step):
      i = self.variable('cache', 'position_embedder_index', lambda: jnp.zeros((), jnp.int32))
      now = i.value
      if step:
        i.value = now + 1
      return now

  class Module(nn.Module):
    scan_layers: bool = False
    position: bool = False

    def setup(self):
      self.decoder = Decoder(2 if self.scan_layers else 0, self.position)

    def encode(self, encoder_input_tokens, encoder_segment_ids=None, enable_dropout=True):
      w = jnp.arange(1, encoder_input_tokens.shape[1] + 1)
      return (encoder_input_tokens * w).sum(-1)[:, None, None].astype(jnp.float32)

    def decode(self, encoded, encoder_input_tokens, decoder_input_tokens, decoder_target_tokens, enable_dropout=True, decode=False,
               max_decode_length=None, prefill=False, prefill_lengths=None):
      other = (encoder_input_tokens * jnp.arange(1, encoder_input_tokens.shape[1] + 1)).sum(-1)
      item = jnp.where(encoded[:, 0, 0].astype(jnp.int32) == other, other, 0)
      return self.decoder(item, decoder_input_tokens, decode, prefill, prefill_lengths)

    def __call__(self, encoder_input_tokens, decoder_input_tokens, decoder_target_tokens, decode=False, enable_dropout=True):
      return self.decode(self.encode(encoder_input_tokens), encoder_input_tokens, decoder_input_tokens, decoder_target_tokens, decode=decode)

  L = 5
  E = np.array([(list(p) + [0])[:2] for n in (1, 2) for p in itertools.product((1, 2, 3), repeat=n)], np.int32)
  item_of = lambda e: int(e[0] + 2 * e[1])
  prompts_all = [list(p) for n in range(0, 4) for p in itertools.product((2, 3), repeat=n)] + [[4, 2, 3, 5]]

  def logp_of(e, q):
    h = 0
    for t in (0,) + tuple(q):
      h = int(ld.hstep(h, t))
    return logsm(tab[(h * 3 + item_of(e) * 11 + len(q) * 5) % ld.N_TABLE])

  for scan, position in ((False, False), (True, False), (False, True)):
    module = Module(scan_layers=scan, position=position)
    for fn, k, all_decodes in calls:
      if position and (k > 1 or fn == 'beam'):
        continue
      model = models.EncoderDecoderModel(module, voc_in, voc, None, decode_fn=decoding.temperature_sample if fn == 'sample' else decoding.beam_search)
      opts = SAMPLE if fn == 'sample' else BEAM
      call = jax.jit(lambda e, d, prompted: model.predict_batch_with_aux(
          {}, dict(encoder_input_tokens=e, decoder_input_tokens=d), decoder_params=dict(opts),
          return_all_decodes=all_decodes, num_decodes=k, prompt_with_targets=prompted), static_argnums=2)
      for prompted in (False, True):
        everything = [(e, p) for e in E for p in (prompts_all if prompted else [[]])]
        batches = [everything, everything[::-1]]
        if fn == 'beam' and prompted:
          batches = [[r for r in everything if len(r[1]) == n] for n in range(5)]
        for rows in batches:
          enc = np.array([e for e, _ in rows], np.int32)
          dec = np.array([([0] + p + [EOS] + [0] * L)[:L] for _, p in rows], np.int32)
          case = dict(module='stand-in', scan=scan, position=position, decode=fn, num_decodes=k, all=all_decodes, prompted=prompted,
                      lengths=sorted({len(p) for _, p in rows}))
          ck.case(str((case, len(rows), rows[0][1])), n=len(rows))
          ok, res = ck.guarded('predicting', lambda: call(enc, dec, prompted), case)
          if ok:
            judge(case, [dict(encoder=e, prompt=p) for e, p in rows], lambda i, q: logp_of(rows[i][0], q), [p for _, p in rows],
                  L, k, res[0], res[1], fn, 0.6, all_decodes, False)

  # ---- options given by the caller, and defaults
  ck.part('options')
  seen = []

  def recorder(inputs=None, cache=None, tokens_to_logits=None, num_decodes=None, **kw):
    """Returns distinguishable sequences in ascending order of their scores."""
    seen.append(dict(kw, num_decodes=num_decodes))
    B = inputs.shape[0]
    scores = jnp.arange(B * num_decodes, dtype=jnp.float32).reshape(B, num_decodes)
    return jnp.broadcast_to(scores[:, :, None].astype(jnp.int32) + 10, (B, num_decodes, inputs.shape[1])), scores

  class Only(nn.Module):

    @nn.compact
    def __call__(self, decoder_input_tokens, decoder_target_tokens, decode=False, prefill=False, prefill_lengths=None, **kw):
      n = self.variable('cache', 'cache_index', lambda: jnp.zeros((), jnp.int32))
      x = jnp.asarray(tab)[(decoder_input_tokens * 3 + jnp.reshape(n.value, (-1, 1)) * 5) % ld.N_TABLE]
      n.value = prefill_lengths if prefill else n.value + 1
      return x

  for cls in ('encdec', 'deconly'):
    make = ((lambda v, f, **kw: models.EncoderDecoderModel(Module(), voc, v, None, decode_fn=f, **kw)) if cls == 'encdec' else
            (lambda v, f, **kw: models.DecoderOnlyModel(Only(), v, None, decode_fn=f, **kw)))
    if cls == 'encdec':
      pp, batch = {}, dict(encoder_input_tokens=E[:2], decoder_input_tokens=np.zeros((2, 3), np.int32))
    else:
      pp, batch = {}, dict(decoder_input_tokens=np.array([[0, 2, 3], [0, 3, 0]], np.int32), decoder_causal_attention=np.array([[1, 1, 0], [1, 1, 0]], np.int32))
    model = make(voc, recorder)
    for given, rng, nd, alld in itertools.product(
        [None, {}, dict(eos_id=4), dict(eos_id=0, alpha=1.0), dict(temperature=0.5, topk=3), dict(decode_rng=None), dict(decode_rng='key')],
        (None, 0, 1), (1, 2, 3), (False, True)):
      case = dict(model=cls, decoder_params=given, rng=rng, num_decodes=nd, all=alld)
      mine = copy.copy(given)
      if mine and mine.get('decode_rng') == 'key':
        mine['decode_rng'] = jax.random.PRNGKey(7)
      before = copy.copy(mine)
      key = None if rng is None else jax.random.PRNGKey(rng)
      ck.case(('options', str(case)))
      call = lambda: model.predict_batch_with_aux(pp, batch, rng=key, decoder_params=mine, num_decodes=nd, return_all_decodes=alld)
      if before and before.get('decode_rng') is not None and rng is not None:
        ck.expect_raises('two random keys', call, case, ValueError)
        continue
      for time in ('first', 'second'):
        del seen[:]
        plain = given is None and rng is None
        ok, res = ck.guarded(f'predicting with options, {time} time', call if plain else lambda: jax.eval_shape(lambda: call()), case)
        if not ok:
          break
        ck.expect((before is None) == (mine is None) and (mine is None or (before.keys() == mine.keys() and all(before[k] is mine[k] for k in mine))),
                  'the options of the caller are modified', case, before, mine)
        got = seen[-1] if seen else {}
        want = dict(eos_id=voc.eos_id, decode_rng=None)
        want.update(before or {})
        if key is not None:
          want['decode_rng'] = key
        ck.expect(len(seen) == 1 and got['num_decodes'] == nd and all(np.array_equal(got.get(k), w) if w is not None else got.get(k) is None
                                                                      for k, w in want.items()),
                  'options of the decoding function', case, want, {k: got.get(k) for k in want})
        sc = np.arange(2 * nd).reshape(2, nd)
        w = sc + 10 if alld else sc[:, -1] + 10
        ck.expect(res[0].shape == w.shape + (3,) and res[1]['scores'].shape == w.shape, 'shape of what is returned', case, w.shape + (3,), res[0].shape)
        if plain:
          same('which sequences are returned', case, w, res[0][..., 0])
          same('which scores are returned', case, (sc if alld else sc[:, -1]).astype(np.float32), res[1]['scores'])
    for nd, alld in itertools.product((1, 2, 3), (False, True)):
      m3 = make(voc, recorder, default_decoder_params=models.DecoderParams(return_all_decodes=alld, num_decodes=nd)) if cls == 'encdec' else None
      if m3 is None:
        continue
      for nd2, all2 in itertools.product((None, 1, 4), (None, False, True)):
        kw = {k: v for k, v in dict(num_decodes=nd2, return_all_decodes=all2).items() if v is not None}
        n, a = nd if nd2 is None else nd2, alld if all2 is None else all2
        case = dict(defaults=(nd, alld), given=kw)
        ck.case(('defaults', str(case)))
        sc = np.arange(2 * n).reshape(2, n)
        ok, res = ck.guarded('predicting with defaults', lambda: m3.predict_batch_with_aux(pp, batch, **kw), case)
        if ok:
          same('default decoding options', case, np.repeat(((sc if a else sc[:, -1]) + 10)[..., None], 3, -1), res[0])
        if not kw:
          same('predict_batch', case, np.asarray(res[0]), m3.predict_batch(pp, batch))
    # the real functions with a key and another end of sequence
    f = decoding.temperature_sample
    call = jax.jit(lambda r, d: make(voc, f).predict_batch_with_aux(pp, batch, rng=r, decoder_params=dict(topk=0, decode_rng=d), num_decodes=3, return_all_decodes=True))
    for r in range(3):
      ck.case(('rng', cls, r))
      same('the random key', dict(model=cls, key=r), np.asarray(call(jax.random.PRNGKey(r), None)[0]), call(None, jax.random.PRNGKey(r))[0])
    for f, eos in ((decoding.temperature_sample, 2), (decoding.beam_search, 3)):
      a = jax.jit(lambda: make(seqio.PassThroughVocabulary(V, eos), f).predict_batch_with_aux(pp, batch))()
      b = jax.jit(lambda: make(voc, f).predict_batch_with_aux(pp, batch, decoder_params=dict(eos_id=eos)))()
      ck.case(('eos', cls, eos))
      same('end of sequence id', dict(model=cls, eos=eos), np.asarray(a[0]), b[0])
  ck.expect_raises('a batch without prompts', lambda: models.DecoderOnlyModel(ll.decoder(vocab=V)[0], voc, None).predict_batch(
      None, dict(decoder_input_tokens=np.zeros((1, 3), np.int32))), 'decoder-only', ValueError)

  # ================================================================ scoring and losses
  ck.part('scoring')
  L = 3
  tg = np.array(list(itertools.product(range(4), repeat=L)), np.int32)
  for cls in ('encdec', 'deconly', 'prefix'):
    if cls == 'encdec':
      module, params = ll.encdec('t5', vocab=V, seed=31)
    else:
      module, params = ll.decoder(vocab=V, seed=31)
    for ls, z, norm in ((0.0, 0.0, None), (0.1, 0.0, None), (0.2, 1e-2, 3.0), (0.2, 1e-2, 'NUM_REAL_TARGET_TOKENS')):
      n = len(tg)
      ws = np.array(list(itertools.product((0., 1.) if ls else (0., 1., 0.5), repeat=L)), np.float32)
      W = ws[(np.arange(n) * 5) % len(ws)]
      batch = dict(decoder_target_tokens=tg, decoder_loss_weights=W, decoder_input_tokens=np.concatenate([np.zeros((n, 1), np.int32), tg[:, :-1]], 1))
      kw = dict(label_smoothing=ls, z_loss=z, loss_normalizing_factor=norm)
      if cls == 'encdec':
        batch['encoder_input_tokens'] = np.array([[1 + i % 4, (i // 4) % 3] for i in range(n)], np.int32)
        model = models.EncoderDecoderModel(module, voc_in, voc, None, **kw)
        raw = lambda b, **m: module.apply({'params': params}, b['encoder_input_tokens'], b['decoder_input_tokens'], b['decoder_target_tokens'],
                                          encoder_segment_ids=b.get('encoder_segment_ids'), decoder_segment_ids=b.get('decoder_segment_ids'), **m)
      else:
        batch['decoder_causal_attention'] = (np.arange(L)[None] <= (np.arange(n) % 3)[:, None]).astype(np.int32)
        model = models.DecoderOnlyModel(module, voc, None, inputs_bidirectional_attention=cls == 'prefix', **kw)
        raw = lambda b, **m: module.apply({'params': params}, b['decoder_input_tokens'], b['decoder_target_tokens'],
                                          decoder_segment_ids=b.get('decoder_segment_ids'),
                                          decoder_causal_attention=b['decoder_causal_attention'] if cls == 'prefix' else None, **m)
      for packed in (False, True):
        b = dict(batch)
        if packed:
          seg = np.cumsum(np.array([[1, i % 2, (i // 2) % 2] for i in range(n)]), 1).astype(np.int32) * (tg > 0)
          b['decoder_segment_ids'] = seg
          b['decoder_positions'] = np.zeros_like(seg)
          if cls == 'encdec':
            b['encoder_segment_ids'] = np.array([[1, 1 + i % 2] for i in range(n)], np.int32)
            b['encoder_positions'] = np.zeros((n, 2), np.int32)
        case = dict(model=cls, packed=packed, **kw)
        logits = np.asarray(raw(b, enable_dropout=False), np.float64)
        tok = np.take_along_axis(logsm(logits), tg[..., None], -1)[..., 0]
        ck.case(('score', str(case)), n=n)
        score = model.score_batch(params, b)
        same('scores', case, (tok * W).sum(-1), score)
        s2, inter = model.score_batch(params, b, return_intermediates=True)
        same('scores with intermediates', case, np.asarray(score), s2, 1e-5)
        ok, _ = ck.guarded('intermediates', lambda: [same(f'intermediate {k}', case, w, inter['decoder'][k][0]) for k, w in (
            ('target_tokens', tg), ('loss_weights', W), ('token_scores', tok * W))], case)
        one = model.score_batch(params, {k: v[5:6] for k, v in b.items()})
        same('the score of an item alone', case, np.asarray(score)[5:6], one, 1e-4)
        # loss
        ck.case(('loss', str(case)), n=n)
        norm_, weights = losses.get_loss_normalizing_factor_and_weights(norm, b)
        want = losses.compute_weighted_cross_entropy(jnp.asarray(logits, jnp.float32), tg, weights, ls, z, norm_)
        for f, extra in ((model.loss_fn, dict(dropout_rng=None)), (model.eval_fn, {})):
          loss, metrics = f(params, b, **extra)
          same('loss', case, np.asarray(want[0]), loss, 1e-4)
          mask = np.asarray(weights)
          if set(np.unique(W)) - {0., 1.}:
            continue
          ck.expect(abs(float(metrics['accuracy'].compute()) - ((logits.argmax(-1) == tg) * mask).sum() / mask.sum()) < 1e-4,
                    'accuracy', case, ((logits.argmax(-1) == tg) * mask).sum() / mask.sum(), float(metrics['accuracy'].compute()))
          nonpad = metrics.get('non_padding_fraction/loss_weights')
          if nonpad is not None:
            ck.expect(abs(float(nonpad.compute()) - (mask > 0).mean()) < 1e-5, 'fraction of weighted positions', case, (mask > 0).mean(), float(nonpad.compute()))
          seen = {k: float(v.compute()) for k, v in metrics.items() if k.startswith('non_padding_fraction/') and not k.endswith(('loss_weights', 'overall'))}
          ids = ({k: b[f'{k}_segment_ids'] for k in (['encoder'] if cls == 'encdec' else []) + ['decoder']} if packed else
                 {k: b[k] for k in (['encoder_input_tokens'] if cls == 'encdec' else []) + ['decoder_target_tokens']})
          wantf = {f'non_padding_fraction/{k}': float((v != 0).mean()) for k, v in ids.items()}
          ck.expect(seen.keys() == wantf.keys() and all(abs(seen[k] - wantf[k]) < 1e-5 for k in seen), 'padding fractions', case, wantf, seen)

  # dropout only when a key is given
  ck.part('dropout of the loss')
  for cls in ('encdec', 'deconly'):
    if cls == 'encdec':
      module, params = ll.encdec('t5', vocab=V, seed=31, dropout_rate=0.5)
      model = models.EncoderDecoderModel(module, voc_in, voc, None)
    else:
      module, params = ll.decoder(vocab=V, seed=31, dropout_rate=0.5)
      model = models.DecoderOnlyModel(module, voc, None)
    b = dict(encoder_input_tokens=np.array([[1, 2]] * 4), decoder_target_tokens=tg[40:44], decoder_input_tokens=tg[40:44], decoder_loss_weights=np.ones((4, 3), np.float32))
    quiet = [float(model.loss_fn(params, b, None)[0]), float(model.eval_fn(params, b)[0])]
    noisy = [float(model.loss_fn(params, b, jax.random.PRNGKey(i))[0]) for i in (0, 0, 1)]
    ck.case(('dropout', cls), n=5)
    ck.expect(quiet[0] == quiet[1] and noisy[0] == noisy[1] and len({quiet[0], noisy[0], noisy[2]}) == 3, 'dropout', cls, None, (quiet, noisy))

  # ---- every feature of the batch reaches the network under its own name
  ck.part('features passed to the network')

  class EncDec(nn.Module):

    @nn.compact
    def __call__(self, encoder_input_tokens, decoder_input_tokens, decoder_target_tokens, encoder_segment_ids=None,
                 decoder_segment_ids=None, encoder_positions=None, decoder_positions=None, *, enable_dropout=True, **kw):
      seen.append(dict(encoder_input_tokens=encoder_input_tokens, decoder_input_tokens=decoder_input_tokens,
                       decoder_target_tokens=decoder_target_tokens, encoder_segment_ids=encoder_segment_ids,
                       decoder_segment_ids=decoder_segment_ids, encoder_positions=encoder_positions,
                       decoder_positions=decoder_positions, decoder_causal_attention=None, enable_dropout=enable_dropout,
                       decode=kw.get('decode', False), dropout_key=self.has_rng('dropout')))
      return jnp.zeros(decoder_target_tokens.shape + (V,))

  class Dec(nn.Module):

    @nn.compact
    def __call__(self, decoder_input_tokens, decoder_target_tokens, decoder_segment_ids=None, decoder_positions=None,
                 decoder_causal_attention=None, *, enable_dropout=True, **kw):
      seen.append(dict(decoder_input_tokens=decoder_input_tokens, decoder_target_tokens=decoder_target_tokens,
                       decoder_segment_ids=decoder_segment_ids, decoder_positions=decoder_positions,
                       decoder_causal_attention=decoder_causal_attention, enable_dropout=enable_dropout,
                       decode=kw.get('decode', False), dropout_key=self.has_rng('dropout')))
      return jnp.zeros(decoder_target_tokens.shape + (V,))

  extras = {'encoder_segment_ids': [[1, 1]], 'decoder_segment_ids': [[1, 2, 2]], 'encoder_positions': [[0, 1]], 'decoder_positions': [[0, 0, 1]]}
  for cls in ('encdec', 'deconly', 'prefix'):
    model = (models.EncoderDecoderModel(EncDec(), voc_in, voc, None) if cls == 'encdec' else
             models.DecoderOnlyModel(Dec(), voc, None, inputs_bidirectional_attention=cls == 'prefix'))
    base = dict(decoder_input_tokens=[[0, 3, 4]], decoder_target_tokens=[[3, 4, 1]], decoder_loss_weights=[[1., 0., 1.]])
    base.update(dict(encoder_input_tokens=[[4, 2]]) if cls == 'encdec' else dict(decoder_causal_attention=[[1, 1, 0]]))
    own = [k for k in extras if cls == 'encdec' or k.startswith('decoder')]
    for r in range(len(own) + 1):
      for sub in itertools.combinations(own, r):
        b = {k: np.array(v) for k, v in dict(base, **{k: extras[k] for k in sub}).items()}
        for what, call, dropout in (('loss_fn', lambda: model.loss_fn({}, b, None), False), ('loss_fn', lambda: model.loss_fn({}, b, jax.random.PRNGKey(0)), True),
                                    ('eval_fn', lambda: model.eval_fn({}, b), False), ('score_batch', lambda: model.score_batch({}, b), False)):
          case = dict(model=cls, features=sub, call=what, dropout=dropout)
          seen = []
          ck.case(('features', str(case)))
          if not ck.guarded('features', call, case)[0]:
            continue
          ck.expect(len(seen) == 1, 'one pass of the network', case, 1, len(seen))
          want = {k: b.get(k) for k in seen[0] if k not in ('enable_dropout', 'decode', 'dropout_key')}
          if cls != 'prefix':
            want['decoder_causal_attention'] = None
          want.update(enable_dropout=dropout, decode=False, dropout_key=dropout)
          bad = [k for k in want if (want[k] is None) != (seen[0][k] is None) or want[k] is not None and not np.array_equal(want[k], seen[0][k])]
          ck.expect(not bad, 'a feature of the batch reaches the network as something else', case, {k: want[k] for k in bad}, {k: seen[0][k] for k in bad})

  # ---- initial variables
  ck.part('initial variables')
  shapes = dict(encoder_input_tokens=(2, 3), decoder_input_tokens=(2, 4))
  extra = ['encoder_positions', 'decoder_positions', 'encoder_segment_ids', 'decoder_segment_ids']
  m, _ = ll.encdec('t5', vocab=V)
  model = models.EncoderDecoderModel(m, voc_in, voc, None)
  base = None
  for r in range(len(extra) + 1):
    for sub in itertools.combinations(extra, r):
      if ('encoder_segment_ids' in sub) != ('decoder_segment_ids' in sub):
        continue
      for types in (None, {k: jnp.int32 for k in list(shapes) + list(sub)}):
        given = dict(shapes, **{k: shapes['encoder_input_tokens' if k.startswith('enc') else 'decoder_input_tokens'] for k in sub})
        case = dict(features=sub, types=types is not None)
        ck.case(('init', str(case)))
        ok, v = ck.guarded('initial variables', lambda: jax.eval_shape(
            lambda k: model.get_initial_variables(k, given, types), jax.random.PRNGKey(0)), case)
        if ok:
          got = jax.tree_util.tree_map(lambda x: x.shape, ll.unbox(v['params']))
          base = base or got
          ck.expect(base == got and 'cache' not in v, 'initial variables', case, base, got)
  m, _ = ll.decoder(vocab=V)
  v = models.DecoderOnlyModel(m, voc, None).get_initial_variables(jax.random.PRNGKey(0), dict(decoder_input_tokens=(2, 4)))
  ck.expect('cache' not in v and ll.unbox(v['params'])['decoder']['token_embedder']['embedding'].shape == (V, 4), 'initial variables', 'decoder-only')
