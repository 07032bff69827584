"""M10: early-exit (CALM) decoding and its training losses."""
import itertools
import math

from mc import par

TECHNIQUE = 'enum'
LEVEL = 'model'
RULE = ('every exit configuration of the grid (layers x first exit x interval x minimum exit x confidence '
        'measure x oracle variant) x every threshold x every batch, decoded by the real model over a '
        'stand-in stack of layers with real caches; distinct = configuration, threshold and batch')
ASSUMPTIONS = ['the network is a stand-in: layers add token-dependent vectors and what their cache holds',
               'cases in which a confidence is within 1e-4 of the threshold are left out']

V, T, EOS = 5, 4, 1


def tables(layers):
  import numpy as np
  r = np.random.RandomState(10)
  f = lambda *s: (r.randint(-24, 25, s) / 16.0)
  return dict(embed=f(V, V), add=f(layers, V, V), mix=f(layers, V) / 8, meta=f(layers, V, 2) / 2, out=f(V) / 2 + 1.0)


class Module:
  """Interface of the network that the models use, on stand-in layers."""

  def decode(self):
    pass

  def encode(self):
    pass

  def compute_logits(self):
    pass

  def __init__(self, layers, meta=False):
    self.layers, self.meta = layers, meta

  def apply(self, variables, *args, method=None, mutable=None, start_idx=0, end_idx=None,
            decoder_embedded_input=None, return_prelogits=False, only_propagate_state=False, **unused):
    import jax.numpy as jnp
    t = variables['params']
    method = getattr(method, '__name__', None)
    if method is None and unused.get('decode'):
      n = (args[0] if args else unused['encoder_input_tokens']).shape[0]
      return None, {'cache': {f'layer_{l}': {'cached_key': jnp.zeros((n, T)), 'cache_index': jnp.zeros((), jnp.int32)}
                              for l in range(self.layers)}}
    if method is None:
      return t['logits'] if 'meta_logits' not in t else (t['logits'], t['meta_logits'])
    if method == 'encode':
      return args[0].astype(jnp.float32)[..., None]
    if method == 'compute_logits':
      return args[0] * t['out']
    encoded, _, ids = args[:3]
    h = decoder_embedded_input
    if h is None:
      h = t['embed'][ids] + encoded.mean(axis=(1, 2))[:, None, None] / 8
    cache = dict(variables['cache'])
    for l in range(start_idx, self.layers if end_idx is None else end_idx):
      c = cache[f'layer_{l}']
      i = c['cache_index']
      key = h[:, 0, 0] + 2 * h[:, 0, 1]
      k = jnp.where(jnp.arange(T)[None] == i, key[:, None], c['cached_key'])
      cache[f'layer_{l}'] = {'cached_key': k, 'cache_index': i + 1}
      if not only_propagate_state:
        seen = (k * (jnp.arange(T) + 1)).sum(-1)[:, None, None]
        h = h + t['add'][l][ids] + seen * t['mix'][l]
      meta = h @ t['meta'][l]
    if not return_prelogits:
      h = h * t['out']
    elif self.meta:
      h = (h, meta) if start_idx < (self.layers if end_idx is None else end_idx) else (h, jnp.zeros(h.shape[:2] + (2,)))
    return h, {'cache': cache}


def reference(t, layers, cfg, thr, inputs):
  """Early exit step by step; returns per step (tokens, exit layer, confidences) and the smallest margin."""
  import numpy as np
  n = len(inputs)
  keys = [[] for _ in range(layers)]
  enc = np.array(inputs, float).mean(-1)[:, None] / 8

  def soft(x):
    e = np.exp(x - x.max(-1, keepdims=True))
    return e / e.sum(-1, keepdims=True)

  def layer(l, h, ids, ks, only=False):
    ks[l] = ks[l] + [h[:, 0] + 2 * h[:, 1]]
    if only:
      return h
    seen = sum(k * (j + 1) for j, k in enumerate(ks[l]))
    return h + t['add'][l][ids] + seen[:, None] * t['mix'][l]

  def conf(h, prev, l):
    m = cfg['conf']
    if m == 'meta':
      return soft(h @ t['meta'][l])[:, 1]
    if m == 'state':
      return np.zeros(n) if prev is None else (prev * h).sum(-1) / (np.linalg.norm(prev) * np.linalg.norm(h))
    p = np.sort(soft(h * t['out']), -1)
    return p[:, -1] if m == 'softmax_max' else p[:, -1] - p[:, -2]

  ids, ended, out, margin = np.zeros(n, int), np.zeros(n, bool), [], 1.0
  for step in range(T):
    limit = thr * (math.exp(-cfg['temp'] * step / T) / 10 + 0.9) if cfg['position'] else thr
    full_keys = list(keys)
    full = t['embed'][ids] + enc
    for l in range(layers):
      full = layer(l, full, ids, full_keys)
    full = full * t['out']
    h = t['embed'][ids] + enc
    at = cfg['first'] + 1
    for l in range(at):
      h = layer(l, h, ids, keys)
    c = conf(h, None, at - 1)
    while True:
      if cfg['oracle'] == 'consistency':
        s = np.sort(h * t['out'], -1)
        margin = min(margin, (s[:, -1] - s[:, -2]).min())
        more = at < layers and (h * t['out']).argmax() != full.argmax()
      else:
        margin = min(margin, abs(c.min() - limit))
        more = (c.min() < limit and at < layers) or at < cfg['min']
      if not more:
        break
      prev, end = h, min(at + cfg['every'], layers)
      for l in range(at, end):
        h = layer(l, h, ids, keys)
      at = end
      c = conf(h, prev, at - 1)
    exit_layer = at
    rest = h
    for l in range(at, layers):
      rest = layer(l, rest, ids, keys, only=cfg['oracle'] != 'cache')
    logits = full if cfg['oracle'] == 'noisy' else h * t['out']
    s = np.sort(logits, -1)
    margin = min(margin, (s[:, -1] - s[:, -2]).min())
    ids = np.where(ended, 0, logits.argmax(-1))
    out.append((ids.tolist(), exit_layer, c.tolist()))
    ended = ended | (ids == EOS)
    if ended.all():
      break
  return out, margin


def decode(item):
  """All thresholds and batches of one configuration on the real model."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  import seqio
  from t5x import decoding
  from t5x import models
  from t5x.contrib.calm import models as calm
  layers, cfg, thresholds, batches = item
  t = tables(layers)
  voc = seqio.PassThroughVocabulary(V, eos_id=EOS)
  try:
    common = dict(input_vocabulary=voc, output_vocabulary=voc, optimizer_def=None)
    m = calm.EncoderDecoderModel(
        module=Module(layers, cfg['conf'] == 'meta'), apply_early_inference=True, decoder_layers=layers,
        min_exit=cfg['min'], first_exit=cfg['first'], exit_interval=cfg['every'],
        oracle_tok_consistency=cfg['oracle'] == 'consistency', oracle_cache=cfg['oracle'] == 'cache',
        oracle_tok_noisy_cache=cfg['oracle'] == 'noisy', conf_method=cfg['conf'],
        position_adjusted_threshold=cfg['position'], position_temp=cfg['temp'], **common)

    @jax.jit
    def run(params, batch, thr):
      m.conf_threshold = thr
      last, aux = m.predict_batch_with_aux(params, batch)
      every, aux2 = m.predict_batch_with_aux(params, batch, return_all_decodes=True)
      return last, aux, every, aux2

    out = []
    with jax.default_matmul_precision('highest'):
      p = jax.tree_util.tree_map(lambda x: jnp.asarray(x, jnp.float32), t)
      for thr, inp in itertools.product(thresholds, batches):
        b = dict(encoder_input_tokens=jnp.array(inp), decoder_input_tokens=jnp.zeros((len(inp), T), jnp.int32))
        last, aux, every, aux2 = jax.tree_util.tree_map(np.asarray, run(p, b, jnp.float32(thr)))
        same = (every[:, -1] == last).all() and all((aux2[k][:, -1] == aux[k]).all() for k in aux)
        out.append((last.tolist(), aux['exits'].tolist(), aux['confidences'].tolist(), bool(same)))
      plain = []
      if cfg['plain']:
        for inp in batches:
          b = dict(encoder_input_tokens=jnp.array(inp), decoder_input_tokens=jnp.zeros((len(inp), T), jnp.int32))
          got = []
          for cls in (calm.EncoderDecoderModel, models.EncoderDecoderModel):
            x = cls(module=Module(layers), decode_fn=decoding.temperature_sample, **common)
            for kw in ({}, dict(return_all_decodes=True, num_decodes=2)):
              y, a = x.predict_batch_with_aux(p, b, decoder_params=dict(temperature=0.0), **kw)
              got.append((np.asarray(y).tolist(), np.asarray(a['scores']).tolist()))
          plain.append((got[:2], got[2:]))
    return out, plain, None
  except Exception as e:  # pylint: disable=broad-except
    return None, None, f'{type(e).__name__}: {str(e)[:300]}'


def decoding_part(ck):
  one = [[[2, 3, 4]], [[4, 1, 0]], [[3, 3, 1]]]
  two = [[[2, 3, 4], [4, 1, 0]], [[3, 1, 0], [2, 2, 1]]]
  items = []
  depth = (1, 2, 4) if not ck.thorough else (1, 2, 3, 4, 5, 6)
  for layers in depth:
    for first, every in itertools.product(range(layers), range(1, max(2, layers))):
      for conf, oracle in itertools.product(('softmax_max', 'softmax_diff', 'softmax_diff_approx', 'meta', 'state'),
                                            (None, 'cache', 'noisy', 'consistency')):
        for least in (0, layers, (layers + 1) // 2):
          for position in (False, True):
            if oracle and conf != 'softmax_max' or position and conf == 'state':
              continue  # an oracle does not depend on the measure
            base = conf == 'softmax_max' and not position
            if not ck.thorough and not (base and least == 0) and (first + every + least + 2 * layers + len(conf)) % 15:
              continue
            cfg = dict(first=first, every=every, min=least, conf=conf, oracle=oracle, position=position, temp=4,
                       plain=base and least == 0 and oracle is None and first == 0 and every == 1)
            single = oracle == 'consistency' or conf == 'state'
            items.append((layers, cfg, [0.0, 0.3, 0.5, 0.7, 0.9, 2.0], one if single else (one[:1] + two)))
  seen = {}
  for i in items:
    seen[str(i)] = i
  items = list(seen.values())
  for item, (out, plain, err) in zip(items, par.pmap('m10', 'decode', items, jobs=7)):
    layers, cfg, thresholds, batches = item
    case = dict(cfg, layers=layers)
    if err:
      ck.case(str(case))
      ck.violation(f'early-exit decoding failed: {err}', case)
      continue
    t = tables(layers)
    for (thr, inp), (toks, exits, confs, same) in zip(itertools.product(thresholds, batches), out):
      want, margin = reference(t, layers, cfg, thr, inp)
      c = dict(case, threshold=thr, inputs=inp)
      if margin < 1e-4:
        continue
      ck.case(str(c), sample=c)
      n, steps = len(inp), len(want)
      w = ([[want[s][0][b] if s < steps else 0 for s in range(T)] for b in range(n)],
           [[want[s][1] if s < steps else -1 for s in range(T)] for b in range(n)])
      ck.expect((toks, exits) == w, 'tokens and exit layers of early-exit decoding', c, w, (toks, exits))
      wc = [[want[s][2][b] if s < steps else -1.0 for s in range(T)] for b in range(n)]
      ck.expect(all(abs(x - y) < 1e-4 for r, q in zip(wc, confs) for x, y in zip(r, q)),
                'confidences of early-exit decoding', c, wc, confs)
      ck.expect(same, 'the best decode is not the last of all decodes', c)
    for inp, (a, b) in zip(batches, plain):
      ck.case(('plain', layers, str(inp)))
      ck.expect(a == b, 'decoding without early exit differs from the plain model', dict(case, inputs=inp), b, a)


def losses_part(ck):
  import jax
  import jax.numpy as jnp
  import numpy as np
  import seqio
  from t5x.contrib.calm import models as calm
  voc = seqio.PassThroughVocabulary(V, eos_id=EOS)
  r = np.random.RandomState(3)

  def soft(x):
    return x - np.log(np.exp(x).sum(-1, keepdims=True))

  def value(d):
    return {k: float(v.compute()) for k, v in d.items() if 'layer_' in k and 'loss' not in k}

  targets = np.array([[2, 3, 1, 0], [4, 1, 0, 0]])
  masks = [np.ones((2, T)), (targets != 0) * 1.0, np.array([[1., 0, 1, 0], [0, 0, 0, 0]])]
  for layers, mask, agg, smooth, norm in itertools.product((1, 2, 3, 4), masks, (-1, 0, 1, 2), (0.0, 0.2), (None, 3.0)):
    logits = r.randn(layers, 2, T, V)
    case = dict(layers=layers, weights=mask.tolist(), aggregation=agg, label_smoothing=smooth, normalizer=norm)
    ck.case(str(case))
    m = calm.EncoderDecoderModel(module=Module(layers), input_vocabulary=voc, output_vocabulary=voc, optimizer_def=None,
                                 label_smoothing=smooth, loss_normalizing_factor=norm, aggregation_weights=agg)
    b = dict(encoder_input_tokens=targets, decoder_input_tokens=targets, decoder_target_tokens=jnp.array(targets),
             decoder_loss_weights=jnp.array(mask))
    ok, got = ck.guarded('the loss', lambda: m.loss_fn({'logits': jnp.array(logits)}, b, jax.random.PRNGKey(0)), case)
    if not ok:
      continue
    hot = np.full((V,), smooth / (V - 1))
    gold = np.where(np.arange(V) == targets[..., None], 1 - smooth, hot)
    floor = -((1 - smooth) * np.log(1 - smooth) + (V - 1) * hot[0] * np.log(hot[0] + 1e-20))
    per = [(((-(gold * soft(x)).sum(-1)) - floor) * mask).sum() / (norm or 1) for x in logits]
    w = [2.0 ** i if agg == -1 else 1.0 if agg == 0 else 1.0 + agg * i for i in range(layers)]
    want = sum(x * y for x, y in zip(per, w)) / sum(w)
    ck.expect(abs(float(got[0]) - want) < 1e-3, 'loss of the layers', case, want, float(got[0]))
    acc = {f'accuracy_per_layer/layer_{i}': float((((logits[i].argmax(-1) == targets) * mask).sum()) / mask.sum())
           for i in range(layers - 1)}
    g = value(got[1])
    ck.expect(g.keys() == acc.keys() and all(abs(g[k] - acc[k]) < 1e-5 for k in g), 'accuracies of the layers', case, acc, g)
  for layers, mask, norm in itertools.product((2, 3, 4), masks, (None, 3.0)):
    logits, meta = r.randn(layers, 2, T, V), r.randn(layers, 2, T, 2)
    case = dict(layers=layers, weights=mask.tolist(), normalizer=norm, classifier=True)
    ck.case(str(case))
    b = dict(encoder_input_tokens=targets, decoder_input_tokens=targets, decoder_target_tokens=jnp.array(targets),
             decoder_loss_weights=jnp.array(mask))
    for geom in (False, True):
      m = calm.EncoderDecoderModel(module=Module(layers), input_vocabulary=voc, output_vocabulary=voc, optimizer_def=None,
                                   loss_normalizing_factor=norm, train_meta_cls=True, geomlike_loss=geom)
      ok, got = ck.guarded('the loss', lambda: m.loss_fn(
          {'logits': jnp.array(logits), 'meta_logits': jnp.array(meta)}, b, jax.random.PRNGKey(0)), dict(case, geometric=geom))
      if not ok:
        continue
      pred = logits.argmax(-1)
      agree = (pred == pred[-1]).astype(int)
      if not geom:
        per = []
        for l in range(layers - 1):
          pos, neg = (agree[l] * mask == 1).sum(), ((1 - agree[l]) * mask == 1).sum()
          bal = mask * np.where(agree[l] == 1, neg / (pos + neg), pos / (pos + neg))
          ce = -np.take_along_axis(soft(meta[l]), agree[l][..., None], -1)[..., 0]
          per.append((ce * bal).sum() / (norm or 1))
        want = np.mean(per)
      else:
        ls = soft(meta)
        stop = ls[..., 1] + np.cumsum(ls[..., 0], 0) - ls[..., 0]
        first = agree.argmax(0)
        want = (-np.take_along_axis(soft(np.moveaxis(stop, 0, -1)), first[..., None], -1)[..., 0] * mask).sum() / (norm or 1)
      ck.expect(abs(float(got[0]) - want) < 1e-3, 'loss of the exit classifiers', dict(case, geometric=geom), want, float(got[0]))
      acc = {f'meta_accuracy/layer_{i}': float(((meta[i].argmax(-1) == agree[i]) * mask).sum() / mask.sum()) for i in range(layers - 1)}
      g = value(got[1])
      ck.expect(g.keys() == acc.keys() and all(abs(g[k] - acc[k]) < 1e-5 for k in g),
                'accuracies of the exit classifiers', dict(case, geometric=geom), acc, g)


def check(ck):
  ck.part('losses')
  losses_part(ck)
  ck.part('decoding')
  decoding_part(ck)
