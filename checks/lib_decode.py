"""Table models and reference replay shared by the decoding checks."""
import itertools

import numpy as np
import jax
import jax.numpy as jnp

NEG = -1e7
N_TABLE = 97
MIN_T = 1e-4


def table(v, seed=0, n=N_TABLE):
  """n rows of v logits, pairwise distinct inside a row, deterministic."""
  i = np.arange(n)[:, None]
  j = np.arange(v)[None, :]
  t = 1.9 * np.sin(12.9898 * (i + 1) * (j + 1) + 78.233 * j + seed * 3.7)
  t = np.round(t * 64) / 64 + j / 256.0
  return t.astype(np.float32)


def prompts(vocab, max_len, length, min_len=0):
  """All right-padded inputs: BOS 0, then a prompt of nonzero tokens."""
  out = []
  for n in range(min_len, max_len + 1):
    for p in itertools.product(vocab, repeat=n):
      out.append([0] + list(p) + [0] * (length - 1 - n))
  return np.array(out, np.int32)


def hstep(h, tok):
  return (h * 7 + tok + 1) % 9973


def prefill(inputs, idx):
  """Cache content after consuming inputs[:, :idx]."""
  h = np.zeros(len(inputs), np.int32)
  for r in range(len(inputs)):
    for p in range(int(idx[r])):
      h[r] = hstep(h[r], int(inputs[r, p]))
  return h


class TableModel:
  """Next-token logits from the item, the consumed history and a script.

  The history is only known through the cache, so a cache mix-up shows up as
  wrong logits; `sequences` and `cur_index` are cross-checked against it.
  """

  def __init__(self, v, length, seed=0, boost=3.0, layers=0):
    self.v, self.length, self.boost = v, length, boost
    self.tab = table(v, seed)
    self.layers = layers  # >0: cache leaves carry a leading layer axis

  def cache(self, item, script, h=None, vector_index=None):
    item = jnp.asarray(item, jnp.int32)
    script = jnp.asarray(script, jnp.int32)
    h = jnp.zeros(item.shape, jnp.int32) if h is None else jnp.asarray(h, jnp.int32)
    lead = (lambda x: x) if not self.layers else (
        lambda x: jnp.stack([x] * self.layers))
    c = {'dec': {'cached_item': lead(item), 'cached_script': lead(script),
                 'cached_h': lead(h),
                 'cache_index': (jnp.zeros((), jnp.int32) if vector_index is None
                                 else lead(jnp.asarray(vector_index, jnp.int32)))},
         'bias': {'cached_bias': jnp.arange(3.0).reshape(1, 3)}}
    return c

  def logits_np(self, item, script, h, idx):
    x = self.tab[(h * 3 + item * 11) % N_TABLE].astype(np.float64)
    s = script[np.arange(len(h)), np.minimum(idx, script.shape[1] - 1)]
    for t in range(self.v):
      x[:, t] += self.boost * (s == t)
    return x

  def fn(self, box=None, choices=None, check_sequences=True):
    tab = jnp.asarray(self.tab)

    def tokens_to_logits(state):
      c = state.cache['dec']
      get = (lambda x: x) if not self.layers else (lambda x: x[-1])
      item, script, h = get(c['cached_item']), get(c['cached_script']), get(c['cached_h'])
      tok = state.cur_token[:, 0]
      idx = jnp.broadcast_to(jnp.asarray(state.cur_index), h.shape)
      h2 = (h * 7 + tok + 1) % 9973
      x = tab[(h2 * 3 + item * 11) % N_TABLE]
      s = jnp.take_along_axis(
          script, jnp.minimum(idx, script.shape[1] - 1)[:, None], axis=1)[:, 0]
      x = x + self.boost * jax.nn.one_hot(s, self.v)
      if check_sequences:
        hs = jnp.zeros_like(h)
        for p in range(self.length):
          live = p <= idx
          t = jnp.where(p == 0, 0, state.sequences[:, p])
          hs = jnp.where(live, (hs * 7 + t + 1) % 9973, hs)
        bad = (hs != h2) & (idx < self.length)
        x = jnp.where(bad[:, None], -x - 0.25, x)
      up = (lambda a: a) if not self.layers else (
          lambda a: jnp.stack([a] * self.layers))
      new = {'dec': dict(c, cached_h=up(h2), cache_index=c['cache_index'] + 1),
             'bias': state.cache['bias']}
      if box is not None and choices is not None:
        box['choice'] = jnp.take_along_axis(
            choices, jnp.minimum(idx, choices.shape[1] - 1)[:, None], axis=1)[:, 0]
      return x, new

    return tokens_to_logits


def transform(logits, temp, topk, topp):
  """Reference sampling distribution (float64 logits, NEG = excluded)."""
  x = logits / max(temp, MIN_T)
  n, v = x.shape
  if topk:
    k = min(topk, v)
    kth = np.sort(x, -1)[:, ::-1][:, k - 1]
    x = np.where(x >= kth[:, None], x, NEG)
  if topp:
    e = np.exp(x - x.max(-1, keepdims=True))
    p = e / e.sum(-1, keepdims=True)
    o = np.argsort(-p, -1)
    cum = np.cumsum(np.take_along_axis(p, o, -1), -1)
    need = np.minimum((cum < topp - 1e-9).sum(-1), v - 1)
    thr = np.take_along_axis(np.take_along_axis(p, o, -1), need[:, None], -1)
    x = np.where(p >= thr - 1e-12, x, NEG)
  return x


def log_softmax(x):
  m = x.max(-1, keepdims=True)
  return x - m - np.log(np.exp(x - m).sum(-1, keepdims=True))


def replay(model, inputs, item, script, out, temps, topk=0, topp=0.0,
           rescale=True, eos=1, limit=None, choices=None, ban=None):
  """Checks outputs `out` [R, L] row by row; returns (errors, log_probs)."""
  R, L = inputs.shape
  h = np.zeros(R, np.int64)
  lp = np.zeros(R)
  ended = np.zeros(R, bool)
  err = [None] * R
  tok = np.zeros(R, np.int64)
  temps = np.broadcast_to(np.asarray(temps, np.float64), (R,))
  plen = (inputs != 0).sum(-1)
  maxlen = np.full(R, L) if limit is None else np.minimum(L, plen + limit)
  scaled_by_t = {}
  for i in range(L):
    h = hstep(h, tok)
    raw = model.logits_np(item, script, h, np.full(R, i))
    if ban is not None:
      raw[:, ban] -= 1000.0
    nxt_in = inputs[:, i + 1] if i + 1 < L else np.zeros(R, np.int32)
    in_prompt = nxt_in != 0
    got = out[:, i]
    sc = np.zeros_like(raw)
    greedy = temps <= MIN_T
    for t in np.unique(temps):
      m = temps == t
      sc[m] = transform(raw[m], t, topk, topp) if t > MIN_T else raw[m]
    del scaled_by_t
    scaled_by_t = {}
    amax = raw.argmax(-1)
    samax = sc.argmax(-1)
    over = (i >= maxlen)
    free = ~in_prompt & ~ended & ~over
    gi = np.clip(got, 0, model.v - 1)
    allowed = np.take_along_axis(sc, gi[:, None], -1)[:, 0] > NEG / 2
    want = np.where(greedy, amax, -1)
    if choices is not None:
      ch = choices[:, min(i, choices.shape[1] - 1)]
      chok = np.take_along_axis(sc, ch[:, None], -1)[:, 0] > NEG / 2
      want = np.where(greedy, amax, np.where(chok, ch, samax))
    base = log_softmax(sc) if rescale else log_softmax(raw)
    step_lp = np.take_along_axis(base, gi[:, None], -1)[:, 0]
    step_lp = np.where(greedy & rescale, 0.0, step_lp)
    for r in np.nonzero(in_prompt & (got != nxt_in))[0]:
      err[r] = err[r] or f'position {i}: prompt token {nxt_in[r]} became {got[r]}'
    for r in np.nonzero(~in_prompt & (ended | over) & (got != 0))[0]:
      err[r] = err[r] or f'position {i}: token {got[r]} after the end'
    for r in np.nonzero(free & ((got < 0) | (got >= model.v)))[0]:
      err[r] = err[r] or f'position {i}: token {got[r]} outside the vocabulary'
    for r in np.nonzero(free & (want >= 0) & (got != want))[0]:
      err[r] = err[r] or f'position {i}: token {got[r]} instead of {want[r]}'
    for r in np.nonzero(free & ~greedy & ~allowed)[0]:
      err[r] = err[r] or f'position {i}: excluded token {got[r]} emitted'
    lp += np.where(free, step_lp, 0.0)
    ended = ended | (free & (got == eos))
    tok = np.where(in_prompt, nxt_in, got).astype(np.int64)
  return err, lp


class Sampler:
  """Replaces jax.random.categorical by a scripted choice (see D01)."""

  def __init__(self):
    self.box = {}
    self.calls = 0

  def __enter__(self):
    self._orig = jax.random.categorical

    def categorical(key, logits, axis=-1, shape=None, **kw):
      c = self.box.get('choice')
      if c is None or c.shape != logits.shape[:-1]:
        return self._orig(key, logits, axis=axis, shape=shape, **kw)
      self.calls += 1
      ok = jnp.take_along_axis(logits, c[..., None], axis=-1)[..., 0] > NEG / 2
      return jnp.where(ok, c, jnp.argmax(logits, -1))

    jax.random.categorical = categorical
    return self

  def __exit__(self, *a):
    jax.random.categorical = self._orig
