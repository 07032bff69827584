"""D01: temperature sampling."""
import itertools

import numpy as np
import jax
import jax.numpy as jnp

import d02
import lib_decode as ld

LEVEL = 'exploration'
RULE = ('every prompt up to a length x every sampled-token path (the sampler is '
        'scripted to take each token at each step) x sampler settings x batch '
        'grouping; a case is one decoded row; distinct = row and setting')
ASSUMPTIONS = ['models are drawn from a hashed-history table family, so logits '
               'identify item and true prefix', 'sampled tokens are forced by '
               'replacing jax.random.categorical; greedy paths by the model']

V, EOS = 4, 1


def check(ck):
  from t5x import decoding
  L = 5
  model = ld.TableModel(V, L)
  pr = ld.prompts([1, 2, 3], 3, L)
  n_free = ck.pick(3, 4)
  paths = np.array(list(itertools.product(range(V), repeat=n_free)), np.int32)

  def build_rows(free_after):
    """Pairs every prompt with every path on its first free positions."""
    I, C = [], []
    for p in pr:
      n = int((p != 0).sum())
      for path in paths:
        c = np.array([(n + i + path[0]) % V for i in range(L)], np.int32)
        c[n:n + n_free] = path[:max(0, min(n_free, L - n))]
        I.append(p)
        C.append(c)
    I, C = np.array(I), np.array(C)
    key = np.concatenate([I, C], -1)
    _, u = np.unique(key, axis=0, return_index=True)
    u = np.sort(u)
    return I[u], C[u]

  inputs, choices = build_rows(0)
  R = len(inputs)
  item = (np.arange(R) * 5 % 13).astype(np.int32)
  none = np.full((R, L), -1, np.int32)
  case_n = [0]

  def verify(name, cfg, I, it, script, out, lps, temps, nd, choices=None,
             ban=None, limit=None):
    """Compares decoded [R, nd, L] with the reference row by row."""
    R = len(I)
    out = np.asarray(out).reshape(R, nd, L)
    lps = np.asarray(lps).reshape(R, nd)
    ck.case((name, str(cfg)), n=R * nd,
            sample=dict(setting=cfg, prompt=I[R // 2], decodes=out[R // 2]))
    if nd > 1 and choices is not None:
      # Sampled sets are sorted afterwards: compare as sets per item.
      exp_tok, exp_lp = [], []
      for d in range(nd):
        e, l = rollout(I, it, script, temps, cfg, choices[:, d], ban, limit)
        exp_tok.append(e)
        exp_lp.append(l)
      exp_tok, exp_lp = np.stack(exp_tok, 1), np.stack(exp_lp, 1)
      for r in range(R):
        key_e = sorted((tuple(t), round(float(l), 3)) for t, l in zip(exp_tok[r], exp_lp[r]))
        key_g = sorted((tuple(t), round(float(l), 3)) for t, l in zip(out[r], lps[r]))
        ok = all(a[0] == b[0] and abs(a[1] - b[1]) < 4e-3 for a, b in zip(key_e, key_g))
        if not ok:
          ck.violation('the samples of an item are not the sampled continuations '
                       'of its own prompt with their own log-probabilities',
                       dict(setting=cfg, prompt=I[r]), key_e, key_g)
    for d in range(nd):
      err, lp = ld.replay(model, I, it, script, out[:, d], temps, cfg['topk'],
                          cfg['topp'], cfg['rescale'], EOS,
                          limit=limit, ban=ban,
                          choices=choices[:, 0] if choices is not None and nd == 1 else None)
      for r in range(R):
        if err[r]:
          ck.violation(f'decoded sequence is wrong: {err[r]}',
                       dict(setting=cfg, prompt=I[r], item=int(it[r])), None,
                       out[r, d])
      tol = 1e-3 + 2e-5 * np.abs(lp) / max(min(1.0, float(np.min(temps[temps > ld.MIN_T], initial=1.0))), 1e-3)
      bad = np.abs(lp - lps[:, d]) > tol
      for r in np.nonzero(bad)[0]:
        ck.violation('log-probability is not that of the emitted continuation',
                     dict(setting=cfg, prompt=I[r], tokens=out[r, d]), lp[r],
                     float(lps[r, d]))
    if nd > 1 and not (np.diff(lps, axis=1) >= -1e-6).all():
      r = int(np.argmin((np.diff(lps, axis=1) >= -1e-6).all(1)))
      ck.violation('samples are not ordered by log-probability',
                   dict(setting=cfg, prompt=I[r]), None, lps[r])

  def rollout(I, it, script, temps, cfg, ch, ban=None, limit=None):
    """Reference tokens when the sampler takes `ch` at each free step."""
    R = len(I)
    out = np.zeros((R, L), np.int64)
    h, tok = np.zeros(R, np.int64), np.zeros(R, np.int64)
    ended = np.zeros(R, bool)
    temps = np.broadcast_to(temps, (R,))
    for i in range(L):
      h = ld.hstep(h, tok)
      raw = model.logits_np(it, script, h, np.full(R, i))
      sc = np.where((temps > ld.MIN_T)[:, None],
                    ld.transform(raw, float(temps[0]), cfg['topk'], cfg['topp']), raw)
      nxt = I[:, i + 1] if i + 1 < L else np.zeros(R, int)
      c = ch[:, i]
      ok = np.take_along_axis(sc, c[:, None], -1)[:, 0] > ld.NEG / 2
      samp = np.where(temps > ld.MIN_T, np.where(ok, c, sc.argmax(-1)), raw.argmax(-1))
      t = np.where(nxt != 0, nxt, np.where(ended, 0, samp))
      out[:, i] = t
      ended |= (nxt == 0) & (t == EOS)
      tok = t
    _, lp = ld.replay(model, I, it, script, out, temps, cfg['topk'], cfg['topp'],
                      cfg['rescale'], EOS, limit=limit)
    return out, lp

  def run(cfg, I, it, script, nd, ch, groups, rng=0, traced=(), frozen=False,
          temps=None, **kw):
    """Runs temperature_sample with `groups` rows per batch, vmapped."""
    R = len(I)
    g = groups
    n = R // g * g
    if n < R:  # wrap so that no row is lost
      idx = np.arange((R + g - 1) // g * g) % R
      I, it, script = I[idx], it[idx], script[idx]
      ch = None if ch is None else ch[idx]
      temps = None if temps is None else temps[idx]
    G = len(I) // g
    box = smp.box
    box.clear()

    def one(inp, item, scr, c, tm, topk, topp):
      box.clear()
      fn = model.fn(box, None if c is None else c.reshape(-1, L))
      cache = model.cache(item, scr)
      if frozen:
        import flax
        cache = flax.core.freeze(cache)
        base = fn

        def fn(state):  # pylint: disable=function-redefined
          lo, c2 = base(state)
          return lo, c2
      return decoding.temperature_sample(
          inp, cache, fn, EOS, jax.random.PRNGKey(rng), num_decodes=nd,
          temperature=cfg['temp'] if tm is None else tm,
          topk=topk if 'topk' in traced else cfg['topk'],
          topp=topp if 'topp' in traced else cfg['topp'],
          rescale_log_probs=cfg['rescale'], **kw)

    f = jax.jit(jax.vmap(one, in_axes=(0, 0, 0, 0 if ch is not None else None,
                                       0 if temps is not None else None, None, None)))
    out, lp = f(I.reshape(G, g, L), it.reshape(G, g), script.reshape(G, g, L),
                None if ch is None else jnp.asarray(ch.reshape(G, g, nd, L)),
                None if temps is None else jnp.asarray(temps.reshape(G, g)),
                jnp.asarray(cfg['topk']), jnp.asarray(cfg['topp'], jnp.float32))
    out = np.asarray(out).reshape(G * g, nd, L)[:R]
    lp = np.asarray(lp).reshape(G * g, nd)[:R]
    return out, lp

  smp = ld.Sampler()
  smp.__enter__()

  # ---- scripted sampling, every path, settings and groupings
  ck.part('sampled paths')
  settings = []
  for temp in (1.0, 0.5, 2.0):
    for topk, topp in ((0, 0.0), (1, 0.0), (2, 0.0), (3, 0.0), (0, 0.5), (0, 0.9)):
      for rescale in (True, False):
        if temp != 1.0 and not ck.thorough and (topk in (1, 3)):
          continue
        settings.append(dict(temp=temp, topk=topk, topp=topp, rescale=rescale))
  for si, cfg in enumerate(settings):
    groups = [1, 2, 3, R][si % 4:si % 4 + 1] if not ck.thorough else [1, 2, 3, R]
    for g in groups:
      out, lp = run(cfg, inputs, item, none, 1, choices[:, None], g)
      verify(f'sampled/{g}', cfg, inputs, item, none, out, lp,
             np.full(R, cfg['temp']), 1, choices[:, None])
  for g in (1, 2, 3, R):
    cfg = settings[0]
    out, lp = run(cfg, inputs, item, none, 1, choices[:, None], g)
    verify(f'grouping/{g}', cfg, inputs, item, none, out, lp, np.full(R, 1.0), 1,
           choices[:, None])

  ck.part('greedy paths')
  for rescale in (True, False):
    for temp, topk in ((0.0, 0), (0.0, 2), (1e-9, 1)):
      cfg = dict(temp=temp, topk=topk, topp=0.0, rescale=rescale)
      g = [1, 2, R][topk]
      out, lp = run(cfg, inputs, item, choices, 1, None, g)
      verify(f'greedy/{g}', cfg, inputs, item, choices, out, lp, np.zeros(R), 1)
  cfg = dict(temp=0.0, topk=0, topp=0.7, rescale=False)
  out, lp = run(cfg, inputs, item, choices, 1, None, 2)
  verify('greedy/topp', cfg, inputs, item, choices, out, lp, np.zeros(R), 1)

  ck.part('several samples per item')
  for nd in (2, 3):
    sub = np.arange(0, R, ck.pick(3, 1))
    chs = np.stack([choices[(np.arange(R) + 17 * d) % R] for d in range(nd)], 1)
    for cfg in (dict(temp=1.0, topk=0, topp=0.0, rescale=True),
                dict(temp=0.5, topk=2, topp=0.0, rescale=False),
                dict(temp=1.0, topk=0, topp=0.6, rescale=False)):
      for g in (1, 2):
        out, lp = run(cfg, inputs[sub], item[sub], none[sub], nd, chs[sub], g)
        verify(f'decodes/{nd}/{g}', cfg, inputs[sub], item[sub], none[sub], out, lp,
               np.full(len(sub), cfg['temp']), nd,
               chs[sub] if smp.calls else None)
  # leading layer axis in the cache
  saved, model_l = model, ld.TableModel(V, L, layers=2)
  model = model_l
  cfg = dict(temp=1.0, topk=0, topp=0.0, rescale=True)
  sub = np.arange(0, R, 7)
  chs = np.stack([choices[(np.arange(R) + 17 * d) % R] for d in range(2)], 1)
  out, lp = run(cfg, inputs[sub], item[sub], none[sub], 2, chs[sub], 3, cache_offset=1)
  verify('decodes/offset', cfg, inputs[sub], item[sub], none[sub], out, lp,
         np.full(len(sub), 1.0), 2, chs[sub] if smp.calls else None)
  model = saved

  ck.part('dynamic settings and frozen caches')
  sub = np.arange(0, R, ck.pick(5, 1))
  for cfg in (dict(temp=1.0, topk=2, topp=0.0, rescale=True),
              dict(temp=1.0, topk=0, topp=0.8, rescale=True)):
    for tr in (('topk',), ('topp',), ('topk', 'topp')):
      if tr != ('topk', 'topp') and (cfg['topk'] > 0) != ('topk' in tr):
        continue
      out, lp = run(cfg, inputs[sub], item[sub], none[sub], 1, choices[sub][:, None], 3,
                    traced=tr)
      verify(f'traced/{tr}', cfg, inputs[sub], item[sub], none[sub], out, lp,
             np.full(len(sub), cfg['temp']), 1, choices[sub][:, None])
  cfg = dict(temp=1.0, topk=0, topp=0.0, rescale=True)
  out, lp = run(cfg, inputs[sub], item[sub], none[sub], 1, choices[sub][:, None], 2,
                frozen=True)
  verify('frozen', cfg, inputs[sub], item[sub], none[sub], out, lp,
         np.full(len(sub), 1.0), 1, choices[sub][:, None])

  smp.__exit__()

  # ---- a different temperature per item (the sampler's own randomness)
  ck.part('per-item temperatures')
  tset = np.array([0.0, 0.25, 1.0, 3.0], np.float32)
  for nd in (1, 2, 3):
    for cfg in (dict(temp=1.0, topk=0, topp=0.0, rescale=True),
                dict(temp=1.0, topk=2, topp=0.0, rescale=True),
                dict(temp=1.0, topk=0, topp=0.5, rescale=False),
                dict(temp=1.0, topk=0, topp=0.0, rescale=False)):
      sub = np.arange(0, R, 2 if nd == 1 else 5)
      temps = tset[np.arange(len(sub)) % 4]
      for g in ((1, 3) if ck.thorough else (3,)):
        out, lp = run(cfg, inputs[sub], item[sub], none[sub], nd, None, g,
                      temps=temps, rng=nd + g)
        verify(f'temps/{nd}/{g}', cfg, inputs[sub], item[sub], none[sub], out, lp,
               temps.astype(np.float64), nd)

  # ---- samples of one item and of equal items must not share their randomness
  ck.part('independent randomness')
  uniform = lambda s: (jnp.zeros((s.cur_token.shape[0], 64)), s.cache)
  for vec in (False, True):
    for b, nd in ((1, 4), (4, 1), (2, 3)):
      for seed in range(ck.pick(2, 16)):
        temp = jnp.ones((b,)) if vec else 1.0
        out, _ = decoding.temperature_sample(
            jnp.zeros((b, 8), jnp.int32), {}, uniform, 99, jax.random.PRNGKey(seed),
            num_decodes=nd, temperature=temp, topk=0)
        rows = np.asarray(out).reshape(b * nd, 8)
        ck.case(('indep', vec, b, nd, seed))
        distinct = len({tuple(r) for r in rows})
        ck.expect(distinct == b * nd,
                  'different samples are copies of each other (64^8 equally '
                  'likely sequences)', dict(per_item_temperature=vec, batch=b,
                                            num_decodes=nd, seed=seed),
                  b * nd, distinct)
  for seed in range(2):  # the same key gives the same sample, another one not
    a, b2, c = [np.asarray(decoding.temperature_sample(
        jnp.zeros((2, 8), jnp.int32), {}, uniform, 99, jax.random.PRNGKey(k), topk=0)[0])
        for k in (seed, seed, seed + 50)]
    ck.case(('key', seed))
    ck.expect(np.array_equal(a, b2), 'same key, different samples', seed)
    ck.expect(not np.array_equal(a, c), 'different keys, same samples', seed)

  ck.part('callbacks and refusals')
  inp = jnp.asarray(inputs[::31])
  it = item[::31]
  scr = choices[::31]
  for ban in range(V):
    out, lp = decoding.temperature_sample(
        inp, model.cache(it, scr), model.fn(), EOS, temperature=0.0, topk=0,
        rescale_log_probs=False,
        logit_callback_fn=lambda lo, st: lo.at[:, ban].add(-1000.0))
    cfg = dict(temp=0.0, topk=0, topp=0.0, rescale=False)
    verify(f'ban/{ban}', cfg, inputs[::31], it, scr, out, lp, np.zeros(len(it)), 1,
           ban=ban)
  seen = []

  def spy(state):
    jax.debug.callback(lambda s, i: seen.append((int(s), np.array(i))), state.step,
                       state.cur_index)
    return state

  out2, lp2 = decoding.temperature_sample(
      inp, model.cache(it, scr), model.fn(), EOS, temperature=0.0, topk=0,
      rescale_log_probs=False, state_callback_fn=spy)
  jax.effects_barrier()
  out1, lp1 = decoding.temperature_sample(
      inp, model.cache(it, scr), model.fn(), EOS, temperature=0.0, topk=0,
      rescale_log_probs=False)
  ck.expect(np.array_equal(out1, out2) and np.allclose(lp1, lp2),
            'an identity state callback changes the result')
  steps = sorted(s for s, _ in seen)
  ck.expect(steps == list(range(len(steps))) and len(steps) >= 2,
            'the state callback does not see every step once', None, None, steps)
  for topk, topp in ((1, 0.5), (3, 0.1)):
    ck.expect_raises('top-k and top-p together', lambda: decoding.temperature_sample(
        inp, model.cache(it, scr), model.fn(), EOS, topk=topk, topp=topp),
        dict(topk=topk, topp=topp), ValueError)
  ck.case('refusals')
  d02.check(ck, brief=True)
