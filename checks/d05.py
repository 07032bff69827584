"""D05: early-exit sampling."""
import itertools

import numpy as np
import jax
import jax.numpy as jnp

import lib_decode as ld

LEVEL = 'exploration'
RULE = ('every prompt x start position x scripted continuation (EOS at every '
        'position) in all ordered pairs as batches, for every step limit; every '
        'sampled-token path with scripted sampler; a case is one decoded row '
        'with its confidences and exits; differential against the plain sampler')
ASSUMPTIONS = ['table models as in D01, returning a confidence that identifies '
               'item and history and an exit layer that identifies the step']
V, EOS, L = 4, 1, 5


def conf_of(h, item):
  return (h * 5 + item) % 251 / 256.0


def calm_fn(model, per_item, box=None, choices=None):
  base = model.fn(box, choices)

  def fn(state):
    c = state.cache['dec']
    get = (lambda x: x) if not model.layers else (lambda x: x[-1])
    logits, new = base(state)
    h2 = get(new['dec']['cached_h'])
    conf = conf_of(h2, get(c['cached_item'])).astype(jnp.float32)[:, None]
    idx = jnp.broadcast_to(jnp.asarray(state.cur_index), h2.shape)
    if per_item:
      ex = (idx + h2 % 3 + 2).astype(jnp.int32)[:, None]
    else:
      ex = (jnp.min(c['cache_index']) + 2).astype(jnp.int32)  # one per step
    return logits, new, conf, ex

  return fn


def check(ck):
  from t5x import decoding
  from t5x.contrib.calm import decoding as calm
  model = ld.TableModel(V, L, seed=2)
  rows = []
  contents = {0: [()], 1: [(2,), (1,)], 2: [(2, 3), (3, 1)], 3: [(2, 2, 3)],
              4: [(3, 2, 3, 2)]}
  for n, cs in contents.items():
    for c in cs:
      for k in range(n + 1):
        for e in range(n, L + 1):
          script = [2 + (i + n) % 2 for i in range(L)]
          if e < L:
            script[e] = EOS
          rows.append(([0] + list(c) + [0] * (L - 1 - n), k, script))
  inputs = np.array([r[0] for r in rows], np.int32)
  start = np.array([r[1] for r in rows], np.int32)
  script = np.array([r[2] for r in rows], np.int32)
  R = len(rows)
  item = (np.arange(R) * 3 % 11).astype(np.int32)
  hpre = ld.prefill(inputs, start)
  pairs = np.array([(a, b) for a in range(R) for b in range(R)
                    if ck.thorough or (a * 31 + b) % 3 == 0])
  triples = np.array([(a, (a * 7 + 3) % R, (a * 13 + 5) % R) for a in range(R)])
  smp = ld.Sampler()

  def run(name, idx, use_start, limit=None, hard=None, nd=1, temp=0.0, rescale=False,
          traced=False, layers=0, per_item=False, choices=None, topk=0, topp=0.0,
          plain=True):
    m = model if not layers else ld.TableModel(V, L, seed=2, layers=layers)
    G, g = idx.shape

    def one(sampler, fn, inp, it, sc, h, st, lim, ch):
      cache = m.cache(it, sc, h if use_start else None, st if use_start else None)
      return sampler(
          inp, cache, fn, EOS, jax.random.PRNGKey(3), num_decodes=nd,
          temperature=temp, topk=topk, topp=topp, rescale_log_probs=rescale,
          initial_index=st if use_start else None,
          max_decode_steps=lim if traced else limit,
          max_decode_steps_hard_limit=hard, cache_offset=1 if layers else 0)

    def early(*a):
      smp.box.clear()
      ch = a[-1]
      return one(calm.temperature_sample,
                 calm_fn(m, per_item, smp.box, None if ch is None else ch.reshape(-1, L)), *a)

    def base(*a):
      smp.box.clear()
      ch = a[-1]
      return one(decoding.temperature_sample,
                 m.fn(smp.box, None if ch is None else ch.reshape(-1, L)), *a)

    args = (inputs[idx], item[idx], script[idx], hpre[idx], start[idx],
            jnp.asarray(limit or 0, jnp.int32),
            None if choices is None else jnp.asarray(choices[idx]))
    ax = (0, 0, 0, 0, 0, None, None if choices is None else 0)
    cfg = dict(name=name, limit=limit, hard=hard, decodes=nd, temperature=temp,
               rescale=rescale, offset_start=use_start, topk=topk, topp=topp)
    ok, res = ck.guarded('early-exit temperature_sample',
                         lambda: jax.jit(jax.vmap(early, in_axes=ax))(*args), cfg)
    if not ok:
      return
    out, (lp, ex, cf) = res
    out = np.asarray(out).reshape(G * g, nd, L)
    lp = np.asarray(lp).reshape(G * g, nd)
    shapes = (np.shape(ex), np.shape(cf))
    if not ck.expect(shapes == ((G, g, nd, L),) * 2, 'exits and confidences are '
                     'not one value per generated token', cfg, (G, g, nd, L), shapes):
      return
    ex = np.asarray(ex).reshape(G * g, nd, L)
    cf = np.asarray(cf).reshape(G * g, nd, L)
    ck.case((name, str(cfg)), n=G * g, sample=dict(
        setting=cfg, inputs=inputs[idx[0]], start=start[idx[0]], out=out[0], exits=ex[0]))
    if plain:
      o2, l2 = jax.jit(jax.vmap(base, in_axes=ax))(*args)
      o2, l2 = np.asarray(o2).reshape(out.shape), np.asarray(l2).reshape(lp.shape)
      bad = (o2 != out).any((1, 2)) | (np.abs(l2 - lp) > 2e-3).any(1)
      for r in np.nonzero(bad)[0]:
        ck.violation('early-exit sampling differs from plain sampling of the same model',
                     dict(setting=cfg, batch=inputs[idx[r // g]],
                          start=start[idx[r // g]], row=r % g),
                     dict(tokens=o2[r], log_prob=l2[r]), dict(tokens=out[r], log_prob=lp[r]))
    flat = idx.reshape(-1)
    eff = limit if not (hard and limit) else min(limit, hard)
    I = inputs[flat]
    plen = (I != 0).sum(-1)
    maxlen = np.full(len(flat), L) if eff is None else np.minimum(L, plen + eff)
    st = start[flat] if use_start else np.zeros(len(flat), int)
    first = st.reshape(G, g).min(1).repeat(g)
    if nd > 1:
      ck.expect((np.diff(lp, axis=1) >= -1e-6).all(),
                'samples are not ordered by log-probability', cfg)
    for d in range(nd):
      err, elp = ld.replay(m, I, item[flat], script[flat], out[:, d],
                           np.full(len(flat), temp), topk, topp, rescale, EOS, limit=eff,
                           choices=choices[flat] if choices is not None and smp.calls
                           else None)
      bad = np.abs(elp - lp[:, d]) > 2e-3
      # histories at each step from the emitted tokens
      h = hpre[flat].astype(np.int64) if use_start else np.zeros(len(flat), np.int64)
      ended = np.zeros(len(flat), bool)
      want_c = np.full((len(flat), L), np.nan)
      want_e = np.full((len(flat), L), -7)
      for i in range(L):
        live = (i >= st) & ~ended & (i < maxlen)
        tok = np.where(i == 0, 0, out[:, d, i - 1])
        h = np.where(i >= st, ld.hstep(h, tok), h)
        want_c[:, i] = np.where(live, conf_of(h, item[flat]), np.where(i < st, -1, np.nan))
        e = (i + h % 3 + 2) if per_item else first + (i - st) + 2
        want_e[:, i] = np.where(live, e, np.where(i < st, -1, -7))
        nxt = I[:, i + 1] if i + 1 < L else 0
        ended |= (nxt == 0) & (out[:, d, i] == EOS) & (i >= st)
      wc = ~np.isnan(want_c) & (np.abs(want_c - cf[:, d]) > 1e-5)
      we = (want_e != -7) & (want_e != ex[:, d])
      for r in range(len(flat)):
        case = dict(setting=cfg, batch_inputs=inputs[idx[r // g]],
                    batch_start=start[idx[r // g]], row=r % g, tokens=out[r, d])
        if err[r] or bad[r]:
          ck.violation(err[r] or 'log-probability is not that of the continuation',
                       case, float(elp[r]), float(lp[r, d]))
        if wc[r].any():
          ck.violation('a confidence is not the one produced for its token', case,
                       want_c[r], cf[r, d])
        if we[r].any():
          ck.violation('an exit layer is not the one produced for its token', case,
                       want_e[r], ex[r, d])

  for use_start in (False, True):
    ck.part('from position' if use_start else 'from scratch')
    for limit in (None, 1, 2, L):
      run('pairs', pairs, use_start, limit, per_item=limit == 2)
    run('hard', pairs[::3], use_start, 4, 1)
    run('hard', pairs[::3], use_start, 1, 4)
    run('triples', triples, use_start)
    run('triples', triples, use_start, 2, per_item=True)
    run('traced', pairs[::3], use_start, 2, traced=True)
    run('sampled', pairs[::3], use_start, temp=1.0, rescale=True)
    run('decodes', pairs[::3], use_start, nd=2, temp=1.0)
    run('decodes', pairs[::3], use_start, 2, nd=3, temp=1.0, rescale=True, per_item=True)
    run('layers', pairs[::5], use_start, 3, nd=2, temp=1.0, layers=2)

  ck.part('sampled paths')
  none = np.full((L,), -1, np.int32)
  pr = ld.prompts([1, 2], 2, L)
  paths = np.array(list(itertools.product(range(V), repeat=3)), np.int32)
  I, C = [], []
  for p in pr:
    n = int((p != 0).sum())
    for path in paths:
      c = np.array([(n + i) % V for i in range(L)], np.int32)
      c[n:n + 3] = path[:L - n]
      I.append(p)
      C.append(c)
  inputs, choices = np.array(I), np.array(C)
  R = len(inputs)
  script = np.tile(none, (R, 1))
  item = (np.arange(R) * 5 % 13).astype(np.int32)
  start = np.zeros(R, np.int32)
  hpre = np.zeros(R, np.int32)
  with smp:
    for temp, topk, topp, rescale in itertools.product(
        (1.0, 0.5), (0, 1, 2), (0.0, 0.5, 0.9), (True, False)):
      if topk and topp:
        continue
      g = 1 + (topk + int(rescale)) % 3
      idx = (np.arange((R + g - 1) // g * g) % R).reshape(-1, g)
      run('paths', idx, False, temp=temp, topk=topk, topp=topp, rescale=rescale,
          choices=choices, plain=False)
  run('greedy', np.arange(R).reshape(-1, 1), False, rescale=True)

  ck.part('refusals')
  for topk, topp in ((1, 0.5), (3, 0.1)):
    ck.expect_raises('top-k and top-p together', lambda: calm.temperature_sample(
        jnp.asarray(inputs[:2]), model.cache(item[:2], script[:2]), calm_fn(model, True),
        EOS, topk=topk, topp=topp), dict(topk=topk, topp=topp), ValueError)
  ck.expect_raises('more steps than the sequence holds', lambda: calm.temperature_sample(
      jnp.asarray(inputs[:2]), model.cache(item[:2], script[:2]), calm_fn(model, True),
      EOS, topk=0, max_decode_steps=L + 1), None, ValueError)
  ck.case('refusals')
