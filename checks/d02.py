"""D02: prefilled, offset and length-limited decoding."""
import itertools

import numpy as np
import jax
import jax.numpy as jnp

import lib_decode as ld

LEVEL = 'exploration'
RULE = ('rows = prompt x start position x scripted continuation (EOS at every '
        'position); all pairs of rows as a batch of two, for every step limit, '
        'hard limit and decode count; distinct = pair and setting')
ASSUMPTIONS = ['step limits are at least one', 'table models as in D01']
V, EOS, L = 4, 1, 6


def check(ck, brief=False):
  from t5x import decoding
  model = ld.TableModel(V, L, seed=1)
  rows = []
  contents = {0: [()], 1: [(2,), (1,)], 2: [(2, 3), (3, 1)], 3: [(2, 2, 3), (1, 2, 1)],
              4: [(3, 2, 3, 2)], 5: [(2, 3, 3, 2, 1)]}
  for n, cs in contents.items():
    for c in cs:
      inp = [0] + list(c) + [0] * (L - 1 - n)
      for k in range(n + 1):
        for e in range(n, L + 1):
          script = [2 + (i + n) % 2 for i in range(L)]
          if e < L:
            script[e] = EOS
          rows.append((inp, k, script))
  inputs = np.array([r[0] for r in rows], np.int32)
  start = np.array([r[1] for r in rows], np.int32)
  script = np.array([r[2] for r in rows], np.int32)
  R = len(rows)
  item = (np.arange(R) * 3 % 11).astype(np.int32)
  hpre = ld.prefill(inputs, start)

  # groups: all ordered pairs (quick: a fixed half of them) and some triples
  pairs = np.array([(a, b) for a in range(R) for b in range(R)
                    if ck.thorough or (a * 31 + b) % 4 == 0])
  triples = np.array([(a, (a * 7 + 3) % R, (a * 13 + 5) % R) for a in range(R)])

  def run(name, idx, use_start, limit=None, hard=None, nd=1, temp=0.0,
          rescale=False, traced=False, per_item=False, layers=0):
    m = model if not layers else ld.TableModel(V, L, seed=1, layers=layers)
    G, g = idx.shape

    def one(inp, it, sc, h, st, lim):
      cache = m.cache(it, sc, h if use_start else None,
                      st if use_start else None)
      t = jnp.full((g,), temp, jnp.float32) if per_item else temp
      return decoding.temperature_sample(
          inp, cache, m.fn(), EOS, jax.random.PRNGKey(3), num_decodes=nd,
          temperature=t, topk=0, rescale_log_probs=rescale,
          initial_index=st if use_start else None,
          max_decode_steps=lim if traced else limit,
          max_decode_steps_hard_limit=hard,
          cache_offset=1 if layers else 0)

    f = jax.jit(jax.vmap(one, in_axes=(0, 0, 0, 0, 0, None)))
    ok, res = ck.guarded('temperature_sample', lambda: f(
        inputs[idx], item[idx], script[idx], hpre[idx], start[idx],
        jnp.asarray(limit or 0, jnp.int32)), dict(setting=name))
    if not ok:
      return None
    out, lp = np.asarray(res[0]), np.asarray(res[1])
    flat = idx.reshape(-1)
    eff = limit if not (hard and limit) else min(limit, hard)
    out, lp = out.reshape(G * g, nd, L), lp.reshape(G * g, nd)
    cfg = dict(name=name, limit=limit, hard=hard, decodes=nd, temperature=temp,
               rescale=rescale, offset_start=use_start)
    ck.case((name, limit, hard, nd, temp, rescale), n=G * g,
            sample=dict(setting=cfg, inputs=inputs[idx[G // 2]],
                        start=start[idx[G // 2]], out=out[G // 2 * g]))
    for d in range(nd):
      err, elp = ld.replay(m, inputs[flat], item[flat], script[flat], out[:, d],
                           np.full(len(flat), temp), 0, 0.0, rescale, EOS, limit=eff)
      bad = np.abs(elp - lp[:, d]) > 2e-3
      for r in range(len(flat)):
        if err[r] or bad[r]:
          grp = idx[r // g]
          ck.violation(
              err[r] or 'log-probability is not that of the emitted continuation',
              dict(setting=cfg, batch_inputs=inputs[grp], batch_start=start[grp],
                   row=r % g, script=script[flat[r]]), float(elp[r]),
              dict(tokens=out[r, d], log_prob=float(lp[r, d])))
    return out, lp

  if brief:
    ck.part('items at different positions')
    run('pairs', pairs, True)
    run('triples', triples, True)
    run('sampled', pairs[::3], True, temp=1.0, rescale=True)
    return

  for use_start in (False, True):
    ck.part('from position' if use_start else 'from scratch')
    for limit in (None, 1, 2, 3, L):
      run('pairs', pairs, use_start, limit)
    for limit, hard in ((4, 1), (1, 4), (3, 3), (2, 0), (None, 2)):
      run('pairs/hard', pairs[::3], use_start, limit, hard)
    run('triples', triples, use_start, None)
    run('triples', triples, use_start, 2)
    run('traced', pairs[::3], use_start, 2, traced=True)
    run('traced/hard', pairs[::3], use_start, 5, 1, traced=True)
    run('sampled', pairs[::3], use_start, None, temp=1.0, rescale=True)
    run('sampled', pairs[::3], use_start, 2, temp=0.7)
    run('sampled/per-item', pairs[::5], use_start, 2, temp=0.7, per_item=True)
    run('decodes', pairs[::3], use_start, None, nd=2, temp=1.0)
    run('decodes', pairs[::3], use_start, 2, nd=3, temp=1.0, rescale=True)
    run('decodes/layers', pairs[::5], use_start, 3, nd=2, temp=1.0, layers=2)

  ck.part('single rows and refusals')
  single = np.arange(R)[:, None]
  for use_start in (False, True):
    for limit in (None, 1, 2, 4):
      run('single', single, use_start, limit)
  for lim in (L + 1, 100):
    ck.expect_raises('more steps than the sequence holds',
                     lambda: decoding.temperature_sample(
                         jnp.asarray(inputs[:2]), model.cache(item[:2], script[:2]),
                         model.fn(), EOS, max_decode_steps=lim, topk=0), lim, ValueError)
  ck.case('refusals')
