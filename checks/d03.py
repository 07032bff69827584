"""D03: beam search against a plain reference and exhaustive enumeration."""
import itertools

import numpy as np
import jax
import jax.numpy as jnp

import lib_decode as ld

LEVEL = 'exploration'
RULE = ('every prompt over a small vocabulary x every model of a table family x '
        'beam width, length penalty, length and step limits, batch grouping; a '
        'case is one batch item; distinct = item and setting')
ASSUMPTIONS = ['prompts hold no end-of-sequence token (callers strip it)',
               'vocabulary at least twice the beam width, as documented use']
EOS = 1


def penalty(alpha, n):
  return ((5.0 + n) / 6.0)**alpha


def ref_beam(model, zb, prompt, item, k, alpha, out_len, start=0, max_steps=None,
             steps=None, trace=None):
  """Returns (finished hypotheses, live hypotheses) as [(score, tokens)].

  prompt: tokens after BOS. start: position decoding starts from (prefilled).
  """
  V = model.v

  def logits(h, pos):
    x = model.tab[(h * 3 + item * 11) % ld.N_TABLE].astype(np.float64).copy()
    x[0] += zb
    return x

  h = 0
  full = [0] + list(prompt)
  for t in full[:start]:
    h = int(ld.hstep(h, t))
  live = [(0.0, full[:start + 1], h)]
  fin = []
  n = 0
  total = out_len if steps is None else steps
  while n < total:
    if max_steps and n >= max_steps:
      break
    if trace is not None:
      trace.append(max((x[0] for x in live), default=-np.inf))
    cands = []
    pos = start + n
    for lp, seq, h in live:
      h2 = int(ld.hstep(h, seq[-1]))
      logp = ld.log_softmax(logits(h2, pos)[None])[0]
      if pos + 1 < len(full):
        cands.append((0.0, seq + [full[pos + 1]], h2))
        break
      for v in range(V):
        cands.append((lp + logp[v], seq + [v], h2))
    cands.sort(key=lambda c: -c[0])
    cands = cands[:2 * k]
    forced = pos + 1 < len(full)
    done = [] if forced else [c for c in cands if c[1][-1] == EOS]
    live = [c for c in cands if forced or c[1][-1] != EOS][:k]
    for lp, seq, _ in done:
      fin.append((lp / penalty(alpha, start + n + 1), seq[1:]))
    fin.sort(key=lambda c: -c[0])
    fin = fin[:k]
    n += 1
  return fin, [(lp, seq[1:]) for lp, seq, _ in live]


class BeamModel(ld.TableModel):

  def __init__(self, v, length, seed, zb, layers=0):
    super().__init__(v, length, seed=seed, layers=layers)
    self.zb = zb

  def beam_fn(self, check_sequences=True):
    base = self.fn(check_sequences=check_sequences)

    def f(state):
      x, c = base(state)
      return x.at[:, 0].add(self.zb), c
    return f


def compare(ck, what, case, seqs, scores, fin, live, k, out_len):
  """seqs [k, n] ascending scores."""
  seqs, scores = np.asarray(seqs), np.asarray(scores, np.float64)
  if not (np.diff(scores) >= -1e-5 * np.abs(scores[:-1]) - 1e-5).all():
    ck.violation(what + ': hypotheses are not in ascending score order', case, None,
                 scores)
    return
  exp = fin if fin else live
  exp = sorted(exp, key=lambda c: c[0])
  ok_slots = [i for i in range(k) if scores[i] > -1e6]
  if len(ok_slots) != len(exp):
    ck.violation(what + ': wrong number of hypotheses', case,
                 [(round(s, 4), t) for s, t in exp],
                 [(float(scores[i]), seqs[i]) for i in range(k)])
    return
  got = [(float(scores[i]), [int(t) for t in seqs[i]]) for i in ok_slots]
  pad = lambda t: (list(t) + [0] * out_len)[:out_len]
  exp = [(s, pad(t)) for s, t in exp]
  if len({tuple(t) for _, t in got}) != len(got) and len(
      {tuple(t) for _, t in exp}) == len(exp):
    ck.violation(what + ': duplicate hypotheses', case, exp, got)
    return
  tol = lambda s: 2e-4 + 2e-5 * abs(s)
  used = [False] * len(exp)
  for s, t in got:
    hit = False
    for i, (es, et) in enumerate(exp):
      if not used[i] and et == t and abs(es - s) < tol(s):
        used[i] = hit = True
        break
    if not hit:
      ck.violation(what + ': hypothesis or its score is wrong', case, exp, got)
      return


def check(ck):
  from t5x import decoding

  def run(name, V, L, k, alpha, items, prompts, group, seed=0, zb=0.0,
          max_decode_len=None, max_step=-1, min_lp=None, start=None, layers=0,
          offset=0):
    model = BeamModel(V, (max_decode_len or L) + 1, seed, zb, layers)
    rows = [(p, it) for p in prompts for it in items]
    if group > 1:
      rows = [r for i in range(len(rows)) for r in
              [rows[(i + j * 7) % len(rows)] for j in range(group)]]
    inputs = np.array([[0] + list(p) + [0] * (L - 1 - len(p)) for p, _ in rows],
                      np.int32)
    item = np.array([it for _, it in rows], np.int32)
    st = None if start is None else np.array([start(len(p)) for p, _ in rows], np.int32)
    G = len(rows) // group
    h0 = None if st is None else ld.prefill(inputs, st)

    def one(inp, it, h, s):
      script = jnp.full((group, L), -1, jnp.int32)
      cache = model.cache(it, script, h if st is not None else None,
                          s if st is not None else None)
      kw = {}
      if min_lp is not None:
        kw['min_log_prob'] = min_lp
      return decoding.beam_search(
          inp, cache, model.beam_fn(check_sequences=st is None), EOS,
          num_decodes=k, alpha=alpha, max_decode_len=max_decode_len,
          max_decode_step=max_step, cache_offset=offset,
          initial_index=s if st is not None else None, **kw)

    z = np.zeros(len(rows), np.int32)
    ok, res = ck.guarded('beam_search', lambda: jax.jit(jax.vmap(one))(
        inputs.reshape(G, group, L), item.reshape(G, group),
        (z if h0 is None else h0).reshape(G, group),
        (z if st is None else st).reshape(G, group)), dict(setting=name))
    if not ok:
      return
    out_len = max_decode_len or L
    seqs = np.asarray(res[0]).reshape(len(rows), k, -1)
    scores = np.asarray(res[1]).reshape(len(rows), k)
    cfg = dict(name=name, vocab=V, length=L, beam=k, alpha=alpha, group=group,
               max_decode_len=max_decode_len, max_step=max_step, min_log_prob=min_lp)
    if seqs.shape[-1] != out_len:
      ck.violation('wrong output length', cfg, out_len, seqs.shape[-1])
      return
    ck.case((name, V, L, k, alpha, group, max_decode_len, max_step, min_lp),
            n=len(rows), sample=dict(setting=cfg, prompt=rows[-1][0],
                                     best=seqs[-1, -1]))
    memo = {}
    traces = {}
    for g in range(G):
      mem = range(g * group, (g + 1) * group)
      # The probability limit ends the search once no item of the batch has a
      # live beam above it.
      stop = max_step if max_step > 0 else None
      if min_lp is not None:
        tr = []
        for i in mem:
          if rows[i] not in traces:
            t = []
            ref_beam(model, zb, *rows[i], k, alpha, out_len, trace=t)
            traces[rows[i]] = t
          tr.append(traces[rows[i]])
        for n in range(1, out_len):
          if all(t[n] < min_lp for t in tr):
            stop = n
            break
      mn = 0 if st is None else int(min(st[i] for i in mem))
      for i in mem:
        p, it = rows[i]
        s = 0 if st is None else int(st[i])
        kk = (p, it, s, mn, stop)
        if kk not in memo:
          memo[kk] = ref_beam(model, zb, p, it, k, alpha, out_len, s, stop,
                              steps=out_len - mn)
        fin, live = memo[kk]
        compare(ck, name, dict(setting=cfg, prompt=p, model=it, row=i - g * group,
                               batch=[rows[j][0] for j in mem]),
                seqs[i], scores[i], fin, live, k, out_len)

  def plist(vocab, lens):
    return [p for n in lens for p in itertools.product(vocab, repeat=n)]

  items = list(range(ck.pick(16, 48)))
  ck.part('reference beam search')
  L = 5
  ps = plist([2, 3], [0, 1, 2]) + [(2, 3, 2), (3, 3, 2)]
  for k, V in ((1, 4), (2, 4), (2, 6), (3, 6), (4, 8)):
    for alpha in (0.0, 0.6, 1.0, 2.0):
      for group in ((1, 3) if ck.thorough else ((1,) if alpha in (0., 1.) else (2,))):
        run('plain', V, L, k, alpha, items, ps, group, seed=k)
  for seed in range(ck.pick(3, 10)):
    run('seeds', 6, 6, 3, 0.6, items, plist([2, 3], [0, 1]), 2, seed=seed + 20,
        zb=-1.0)
  ck.part('prompt as long as the input')
  run('full prompt', 6, 4, 2, 0.6, items, plist([2, 3], [3]), 1, seed=5)
  run('longer output', 6, 3, 2, 0.6, items, plist([2, 3], [0, 1, 2]), 1, seed=5,
      max_decode_len=5)
  run('shorter output', 6, 6, 2, 0.6, items, plist([2, 3], [0, 1]), 1, seed=5,
      max_decode_len=4)
  ck.part('limits')
  for ms in (1, 2, 3):
    run('step limit', 6, 5, 2, 0.6, items, plist([2, 3], [0, 1]), 1, seed=6,
        max_step=ms)
  for ml in (-1.0, -2.5, -4.0):
    for group in (1, 2, 3):
      run('probability limit', 6, 5, 2, 0.6, items, plist([2, 3], [0, 1]), group,
          seed=7, min_lp=ml)
  ck.part('scanned-layer caches')
  run('offset', 6, 5, 3, 0.6, items, plist([2, 3], [0, 1]), 2, seed=8, layers=2,
      offset=1)
  ck.part('prefilled prompts')
  for k, V in ((1, 4), (2, 6), (3, 6)):
    for group in (1, 2):
      run('prefilled', V, 5, k, 0.6, items, ps, group, seed=9, zb=-60.0,
          start=lambda n: n)
  for md in (2, 3):
    for group in (1, 2):
      run('prefilled short', 6, 6, 2, 0.6, items, plist([2, 3], [0, 1]), group, seed=4,
          zb=-60.0, start=lambda n: n, max_decode_len=md)
  run('prefilled long', 6, 4, 2, 1.0, items, plist([2, 3], [1, 2, 3]), 2, seed=3,
      zb=-60.0, start=lambda n: n, max_decode_len=6)

  # ---- exhaustive enumeration: a beam as wide as the space
  ck.part('exhaustive search')
  for V, L2 in ((3, 3), (4, 3), (3, 4)):
    k = V**L2
    for alpha in (0.0, 0.6, 1.5):
      model = BeamModel(V, L2 + 1, 11, 0.0)
      for p in [(), (2,)]:
        its = np.arange(ck.pick(6, 20), dtype=np.int32)
        inp = np.array([[0] + list(p) + [0] * (L2 - 1 - len(p))] * len(its), np.int32)
        out, sc = jax.jit(lambda i, t: decoding.beam_search(
            i, model.cache(t, np.full((len(its), L2), -1)), model.beam_fn(), EOS,
            num_decodes=k, alpha=alpha))(inp, its)
        out, sc = np.asarray(out), np.asarray(sc)
        for r, it in enumerate(its):
          hyps = []
          for n in range(len(p) + 1, L2 + 1):
            for tail in itertools.product([v for v in range(V) if v != EOS],
                                          repeat=n - len(p) - 1):
              seq = list(p) + list(tail) + [EOS]
              h, lp, prev = 0, 0.0, 0
              for i, t in enumerate(seq):
                h = int(ld.hstep(h, prev))
                x = model.tab[(h * 3 + int(it) * 11) % ld.N_TABLE].astype(np.float64)
                if i >= len(p):
                  lp += ld.log_softmax(x[None])[0][t]
                prev = t
              hyps.append((lp / penalty(alpha, len(seq)), seq))
          ck.case((V, L2, alpha, p, int(it)))
          compare(ck, 'exhaustive', dict(vocab=V, length=L2, alpha=alpha, prompt=p,
                                         model=int(it)), out[r], sc[r], hyps, [], k, L2)

  # ---- helpers used by the search
  ck.part('two-stage top-k')
  for batch in (1, 2, 8, 9):
    for k in (1, 2, 3):
      for n in (8 * 128 * k, 8 * 128 * k + 1, 8 * 128 * k + 127, 8 * 128 * k + 128, 50):
        for kind in range(4):
          i = np.arange(batch * n).reshape(batch, n)
          x = {0: np.sin(i * 1.7), 1: i % 13.0, 2: -i * 1.0,
               3: np.where(i % 129 == 0, 5.0 + i / n, -np.inf)}[kind].astype(np.float32)
          v, ix = decoding.top_k_two_stage(jnp.asarray(x), k)
          v, ix = np.asarray(v), np.asarray(ix)
          ev = -np.sort(-x, axis=-1)[:, :k]
          ck.case((batch, k, n, kind))
          ok = (np.array_equal(v, ev) and (ix < n).all() and
                np.array_equal(np.take_along_axis(x, ix, 1), v) and
                all(len(set(r)) == k for r in ix))
          ck.expect(ok, 'two-stage top-k is not top-k',
                    dict(batch=batch, k=k, n=n, kind=kind), ev, (v, ix))
  ck.part('beam gathers')
  for b, old, new in itertools.product((1, 2), (1, 2, 3), (1, 2, 4)):
    x = np.arange(b * old * 2).reshape(b, old, 2).astype(np.float32)
    for sel in itertools.product(range(old), repeat=new):
      idx = np.array([[sel[(j + r) % new] for j in range(new)] for r in range(b)])
      exp = np.stack([x[r][idx[r]] for r in range(b)])
      for oh in (True, False):
        got = decoding.gather_beams({'a': x}, idx, b, old, new, oh)['a']
        ck.case((b, old, new, sel, oh))
        ck.expect(np.array_equal(got, exp), 'beam gather picks wrong beams',
                  dict(idx=idx, one_hot=oh), exp, got)
        for off in (0, 1):
          xx = x if off == 0 else np.stack([x, x + 100])
          ee = exp if off == 0 else np.stack([exp, exp + 100])
          c = {'l': {'cached_key': jnp.asarray(xx), 'cache_index': jnp.asarray(3),
                     'cached_bias': jnp.ones((1, 2))}}
          g = decoding.cache_gather_beams(c, jnp.asarray(idx), b, old, new, oh, off)
          ck.expect(np.array_equal(g['l']['cached_key'], ee) and
                    int(g['l']['cache_index']) == 3 and
                    np.array_equal(g['l']['cached_bias'], np.ones((1, 2))),
                    'cache gather picks wrong beams or touches shared entries',
                    dict(idx=idx, one_hot=oh, offset=off), ee, g['l']['cached_key'])
  for b, k, off in itertools.product((1, 3), (1, 2, 3), (0, 1)):
    x = np.arange(2 * b * 5).reshape((2, b, 5) if off else (2 * b, 5))
    bb = b if off else 2 * b
    y = decoding.flat_batch_beam_expand(jnp.asarray(x), k, off)
    exp = np.repeat(x, k, axis=off)
    ck.case((b, k, off))
    ck.expect(np.array_equal(y, exp), 'beam expansion reorders the batch', (b, k, off))
    u = decoding.unflatten_beam_dim(y, bb, k, off)
    ck.expect(np.array_equal(decoding.flatten_beam_dim(u, off), y), 'unflatten/flatten')
    ck.expect(all(np.array_equal(np.take(np.asarray(u), i, axis=off + 1), x) for i in range(k)),
              'beam dimension holds wrong items')
