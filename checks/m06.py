"""M06: loss-normalization conventions and packed segment weights."""
import itertools

import numpy as np

LEVEL = 'exploration'
RULE = ('every packing of segment lengths into rows up to a total length, every '
        '0/1 (and fractional) weight pattern; every target pattern; distinct = '
        'different layout, weights and convention')
ASSUMPTIONS = ['padding sits at the end of a row, as the packer produces it',
               'weights are non-negative']


def layouts(length):
  """All packings of a row: segment lengths in order, then padding."""
  def rec(rem):
    yield ()
    for n in range(1, rem + 1):
      for rest in rec(rem - n):
        yield (n,) + rest
  return list(rec(length))


def row(lay, length):
  seg, pos = np.zeros(length, np.int32), np.zeros(length, np.int32)
  i = 0
  for s, n in enumerate(lay):
    seg[i:i + n] = s + 1
    pos[i:i + n] = np.arange(n)
    i += n
  return seg, pos


def check(ck):
  import jax
  import jax.numpy as jnp
  from t5x import losses
  E = losses.SpecialLossNormalizingFactor
  get = losses.get_loss_normalizing_factor_and_weights

  def names(e):
    return [e, e.name, e.name.lower()]

  ck.part('constants')
  batch = dict(decoder_target_tokens=np.array([[3, 0, 2], [0, 0, 1]], np.int32))
  for lnf in (None, 1.0, 3, 0.25):
    for w in (None, np.array([[1., 0., .5], [0., 2., 1.]], np.float32)):
      b = dict(batch)
      if w is not None:
        b['decoder_loss_weights'] = w
      f, lw = get(lnf, b)
      ck.case((lnf, w is None))
      ck.expect(f == lnf and ((w is None and lw is None) or np.array_equal(lw, w)),
                'a constant normalizing factor must be passed through',
                dict(lnf=lnf, weights=w), (lnf, w), (f, lw))
  for bad in ('FOO', 'NUM_REAL', '', 'average'):
    ck.expect_raises('unknown convention', lambda: get(bad, batch), bad, ValueError)
  for e in E:
    for s in (e.name, e.name.lower(), e.name.title()):
      ck.expect(losses.convert_special_loss_normalizing_factor_to_enum(s) == e,
                'wrong convention for a name', s, e.name)

  ck.part('unpacked')
  B, L = 2, ck.pick(3, 4)
  pats = np.array(list(itertools.product([0, 1, 5], repeat=L)), np.int32)
  wvals = [0.0, 1.0, 0.5]
  # Every pair of rows from the pattern list, vmapped over the list.
  tgts = np.array([(a, b) for a in pats for b in pats], np.int32)
  wpat = np.array(list(itertools.product(wvals, repeat=L)), np.float32)
  ws = np.array([(a, b) for a in wpat for b in wpat], np.float32)
  n = min(len(tgts), len(ws))
  tgts, ws = tgts[:n], ws[:n]
  for e in E:
    for name in names(e):
      if name is not e and ck.tier == 'quick' and name != e.name:
        continue
      f_now = jax.jit(jax.vmap(lambda t: tuple(
          jnp.asarray(x, jnp.float32) for x in get(name, dict(decoder_target_tokens=t)))))
      f_w = jax.jit(jax.vmap(lambda t, w: tuple(
          jnp.asarray(x, jnp.float32) for x in get(name, dict(
              decoder_target_tokens=t, decoder_loss_weights=w)))))
      for with_w in (False, True):
        if with_w:
          f, lw = f_w(tgts, ws)
          w0 = ws.astype(np.float64)
        else:
          f, lw = f_now(tgts)
          w0 = (tgts > 0).astype(np.float64)
        f, lw = np.asarray(f), np.asarray(lw)
        if e == E.NUM_REAL_TARGET_TOKENS:
          ef, ew = w0.sum((1, 2)), w0
        elif e == E.NUM_TOTAL_TARGET_TOKENS:
          ef, ew = np.full(n, float(B * L)), w0
        else:
          tot = w0.sum(-1, keepdims=True)
          ew = np.where(tot > 0, w0 / np.where(tot > 0, tot, 1), 0)
          ef = ew.sum((1, 2))
        ck.case((e.name, str(name), with_w), n=n,
                sample=dict(convention=str(name), targets=tgts[77], explicit_weights=with_w))
        bad = ~(np.isclose(f, ef, atol=1e-5) & np.isclose(lw, ew, atol=1e-5).all((1, 2)))
        if bad.any():
          i = int(np.argmax(bad))
          ck.violation(f'{e.name}: wrong normalizer or weights',
                       dict(targets=tgts[i], weights=w0[i]), (ef[i], ew[i]), (f[i], lw[i]))

  ck.part('packed')
  length = ck.pick(6, 8)
  lays = layouts(length)
  f_pk = jax.jit(jax.vmap(lambda t, s, p, w: get(
      E.AVERAGE_PER_SEQUENCE, dict(
          decoder_target_tokens=t[None], decoder_segment_ids=s[None],
          decoder_positions=p[None], decoder_loss_weights=w[None]))))
  f_pk0 = jax.jit(jax.vmap(lambda t, s, p: get(
      'average_per_sequence', dict(
          decoder_target_tokens=t[None], decoder_segment_ids=s[None],
          decoder_positions=p[None]))))
  vals = np.array(list(itertools.product([0.0, 1.0], repeat=length)), np.float32)
  frac = vals * np.array([1, .5, 2, .25, 1, 3, .5, 1][:length], np.float32)
  vals = np.concatenate([vals, frac])
  for lay in lays:
    seg, pos = row(lay, length)
    m = len(vals)
    w = vals
    t = np.broadcast_to(np.where(seg > 0, 7, 0), (m, length)).astype(np.int32)
    f, lw = f_pk(t, np.broadcast_to(seg, (m, length)), np.broadcast_to(pos, (m, length)), w)
    f, lw = np.asarray(f), np.asarray(lw)[:, 0]
    ew = np.zeros_like(w, dtype=np.float64)
    for s in range(1, len(lay) + 1):
      idx = seg == s
      tot = w[:, idx].sum(-1, keepdims=True)
      ew[:, idx] = np.where(tot > 0, w[:, idx] / np.where(tot > 0, tot, 1), 0)
    ck.case(lay, n=m, sample=dict(segments=seg, weights=vals[5]))
    bad = ~(np.isclose(lw, ew, atol=1e-5).all(-1) & np.isclose(f, ew.sum(-1), atol=1e-5))
    if bad.any():
      i = int(np.argmax(bad))
      ck.violation('packed examples do not each get total weight one',
                   dict(segments=seg, positions=pos, weights=w[i]),
                   (ew[i].sum(), ew[i]), (f[i], lw[i]))
    f, lw = f_pk0(t[:1], seg[None], pos[None])
    ew = np.zeros(length)
    for s, nn in enumerate(lay):
      ew[seg == s + 1] = 1.0 / nn
    ck.case(('default', lay))
    ck.expect(np.allclose(np.asarray(lw)[0, 0], ew, atol=1e-6) and
              np.isclose(float(np.asarray(f)[0]), len(lay), atol=1e-5),
              'packed default weights wrong', dict(segments=seg), ew, lw)

  ck.part('packing invariance')
  # The same examples packed in rows in every way: same per-token weights.
  lens = [1, 2, 2, 3][:ck.pick(3, 4)]
  rows_len = sum(lens)
  for perm in set(itertools.permutations(range(len(lens)))):
    for cuts in itertools.product([0, 1], repeat=len(lens) - 1):
      rows, cur = [], [perm[0]]
      for c, ex in zip(cuts, perm[1:]):
        if c:
          rows.append(cur)
          cur = []
        cur.append(ex)
      rows.append(cur)
      T, S, Pq, W = [], [], [], []
      for r in rows:
        seg, pos = row([lens[x] for x in r], rows_len)
        w = np.zeros(rows_len, np.float32)
        i = 0
        for x in r:
          w[i:i + lens[x]] = [(x + 1) * (1 + j % 2) for j in range(lens[x])]
          i += lens[x]
        T.append(np.where(seg > 0, 9, 0)); S.append(seg); Pq.append(pos); W.append(w)
      f, lw = get(E.AVERAGE_PER_SEQUENCE, dict(
          decoder_target_tokens=np.array(T, np.int32), decoder_segment_ids=np.array(S),
          decoder_positions=np.array(Pq), decoder_loss_weights=np.array(W)))
      lw = np.asarray(lw)
      got = {}
      for r, roww in zip(rows, lw):
        i = 0
        for x in r:
          got[x] = roww[i:i + lens[x]].tolist()
          i += lens[x]
      ok = np.isclose(float(f), len(lens))
      for x in got:
        raw = np.array([(x + 1) * (1 + j % 2) for j in range(lens[x])], float)
        ok &= np.allclose(got[x], raw / raw.sum(), atol=1e-5)
      ck.case((perm, cuts))
      ck.expect(ok, 'normalized weights depend on how examples are packed',
                dict(rows=rows, lens=lens), None, dict(f=float(f), w=got))
