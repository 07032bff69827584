"""D04: top-k / top-p masks and the bit-level searches."""
import itertools

import numpy as np
import jax
import jax.numpy as jnp

LEVEL = 'exploration'
RULE = ('every threshold of a boundary set of int32/float32 (all exponents x '
        'mantissa corners, all sparse bit patterns); every logit vector over a '
        'value alphabet, every k, every p around each partial sum; a case is '
        'non-trivial when vector, k/p and rank differ')
ASSUMPTIONS = ['float comparisons of XLA CPU; p within 1e-5 of a partial sum is '
               'only required to be resolved when the partial sums are exact']


def _int_thresholds(full):
  t = set()
  base = [0] + [1 << i for i in range(31)]
  for b in base:
    for d in (-2, -1, 0, 1, 2):
      t.add(b + d)
      t.add(-b + d)
  for i, j in itertools.combinations(range(31), 2):
    t.add((1 << i) | (1 << j))
    t.add(-((1 << i) | (1 << j)))
    t.add((1 << 31) - 1 - ((1 << i) | (1 << j)))
  if full:
    for i, j, k in itertools.combinations(range(31), 3):
      t.add((1 << i) | (1 << j) | (1 << k))
      t.add(-((1 << i) | (1 << j) | (1 << k)))
  t |= {2**31 - 1, 2**31 - 2, -2**31, -2**31 + 1}
  return np.array(sorted(x for x in t if -2**31 <= x < 2**31), np.int64)


def check(ck):
  from t5x import binary_search as bs

  # ---- int32 search
  ck.part('int32_bsearch')
  th = _int_thresholds(ck.thorough)
  t32 = jnp.asarray(th.astype(np.int32))
  got = np.asarray(bs.int32_bsearch((len(th),), lambda x: x > t32))
  for a, b in zip(th, got):
    ck.case(('i', int(a)), sample=dict(threshold=int(a)))
    if int(a) != int(b):
      ck.violation('largest int32 with a false predicate is wrong',
                   dict(threshold=int(a)), int(a), int(b))
  for shape in [(), (1,), (2, 3), (2, 1, 4)]:
    n = int(np.prod(shape))
    for off in range(0, len(th) - n, max(1, len(th) // 10)):
      part = th[off:off + n].astype(np.int32).reshape(shape)
      got = np.asarray(bs.int32_bsearch(shape, lambda x: x > part))
      ck.case(('is', shape, off))
      ck.expect(got.shape == shape and np.array_equal(got, part),
                'batched integer search wrong', dict(shape=shape, t=part), part,
                got)
  ck.expect(int(bs.int32_bsearch((), lambda x: jnp.full((), True))) == -2**31,
            'always-true predicate must give the minimum')
  ck.expect(int(bs.int32_bsearch((), lambda x: jnp.full((), False))) == 2**31 - 1,
            'always-false predicate must give the maximum')

  # ---- float32 search, thresholds by bit pattern
  ck.part('float32_bsearch')
  mant = [0, 1, 2, 3, 1 << 10, 1 << 22, (1 << 22) + 1, (1 << 23) - 2, (1 << 23) - 1]
  bits = [(s << 31) | (e << 23) | m for s in (0, 1) for e in range(255)
          for m in mant]
  arr = np.array(bits, np.uint32).view(np.float32)

  def key(u):  # total order of finite floats as integers
    u = np.asarray(u, np.int64)
    return np.where(u >> 31, -(u & 0x7fffffff) - 1, u)

  keys = key(bits)
  jk = jnp.asarray(keys.astype(np.int32))

  def pred(x):
    u = jax.lax.bitcast_convert_type(x, jnp.int32)
    k = jnp.where(u < 0, -(u & 0x7fffffff) - 1, u)
    return k > jk

  got = np.asarray(bs.float32_bsearch((len(bits),), pred))
  gb = got.view(np.uint32)
  for b, g, f in zip(bits, gb, arr):
    ck.case(('f', b), sample=dict(threshold=float(f)))
    if int(b) != int(g):
      ck.violation('largest float32 with a false predicate is wrong',
                   dict(threshold_bits=hex(b)), hex(b), hex(int(g)))
  fmax = np.finfo(np.float32).max
  ck.expect(float(bs.float32_bsearch((), lambda x: jnp.full((), False))) == float(fmax),
            'always-false float predicate must give the largest finite value')

  # ---- top-k
  alpha = [-3.3e38, -2.5, -1.0, -0.0, 0.0, 0.5, 2.0, 3.3e38, -np.inf]
  topk = jax.jit(bs.topk_mask, static_argnums=())
  for n in range(1, ck.pick(5, 6)):
    ck.part(f'topk_mask length {n}')
    al = alpha if n < 5 else [-2.5, -1.0, 0.0, 0.5, 2.0, -np.inf]
    rows = np.array(list(itertools.product(al, repeat=n)), np.float32)
    for dtype in (np.float32, jnp.bfloat16):
      xs = jnp.asarray(rows).astype(dtype)
      xf = np.asarray(xs.astype(jnp.float32))
      for k in range(0, n + 2):
        for repl in (-1e7, 7.25):
          out = np.asarray(topk(xs, k, jnp.asarray(repl, xs.dtype))
                           .astype(jnp.float32))
          ck.case(('k', n, k, str(dtype), repl), n=len(rows),
                  sample=dict(x=rows[len(rows) // 2], k=k))
          r = np.float32(jnp.asarray(repl, xs.dtype).astype(jnp.float32))
          finite = np.sort(np.where(np.isinf(xf), -np.inf, xf), axis=-1)[:, ::-1]
          if k == 0:
            # Nothing but the largest representable value may survive.
            exp_keep = xf > 3.0e38
            must = np.zeros_like(exp_keep)
            may = exp_keep
          else:
            kth = finite[:, min(k, n) - 1]
            keep = xf >= kth[:, None]
            must = keep & (xf > -np.inf)
            may = keep | (xf == -np.inf)
          kept = out == xf
          repld = out == r
          ok = (kept | repld) & ~(must & ~kept) & (may | repld)
          if not ok.all():
            i = int(np.argmin(ok.all(-1)))
            ck.violation('top-k keeps the wrong set',
                         dict(x=xf[i], k=k, replace=repl, dtype=str(dtype)),
                         np.where(must[i], xf[i], r), out[i])
  # neighbouring and tiny values: any two different floats are different
  up = lambda x, d: np.nextafter(np.float32(x), np.float32(d))
  close = [[1.0, up(1, 2), up(1, 0), 1.0 + 3e-7], [1e-9, 2e-9, -1e-9, 1.5e-9], [2e-38, 3e-38, -2e-38, 0.0],
           [1e30, up(1e30, 2e30), -1e30, up(-1e30, 0)], [16777216.0, 16777218.0, 16777214.0, 5.0],
           [up(0.5, 1), 0.5, -0.5, up(-0.5, 0)]]
  for al in close:
    ck.part(f'topk_mask close values {al[0]}')
    for n in (2, 3, 4):
      rows = np.array(list(itertools.product(al, repeat=n)), np.float32)
      for k in range(1, n + 1):
        out = np.asarray(topk(jnp.asarray(rows), k, jnp.float32(-7.25e33)))
        kth = np.sort(rows, -1)[:, ::-1][:, k - 1]
        want = np.where(rows >= kth[:, None], rows, np.float32(-7.25e33))
        ck.case(('kc', n, k, al[0]), n=len(rows))
        bad = ~(out == want).all(-1)
        if bad.any():
          i = int(np.argmax(bad))
          ck.violation('top-k keeps the wrong set among close values', dict(x=rows[i], k=k), want[i], out[i])
  ck.part('topk_mask ranks')
  base = np.array(list(itertools.product([-1., 0., 0.5, 2.], repeat=3)), np.float32)
  for k in (1, 2, 3):
    want = np.asarray(bs.topk_mask(jnp.asarray(base), k, -9.))
    for shape in [(2, 32, 3), (4, 2, 8, 3), (64, 1, 3)]:
      got = np.asarray(bs.topk_mask(jnp.asarray(base.reshape(shape)), k, -9.))
      ck.case(('kr', k, shape), n=64)
      ck.expect(np.array_equal(got.reshape(-1, 3), want),
                'top-k depends on the batch rank', dict(k=k, shape=shape))
    for row, w in zip(base, want):
      got = np.asarray(bs.topk_mask(jnp.asarray(row), k, -9.))
      ck.case(('k1', k, tuple(row)))
      ck.expect(np.array_equal(got, w), 'top-k of an unbatched vector differs',
                dict(x=row, k=k), w, got)

  # ---- top-p
  topp = jax.jit(bs.topp_mask)
  # exact: equal logits, plus -inf
  ck.part('topp_mask exact masses')
  for n in (1, 2, 4, 8):
    for live in (x for x in (1, 2, 4, 8) if x <= n):
      for pos in itertools.combinations(range(n), live):
        x = np.full(n, -np.inf, np.float32)
        x[list(pos)] = 1.5
        for p in [1e-6, 0.5, 0.125, 0.25, 1.0]:
          out = np.asarray(topp(jnp.asarray(x)[None], p, -7.))[0]
          ck.case(('pe', n, pos, p))
          ok = all(out[i] == 1.5 for i in pos)
          ck.expect(ok, 'top-p drops one of several tied logits',
                    dict(x=x, p=p), x, out)
  # Partial sums that hit p exactly: the smallest set with mass >= p.
  for n in (2, 3, 5, 9):
    for live in (x for x in (1, 2, 4, 8) if x < n):
      for pos in itertools.islice(itertools.combinations(range(n), live), 40):
        for low in (-200., -3e4):
          x = np.full(n, low, np.float32)
          x[list(pos)] = 1.5
          out = np.asarray(topp(jnp.asarray(x)[None], 1.0, -7.))[0]
          ck.case(('px', n, pos, low))
          ck.expect(np.array_equal(out, np.where(x == 1.5, x, np.float32(-7.))),
                    'top-p keeps more than the smallest sufficient set',
                    dict(x=x, p=1.0), None, out)
  alpha = [-4.0, -1.0, 0.0, 0.75, 2.0, -np.inf]
  for n in range(1, ck.pick(5, 6)):
    ck.part(f'topp_mask length {n}')
    rows = np.array([r for r in itertools.product(alpha, repeat=n)
                     if max(r) > -np.inf], np.float32)
    e = np.exp(rows.astype(np.float64))
    probs = e / e.sum(-1, keepdims=True)
    srt = np.sort(probs, -1)[:, ::-1]
    cum = np.cumsum(srt, -1)
    # p around every partial sum of every vector: distinct p grid, plus rowwise.
    for j in range(n):
      for d in (-3e-4, 3e-4):
        for tgt in sorted(set(np.round(cum[:, j] + d, 6))):
          if not 0 < tgt <= 1.0:
            continue
          p = float(tgt)
          near = np.abs(cum - p).min(-1) < 1e-5
          out = np.asarray(topp(jnp.asarray(rows), p, -1e7))
          cnt = (cum < p).sum(-1)
          cnt = np.minimum(cnt, n - 1)
          thr = srt[np.arange(len(rows)), cnt]
          keep = probs >= thr[:, None] - 1e-12
          exp = np.where(keep, rows, np.float32(-1e7))
          ok = (out == exp).all(-1) | near
          # A dropped -inf and a kept one are the same distribution.
          same = ((out == exp) | (rows == -np.inf)).all(-1)
          ck.case(('p', n, p), n=int(len(rows) - near.sum()),
                  sample=dict(x=rows[-1], p=p))
          bad = ~(ok | same)
          if bad.any():
            i = int(np.argmax(bad))
            ck.violation('top-p keeps the wrong set', dict(x=rows[i], p=p),
                         exp[i], out[i])
    out = np.asarray(topp(jnp.asarray(rows), 1.0, -1e7))
    bad = ~((out == rows) | (rows == -np.inf) | (probs < 1e-6)).all(-1)
    ck.case(('p1', n), n=len(rows))
    if bad.any():
      i = int(np.argmax(bad))
      ck.violation('top-p with p=1 drops a possible token', dict(x=rows[i]),
                   rows[i], out[i])
  ck.part('topp_mask ranks')
  base = np.array(list(itertools.product([-1., 0., 0.5, 2.], repeat=3)), np.float32)
  for p in (0.3, 0.62, 0.9):
    want = np.asarray(bs.topp_mask(jnp.asarray(base), p, -9.))
    for shape in [(2, 32, 3), (4, 2, 8, 3), (64, 1, 3)]:
      got = np.asarray(bs.topp_mask(jnp.asarray(base.reshape(shape)), p, -9.))
      ck.case(('pr', p, shape), n=64)
      ck.expect(np.array_equal(got.reshape(-1, 3), want),
                'top-p depends on the batch rank', dict(p=p, shape=shape))
    for row, w in zip(base, want):
      got = np.asarray(bs.topp_mask(jnp.asarray(row), p, -9.))
      ck.case(('p1', p, tuple(row)))
      ck.expect(np.array_equal(got, w), 'top-p of an unbatched vector differs',
                dict(x=row, p=p), w, got)
