"""M03: relative position biases."""
import itertools
import math

import numpy as np

import lib_layers as ll

TECHNIQUE = 'enum'
LEVEL = 'exploration'
RULE = ('every distance up to twice the maximum distance, for every bucket count and maximum distance '
        'up to a bound and both directions, in the four layer libraries: bucket of a distance against '
        'exact integer arithmetic, partition, monotonicity, symmetry; every pair of lengths for the '
        'bias array; every query position of every length for the incremental use; distinct = '
        '(library, buckets, maximum distance, direction) and (library, lengths)')
ASSUMPTIONS = ['bucket boundaries that are exact ties in real arithmetic may fall on either side '
               '(single precision logarithm)',
               'at least four buckets when bidirectional and two otherwise; the maximum distance '
               'exceeds the exactly represented distances']


def half_bucket(n, nb, md):
  """Bucket of a distance n >= 0 among nb buckets; the set of admissible values."""
  me = nb // 2
  if n < me:
    return {n}
  span = nb - me
  if n >= md:
    return {nb - 1}
  x = math.log(n / me) / math.log(md / me) * span
  out = {min(me + int(math.floor(x + d)), nb - 1) for d in (-1e-6, 1e-6)}
  return out


def check(ck):
  import jax
  import jax.numpy as jnp

  # ---- buckets
  ck.part('buckets')
  top_b, top_d = ck.pick(34, 66), ck.pick(72, 260)
  for bi in (True, False):
    for nb in range(4 if bi else 2, top_b):
      half = nb // 2 if bi else nb
      for md in list(range(half // 2 + 1, top_d, ck.pick(3, 1))) + [128, 257]:
        if md <= half // 2:
          continue
        reach = 2 * md + 4
        d = np.arange(-reach, reach + 1, dtype=np.int32)
        ok = [half_bucket(n, half, md) for n in range(reach + 1)]
        case0 = dict(buckets=nb, max_distance=md, bidirectional=bi)
        lo = np.array([min(s) for s in ok])
        hi = np.array([max(s) for s in ok])
        for name in ll.PACKAGES:
          case = dict(case0, library=name)
          f = ll.layers(name).RelativePositionBiases._relative_position_bucket
          ck.case((name, nb, md, bi))
          good, got = ck.guarded('bucket', lambda: np.asarray(f(d, bidirectional=bi, num_buckets=nb, max_distance=md)), case)
          if not good:
            continue
          ck.transition(len(d))
          past, future = got[reach::-1], got[reach:]
          bad = np.nonzero((past < lo) | (past > hi))[0]
          if len(bad):
            n = int(bad[0])
            ck.expect(False, 'bucket of a past distance', dict(case, distance=n), sorted(ok[n]), int(past[n]))
          ck.expect((np.diff(past) >= 0).all(), 'buckets are not monotone', case)
          if bi:
            ck.expect((future[1:] == past[1:] + half).all(), 'future distances do not mirror the past ones', case,
                      None, future[:20])
          else:
            ck.expect((future == got[reach]).all() and got[reach] == 0, 'the future is not collapsed', case)
          ck.expect(got.min() >= 0 and got.max() < nb, 'bucket out of range', case, nb, (int(got.min()), int(got.max())))
          # the shape and the order of the argument do not matter
          if md % 24 == 1:
            sq = d[:2 * reach].reshape(2, -1)
            ck.expect((np.asarray(f(sq, bidirectional=bi, num_buckets=nb, max_distance=md)).ravel() == got[:2 * reach]).all(),
                      'bucket depends on the shape of the argument', case)

  # ---- the bias array
  ck.part('bias arrays')
  params = [(nb, md) for nb in (4, 7, 8, 32) for md in (4, 9, 128) if md > nb // 2]
  L = ck.pick(5, 10)
  for name in ll.PACKAGES:
    R = ll.layers(name).RelativePositionBiases
    for (nb, md), bi, heads, dtype in itertools.product(params, (True, False), ck.pick((3,), (1, 3)), ('float32', 'bfloat16')):
      m = R(num_buckets=nb, max_distance=md, num_heads=heads, dtype=jnp.dtype(dtype),
            embedding_init=jax.nn.initializers.normal(1.0))
      table = np.random.RandomState(nb).randn(heads, nb).astype(np.float32)
      init = ll.unbox(jax.eval_shape(lambda: m.init(jax.random.PRNGKey(0), 2, 2)))
      ck.expect(init['params']['rel_embedding'].shape == (heads, nb), 'shape of the table', (name, nb, heads))
      want_table = np.asarray(jnp.asarray(table, dtype), np.float32)
      for q, k in itertools.product(range(1, L), repeat=2) if dtype == 'float32' else ((1, 1), (3, 5), (L, L)):
        case = dict(library=name, buckets=nb, max_distance=md, bidirectional=bi, heads=heads, dtype=dtype, q=q, k=k)
        ck.case(str(case))
        good, out = ck.guarded('bias', lambda: np.asarray(m.apply({'params': {'rel_embedding': table}}, q, k, bi), np.float32), case)
        if not good:
          continue
        half = nb // 2 if bi else nb
        want = np.zeros((1, heads, q, k), np.float32)
        tie = np.zeros((q, k), bool)
        for i, j in itertools.product(range(q), range(k)):
          n = i - j if bi else max(i - j, 0)
          s = half_bucket(abs(n), half, md)
          b = max(s) + (half if bi and n < 0 else 0)
          tie[i, j] = len(s) > 1
          want[0, :, i, j] = want_table[:, b]
        ck.expect(out.shape == want.shape and (out == want)[:, :, ~tie].all(), 'bias array', case, want, out)

  # ---- incremental use: the cached array is the full one
  ck.part('incremental')
  R = ll.layers('decoder_only').RelativePositionBiases
  for (nb, md), bi, n in itertools.product(params, (True, False), range(1, L)):
    case = dict(buckets=nb, max_distance=md, bidirectional=bi, length=n)
    ck.case(str(case))
    m = R(num_buckets=nb, max_distance=md, num_heads=2, dtype=jnp.float32)
    table = np.random.RandomState(nb).randn(2, nb).astype(np.float32)
    v = {'params': {'rel_embedding': table}}
    full = np.asarray(m.apply(v, n, n, bi))
    first = lambda: m.apply(v, n, n, bi, decode=True, mutable=['cache'])
    if bi:
      ck.expect_raises('bidirectional biases in incremental decoding', first, case, ValueError)
      continue
    good, res = ck.guarded('first use', first, case)
    if not good:
      continue
    out, mut = res
    ck.expect((np.asarray(out) == full).all(), 'bias while filling the cache', case)
    cache = mut.get('cache', {})
    for step in range(3):
      good, res = ck.guarded('later use', lambda: m.apply({**v, 'cache': cache}, n, n, bi, decode=True, mutable=['cache']), case)
      if not good:
        break
      out, mut = res
      cache = mut.get('cache', cache)
      ck.transition()
      ck.expect((np.asarray(out) == full).all(), 'bias from the cache', dict(case, step=step))
    # without decoding, the cache plays no role
    out = m.apply({**v, 'cache': cache}, n, n, bi)
    ck.expect((np.asarray(out) == full).all(), 'bias without decoding but with a cache', case)
    for q, k in ((n + 1, n), (n, n + 1)):
      ck.expect_raises('another length than the cached one',
                       lambda: m.apply({**v, 'cache': cache}, q, k, bi, decode=True, mutable=['cache']), dict(case, q=q, k=k), ValueError)

  # ---- the row used at one position of incremental attention
  ck.part('rows')
  H, D, F = 2, 3, 4
  for name in ll.PACKAGES:
    lay = ll.layers(name)
    att = lay.MultiHeadDotProductAttention(num_heads=H, head_dim=D, dtype=jnp.float32)
    rng = np.random.RandomState(3)
    for n in range(1, ck.pick(5, 9)):
      x = np.zeros((1, n, F), np.float32)
      v = ll.unbox(att.init(jax.random.PRNGKey(0), x, x, decode=True, deterministic=True))
      p = ll.randomize(v['params'], n)
      for bi in (True, False):
        bias = np.asarray(lay.RelativePositionBiases(num_buckets=8, max_distance=9, num_heads=H, dtype=jnp.float32).apply(
            {'params': {'rel_embedding': rng.randn(H, 8).astype(np.float32) * 2}}, n, n, bi))
        seq = rng.randn(1, n, F).astype(np.float32)
        causal = np.tril(np.ones((n, n), np.float32))[None, None]
        full = np.asarray(att.apply({'params': p}, seq, seq, causal, bias, deterministic=True))
        cache = v['cache']
        for t in range(n):
          case = dict(library=name, length=n, bidirectional=bi, position=t)
          ck.case(str(case))
          out, mut = att.apply({'params': p, 'cache': cache}, seq[:, t:t + 1], seq[:, t:t + 1], None, bias,
                               decode=True, deterministic=True, mutable=['cache'])
          cache = mut['cache']
          ck.transition()
          ck.expect(np.allclose(np.asarray(out)[:, 0], full[:, t], atol=2e-5), 'bias row of one position', case,
                    full[:, t], np.asarray(out)[:, 0])
