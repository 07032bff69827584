"""M02: attention sees exactly the permitted positions."""
import itertools

import numpy as np

import lib_layers as ll

TECHNIQUE = 'enum'
LEVEL = 'exploration'
RULE = ('every token, prefix and segment pattern up to a length for every mask builder of the four '
        'layer libraries, against the definition; every tuple of masks and biases up to a number; '
        'every padding x segment (x prefix) pattern with every single-token change through every '
        'network: the set of changed outputs lies between the reachable positions and what positions '
        'without anything to attend to may add; every packing of short examples against each alone; '
        'distinct = the pattern')
ASSUMPTIONS = ['what a position sees that may attend to nothing is unspecified',
               'networks of two layers with generic weights; tolerance 1e-5']


def closure(adj):
  """Reflexive-transitive closure of boolean matrices (batched)."""
  n = adj.shape[-1]
  r = adj | np.eye(n, dtype=bool)
  for _ in range(n):
    r = r | np.einsum('...ij,...jk->...ik', r, r)
  return r


def check(ck):
  import jax
  import jax.numpy as jnp

  # ---- single masks
  ck.part('builders')
  pair = {'multiply': (jnp.multiply, lambda a, b: a * b), 'equal': (jnp.equal, lambda a, b: a == b),
          'and': (jnp.logical_and, lambda a, b: bool(a) and bool(b)), 'ge': (jnp.greater_equal, lambda a, b: a >= b)}
  vecs = lambda n: np.array(list(itertools.product((0, 1, 2), repeat=n)), np.int32).reshape(-1, n)
  for name in ll.PACKAGES:
    lay = ll.layers(name)
    for (fn, (f, ref)), q, k in itertools.product(pair.items(), range(1, ck.pick(4, 5)), range(1, ck.pick(4, 5))):
      a, b = vecs(q), vecs(k)
      A, B = np.repeat(a, len(b), 0), np.tile(b, (len(a), 1))
      want = np.array([[[ref(x, y) for y in B[i]] for x in A[i]] for i in range(len(A))], np.float32)[:, None]
      for extra, dtype in itertools.product((0, 1, 2), ('float32', 'bfloat16', 'bool', 'int32')):
        if fn == 'multiply' and dtype == 'bool':
          want_ = want != 0
        else:
          want_ = want
        case = dict(library=name, fn=fn, q=q, k=k, extra=extra, dtype=dtype)
        ck.case(str(case), n=len(A))
        ok, got = ck.guarded('attention mask', lambda: lay.make_attention_mask(A, B, f, extra, jnp.dtype(dtype)), case)
        if ok:
          ck.expect(got.dtype == dtype and got.shape == (1,) * extra + want.shape, 'shape or type of the mask', case,
                    want.shape, (got.shape, str(got.dtype)))
          g = np.asarray(got, np.float32).reshape(want.shape)
          bad = np.nonzero((g != np.asarray(want_, np.float32)).any(axis=(1, 2, 3)))[0]
          ck.expect(not len(bad), 'attention mask', dict(case, inputs=(A[bad[:1]], B[bad[:1]])), want[bad[:1]], g[bad[:1]])
    for n, extra, dtype in itertools.product(range(1, 8), (0, 1, 2), ('float32', 'bool')):
      case = dict(library=name, length=n, extra=extra, dtype=dtype)
      ck.case(('causal', str(case)))
      x = np.random.RandomState(n).randint(0, 3, (3, n))
      got = lay.make_causal_mask(x, extra, jnp.dtype(dtype))
      want = np.broadcast_to(np.tril(np.ones((n, n))), (1,) * extra + (3, 1, n, n))
      ck.expect(got.dtype == dtype and got.shape == want.shape and (np.asarray(got) == want).all(), 'causal mask', case, want, got)

    # tuples of masks
    small = [None] + [np.array(v, np.float32).reshape(1, 1, 2, 2) for v in itertools.product((0., 1.), repeat=4)]
    wide = [np.array(v, np.float32).reshape(2, 1, 1, 2) for v in itertools.product((0., 1., 3.), repeat=4)][::7] + \
        [np.ones((1, 3, 2, 1), np.float32), np.zeros((1, 1, 2, 2), bool)]
    tuples = [()] + [(a,) for a in small + wide] + list(itertools.product(small, repeat=2)) + \
        list(itertools.product(small[:6] + wide[:3], repeat=3)) + [(a, b) for a in small for b in wide] + \
        [(b, a) for a in small for b in wide]
    if ck.thorough:
      tuples += list(itertools.product(small, repeat=3))
    for t in tuples:
      ck.case(('tuple', name, repr(t)))
      some = [m for m in t if m is not None]
      ok, got = ck.guarded('combining', lambda: (lay.combine_masks(*t, dtype=jnp.bfloat16), lay.combine_biases(*t)), t)
      if not ok:
        continue
      if not some:
        ck.expect(got == (None, None), 'nothing to combine', t, None, got)
        continue
      conj = some[0] != 0 if len(some) > 1 else some[0]
      tot = some[0]
      for m in some[1:]:
        conj = conj & (m != 0)
        tot = tot + m
      ck.expect(got[0].dtype == jnp.bfloat16 and got[0].shape == conj.shape and
                (np.asarray(got[0], np.float32) == np.asarray(conj, np.float32)).all(), 'conjunction of masks', t, conj, got[0])
      ck.expect(got[1].shape == tot.shape and (np.asarray(got[1], np.float32) == np.asarray(tot, np.float32)).all(),
                'sum of biases', t, tot, got[1])
    for a, b in ((np.ones((2, 2)), np.ones((1, 2, 2))), (np.ones((1, 1, 2, 2)), np.ones((2, 2)))):
      ck.expect_raises('masks of different rank', lambda: lay.combine_masks(a, b), name)
      ck.expect_raises('biases of different rank', lambda: lay.combine_biases(a, b), name)

  # ---- decoder masks: all patterns of one length as one batch
  ck.part('decoder masks')
  for n in range(1, ck.pick(5, 6)):
    toks = np.array(list(itertools.product((0, 1, 7), repeat=n)), np.int32).reshape(-1, n)
    if n > 4:
      toks = np.array(list(itertools.product((0, 3), repeat=n)), np.int32).reshape(-1, n)
    pre = np.array(list(itertools.product((0, 1), repeat=n)), np.int32).reshape(-1, n)
    seg = np.array(list(itertools.product((0, 1, 2), repeat=n)), np.int32).reshape(-1, n)
    for use_pre, use_seg in itertools.product((False, True), repeat=2):
      sets = [toks] + ([pre] if use_pre else []) + ([seg] if use_seg else [])
      idx = np.stack(np.meshgrid(*[np.arange(len(s)) for s in sets], indexing='ij'), -1).reshape(-1, len(sets))
      for lo in range(0, len(idx), 60000):
        part = idx[lo:lo + 60000]
        t = toks[part[:, 0]]
        p = pre[part[:, 1]] if use_pre else None
        s = seg[part[:, -1]] if use_seg else None
        want = (t > 0)[:, :, None] & (t > 0)[:, None, :]
        order = np.broadcast_to(np.tril(np.ones((n, n), bool)), want.shape)
        if use_pre:
          order = order | ((p[:, :, None] * p[:, None, :]) > 0)
        want = want & order
        if use_seg:
          want = want & (s[:, :, None] == s[:, None, :])
        for name in ll.PACKAGES:
          lay = ll.layers(name)
          for dtype in ('float32', 'bool') if n < 3 else ('float32',):
            case = dict(library=name, length=n, prefix=use_pre, segments=use_seg, dtype=dtype)
            ck.case((str(case), lo), n=len(part))
            ok, got = ck.guarded('decoder mask', lambda: lay.make_decoder_mask(t, jnp.dtype(dtype), p, s), case)
            if ok:
              ck.expect(got.shape == (len(part), 1, n, n) and got.dtype == dtype, 'shape or type', case, None, (got.shape, str(got.dtype)))
              g = np.asarray(got)[:, 0] > 0
              bad = np.nonzero((g != want).any(axis=(1, 2)))[0]
              if len(bad):
                i = bad[0]
                ck.expect(False, 'decoder mask', dict(case, tokens=t[i], prefix=None if p is None else p[i],
                                                     segment_ids=None if s is None else s[i]), want[i], g[i])

  # ---- networks
  ll.mend_flax()
  TOL = 1e-5

  def compare(what, case, base, pert, may, must, describe):
    """Outputs changed by a perturbation, per row and position."""
    diff = np.abs(pert - base).max(-1)
    leak = (diff > TOL) & ~may
    blind = (diff <= TOL) & must
    for bad, text in ((leak, 'a position is influenced that must not be'), (blind, 'a permitted position has no influence')):
      rows = np.argwhere(bad)
      if len(rows):
        i, pos = rows[0]
        ck.expect(False, f'{what}: {text}', dict(case, output=int(pos), **describe(int(i))), None, float(diff[i, pos]))

  nets = [('t5', {}), ('gpu', {}), ('scalable_t5', dict(scan_layers=True)), ('scalable_t5', dict(scan_layers=False))]
  n = 3
  alphabet = lambda r, m: np.array(list(itertools.product(r, repeat=m)), np.int32)
  for name, kw in nets:
    ck.part(f'influence in {name}')
    model, params = ll.encdec(name, **kw)
    fwd = jax.jit(lambda e, di, dt, es, ds, p=params, m=model: m.apply({'params': p}, e, di, dt, es, ds, enable_dropout=False))
    fwd0 = jax.jit(lambda e, di, dt, p=params, m=model: m.apply({'params': p}, e, di, dt, enable_dropout=False))
    pads = alphabet((0, 1), n)
    for segs in (None, 'ids'):
      seg_e = alphabet((1, 2), n) if segs else np.ones((1, n), np.int32)
      seg_d = seg_e
      if segs and not ck.thorough:
        seg_e, seg_d = seg_e[:4], seg_d  # up to renaming of the two
      idx = np.stack(np.meshgrid(*map(np.arange, (len(pads), len(pads), len(seg_e), len(seg_d))), indexing='ij'), -1).reshape(-1, 4)
      pe, pd, se, sd = pads[idx[:, 0]], pads[idx[:, 1]], seg_e[idx[:, 2]], seg_d[idx[:, 3]]
      se, sd = se * pe, sd * pd  # padding belongs to segment 0
      rng = np.random.RandomState(1)
      enc = rng.randint(1, 5, pe.shape) * pe
      tgt = rng.randint(1, 5, pd.shape) * pd
      inp = rng.randint(0, 5, pd.shape)
      run = (lambda e, di, dt: np.asarray(fwd(e, di, dt, se, sd))) if segs else (lambda e, di, dt: np.asarray(fwd0(e, di, dt)))
      base = run(enc, inp, tgt)
      E = (pe[:, :, None] * pe[:, None, :] > 0) & (se[:, :, None] == se[:, None, :])
      D = (pd[:, :, None] * pd[:, None, :] > 0) & (sd[:, :, None] == sd[:, None, :]) & np.tril(np.ones((n, n), bool))
      C = (pd[:, :, None] * pe[:, None, :] > 0) & (sd[:, :, None] == se[:, None, :])

      def reach(E, D, C):
        E, D = closure(E), closure(D)
        return np.einsum('bij,bjk,bkl->bil', D, C, E) > 0, D

      must_e, must_d = reach(E, D, C)
      full = lambda m: m | ~m.any(-1, keepdims=True)
      may_e, may_d = reach(full(E), full(D), full(C))
      real = pd > 0
      ck.case((name, str(kw), segs), n=len(idx))
      desc = lambda i: dict(encoder=enc[i], inputs=inp[i], targets=tgt[i], encoder_segments=se[i], decoder_segments=sd[i])
      for j in range(n):
        case = dict(network=name, options=kw, packed=bool(segs), changed=j)
        ck.case((name, str(kw), segs, 'encoder', j), n=len(idx))
        e2 = enc.copy()
        e2[:, j] = np.where(pe[:, j] > 0, enc[:, j] % 4 + 1, 0)
        live = (pe[:, j] > 0)[:, None]
        compare('encoder token', case, base, run(e2, inp, tgt), may_e[:, :, j] & live | ~real, must_e[:, :, j] & live & real, desc)
        ck.case((name, str(kw), segs, 'decoder', j), n=len(idx))
        d2 = inp.copy()
        d2[:, j] = (inp[:, j] + 1 + j) % 5
        compare('decoder token', case, base, run(enc, d2, tgt), may_d[:, :, j] | ~real, must_d[:, :, j] & real, desc)
        ck.case((name, str(kw), segs, 'target', j), n=len(idx))
        t2 = tgt.copy()
        t2[:, j] = np.where(pd[:, j] > 0, tgt[:, j] % 4 + 1, 0)
        compare('target token', case, base, run(enc, inp, t2), np.zeros_like(real), np.zeros_like(real), desc)
        ck.transition(3 * len(idx))
    for kwargs in (dict(encoder_segment_ids=np.ones((1, n), np.int32)),):
      ck.expect_raises('packing while decoding', lambda: model.apply(
          {'params': params}, np.zeros((1, n, 4), np.float32), enc[:1], inp[:1], tgt[:1], decode=True, enable_dropout=False,
          method=model.decode, mutable=['cache'], **kwargs), name, ValueError)

    # packing
    ck.part(f'packing in {name}')
    shapes = [(a, b) for a in (1, 2) for b in (1, 2)] + [(3, 1), (1, 3)]
    LE, LD = 6, 6
    packs = [p for k in (1, 2, 3) for p in itertools.product(shapes, repeat=k)
             if sum(a for a, _ in p) <= LE and sum(b for _, b in p) <= LD]
    rng = np.random.RandomState(2)
    rows, alone, where = [], [], []
    for p in packs:
      row = np.zeros((5, 6), np.int32)
      oe = od = 0
      for s, (a, b) in enumerate(p):
        ex = np.zeros((3, 6), np.int32)
        ex[0, :a], ex[2, :b] = rng.randint(1, 5, a), rng.randint(1, 5, b)
        ex[1, 1:b] = ex[2, :b - 1]
        row[0, oe:oe + a], row[1, od:od + b], row[2, od:od + b] = ex[0, :a], ex[1, :b], ex[2, :b]
        row[3, oe:oe + a] = row[4, od:od + b] = s + 1
        alone.append(ex)
        where.append((len(rows), od, b))
        oe, od = oe + a, od + b
      rows.append(row)
    rows, alone = np.array(rows), np.array(alone)
    packed = np.asarray(fwd(*[rows[:, i] for i in range(5)]))
    single = np.asarray(fwd0(*[alone[:, i] for i in range(3)]))
    for i, (r, od, b) in enumerate(where):
      case = dict(network=name, options=kw, packed=packs[r], offset=od, length=b)
      ck.case((name, str(kw), i))
      ck.expect(np.allclose(packed[r, od:od + b], single[i, :b], atol=TOL), 'a packed example differs from the example alone', case,
                single[i, :b], packed[r, od:od + b])
    # alone without any padding
    for a, b in shapes:
      sel = [i for i, (r, od, m) in enumerate(where) if m == b and (alone[i][0] > 0).sum() == a][:20]
      short = np.asarray(fwd0(alone[sel, 0, :a], alone[sel, 1, :b], alone[sel, 2, :b]))
      ck.case((name, str(kw), 'short', a, b), n=len(sel))
      ck.expect(np.allclose(short, single[sel, :b], atol=TOL), 'padding changes the outputs', dict(network=name, options=kw, shape=(a, b)))

  # ---- decoder-only
  ck.part('influence in decoder_only')
  model, params = ll.decoder()
  apply = jax.jit(lambda di, dt, s, c, p=params, m=model: m.apply({'params': p}, di, dt, s, None, c, enable_dropout=False))
  apply_s = jax.jit(lambda di, dt, s, p=params, m=model: m.apply({'params': p}, di, dt, s, enable_dropout=False))
  apply_c = jax.jit(lambda di, dt, c, p=params, m=model: m.apply({'params': p}, di, dt, None, None, c, enable_dropout=False))
  apply_0 = jax.jit(lambda di, dt, p=params, m=model: m.apply({'params': p}, di, dt, enable_dropout=False))
  n = ck.pick(4, 5)
  for use_seg, use_pre in itertools.product((False, True), repeat=2):
    pads = alphabet((0, 1), n)
    pre = pads if use_pre else np.zeros((1, n), np.int32)
    seg = alphabet((1, 2), n) if use_seg else np.ones((1, n), np.int32)
    idx = np.stack(np.meshgrid(*map(np.arange, (len(pads), len(pre), len(seg))), indexing='ij'), -1).reshape(-1, 3)
    pd, pc, sd = pads[idx[:, 0]], pre[idx[:, 1]], seg[idx[:, 2]]
    sd = sd * pd
    rng = np.random.RandomState(3)
    tgt, inp = rng.randint(1, 5, pd.shape) * pd, rng.randint(0, 5, pd.shape)
    if use_seg and use_pre:
      run = lambda di, dt: np.asarray(apply(di, dt, sd, pc))
    elif use_seg:
      run = lambda di, dt: np.asarray(apply_s(di, dt, sd))
    elif use_pre:
      run = lambda di, dt: np.asarray(apply_c(di, dt, pc))
    else:
      run = lambda di, dt: np.asarray(apply_0(di, dt))
    D = (pd[:, :, None] * pd[:, None, :] > 0) & (sd[:, :, None] == sd[:, None, :])
    D = D & (np.tril(np.ones((n, n), bool)) | (pc[:, :, None] * pc[:, None, :] > 0))
    # two layers: two steps
    two = lambda m: np.einsum('bij,bjk->bik', m | np.eye(n, dtype=bool), m | np.eye(n, dtype=bool)) > 0
    must, may = two(D), two(D | ~D.any(-1, keepdims=True))
    real = pd > 0
    base = run(inp, tgt)
    desc = lambda i: dict(inputs=inp[i], targets=tgt[i], prefix=pc[i], segments=sd[i])
    for j in range(n):
      case = dict(network='decoder_only', packed=use_seg, prefix=use_pre, changed=j)
      ck.case(str(case), n=len(idx))
      d2 = inp.copy()
      d2[:, j] = (inp[:, j] + 1 + j % 3) % 5
      compare('token', case, base, run(d2, tgt), may[:, :, j] | ~real, must[:, :, j] & real, desc)
      t2 = tgt.copy()
      t2[:, j] = np.where(pd[:, j] > 0, tgt[:, j] % 4 + 1, 0)
      compare('target token', case, base, run(inp, t2), np.zeros_like(real), np.zeros_like(real), desc)
      ck.transition(2 * len(idx))

  ck.part('packing in decoder_only')
  shapes = [(a, b) for a in (0, 1, 2) for b in (1, 2)]  # prefix, rest
  L = 8
  packs = [p for k in (1, 2, 3) for p in itertools.product(shapes, repeat=k) if sum(map(sum, p)) <= L]
  rng = np.random.RandomState(4)
  rows, alone, where = [], [], []
  for p in packs:
    row, o = np.zeros((4, L), np.int32), 0
    for s, (a, b) in enumerate(p):
      m = a + b
      ex = np.zeros((3, L), np.int32)
      ex[1, :m] = rng.randint(1, 5, m)
      ex[0, 1:m] = ex[1, :m - 1]
      ex[2, :a] = 1
      row[:3, o:o + m], row[3, o:o + m] = ex[:, :m], s + 1
      alone.append(ex)
      where.append((len(rows), o, m))
      o += m
    rows.append(row)
  rows, alone = np.array(rows), np.array(alone)
  packed = np.asarray(apply(rows[:, 0], rows[:, 1], rows[:, 3], rows[:, 2]))
  single = np.asarray(apply_c(alone[:, 0], alone[:, 1], alone[:, 2]))
  for i, (r, o, m) in enumerate(where):
    ck.case(('pack', i))
    ck.expect(np.allclose(packed[r, o:o + m], single[i, :m], atol=TOL), 'a packed example differs from the example alone',
              dict(packed=packs[r], offset=o, length=m), single[i, :m], packed[r, o:o + m])
