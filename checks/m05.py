"""M05: cross entropy, z-loss, smoothing, weights and the custom gradient."""
import functools
import itertools

import numpy as np
import jax
import jax.numpy as jnp

LEVEL = 'exploration'
RULE = ('every logit row over a value grid x target x smoothing x penalty '
        'coefficient, value and gradient; every [batch, length] weight pattern '
        'over {0, .5, 1, 2}; distinct = different (row, target, coefficients)')
ASSUMPTIONS = ['targets are probability distributions; smoothing < 1; float32 '
               'rounding tolerance proportional to the largest |logit|']


def ref(logits, soft, z, const):
  """Definition in float64. Returns loss, zloss, dloss/dlogits, dloss/dsoft."""
  x = logits.astype(np.float64)
  m = x.max(-1, keepdims=True)
  lz = np.log(np.exp(x - m).sum(-1, keepdims=True)) + m
  logp = x - lz
  p = np.exp(logp)
  zl = z * lz[..., 0]**2
  loss = -(soft * logp).sum(-1) + zl - const
  g = p * soft.sum(-1, keepdims=True) - soft + 2 * z * lz * p
  return loss, zl, g, -logp


def smooth(targets, v, s):
  conf = 1.0 - s
  low = s if v == 1 else s / (v - 1)
  soft = np.full(targets.shape + (v,), low)
  np.put_along_axis(soft, targets[..., None], conf, -1)
  const = -(conf * np.log(conf) +
            (v - 1) * low * np.log(low + 1e-20))
  return soft, const


def check(ck):
  from t5x import losses

  grid = [-60.0, -1.0, 0.0, 0.5, 3.0, 80.0, 3000.0]
  for v in range(1, ck.pick(4, 5) + 1):
    ck.part(f'rows, {v} classes')
    g = grid if v <= 3 else ([-60.0, 0.0, 0.5, 80.0] if v == 4 else [-60., 0., 3.])
    rows = np.array(list(itertools.product(g, repeat=v)), np.float32)
    tol = 4e-6 * (1 + np.abs(rows).max(-1))
    for s, z in itertools.product([0.0, 0.1, 0.6], [0.0, 1e-4, 0.25]):
      if v == 1 and s:
        continue  # a one-class smoothed target is not a distribution

      def one(lg, t, w):
        out = losses.compute_weighted_cross_entropy(
            lg[None, None], t[None, None], w[None, None], label_smoothing=s,
            z_loss=z)
        return out

      def scal(lg, t, w):
        o = one(lg, t, w)
        return o[0], o[1:]

      val = jax.jit(jax.vmap(one))
      vg = jax.jit(jax.vmap(jax.value_and_grad(scal, has_aux=True)))
      for t in range(v):
        tt = np.full(len(rows), t, np.int32)
        soft, const = smooth(tt, v, s)
        eloss, ezl, eg, _ = ref(rows, soft, z, const)
        for w in (1.0, 0.0, 0.5):
          ww = np.full(len(rows), w, np.float32)
          loss, zl, ws = [np.asarray(a) for a in val(rows, tt, ww)]
          (loss2, (zl2, ws2)), gr = vg(rows, tt, ww)
          ztol = tol + 4e-6 * np.abs(ezl) + 1e-6
          ck.case((v, s, z, t, w), n=2 * len(rows),
                  sample=dict(logits=rows[len(rows) // 3], target=t, smoothing=s,
                              z_loss=z, weight=w))
          for name, got, exp, tl in [
              ('loss', loss, w * eloss, ztol), ('penalty', zl, w * ezl, ztol),
              ('weight sum', ws, ww, 1e-6 + 0 * tol),
              ('loss under differentiation', np.asarray(loss2), w * eloss, ztol),
              ('penalty under differentiation', np.asarray(zl2), w * ezl, ztol),
              ('weight sum under differentiation', np.asarray(ws2), ww, 1e-6 + 0 * tol)]:
            bad = ~(np.abs(got - exp) <= tl)
            if bad.any():
              i = int(np.argmax(bad))
              ck.violation(f'{name} differs from its definition',
                           dict(logits=rows[i], target=t, smoothing=s, z_loss=z,
                                weight=w), float(exp[i]), float(got[i]))
          gr = np.asarray(gr)
          gt = 1e-5 + 1e-5 * np.abs(eg) + 2e-6 * np.abs(2 * z * rows).max(-1)[:, None]
          if np.abs(rows).max() > 100:
            gt = gt + (np.abs(rows).max(-1) * 2e-7)[:, None]
          bad = ~(np.abs(gr - w * eg) <= gt).all(-1)
          if bad.any():
            i = int(np.argmax(bad))
            ck.violation('gradient is not the derivative of the loss',
                         dict(logits=rows[i], target=t, smoothing=s, z_loss=z,
                              weight=w), w * eg[i], gr[i])

  # ---- soft targets of cross_entropy_with_logits directly
  ck.part('soft targets')
  v = 3
  rows = np.array(list(itertools.product([-2.0, 0.0, 0.5, 30.0], repeat=v)), np.float32)
  dists = [np.array(d, np.float32) / 4 for d in itertools.product(range(5), repeat=v)
           if sum(d) == 4]
  for z in (0.0, 0.01, 0.5):
    f = jax.jit(jax.vmap(lambda l, t: losses.cross_entropy_with_logits(
        l[None, None], t[None, None], z)))
    df = jax.jit(jax.vmap(jax.grad(
        lambda l, t: losses.cross_entropy_with_logits(l[None, None], t[None, None], z)[0].sum(),
        argnums=(0, 1))))
    # A cotangent that differs per position must be applied per position.
    cot = jax.jit(jax.vmap(jax.grad(
        lambda l, t: (losses.cross_entropy_with_logits(
            jnp.stack([l, l[::-1]])[None], jnp.stack([t, t])[None], z)[0]
            * jnp.asarray([[3.0, -2.0]])).sum())))
    cot_t = jax.jit(jax.vmap(jax.grad(
        lambda l, t: (losses.cross_entropy_with_logits(
            jnp.stack([l, l[::-1]])[None], jnp.stack([t, t])[None], z)[0]
            * jnp.asarray([[3.0, -2.0]])).sum(), argnums=1)))
    for dt in (jnp.bfloat16, jnp.float32):
      gs = jax.grad(lambda l, t: losses.cross_entropy_with_logits(l, t, z)[0].sum().astype(jnp.float32), argnums=(0, 1))
      ok, g = ck.guarded('gradient in a narrow type', lambda: gs(
          jnp.asarray(rows[:4], dt), jnp.asarray(np.broadcast_to(dists[1], (4, 3)), dt)), dict(dtype=str(dt), z_loss=z))
      ck.expect(not ok or (g[0].dtype == dt and g[1].dtype == dt), 'gradient type differs from the type of the operand',
                dict(dtype=str(dt)), dt, ok and (g[0].dtype, g[1].dtype))
    for d in dists:
      tt = np.broadcast_to(d, rows.shape)
      el, ez, eg, et = ref(rows, tt.astype(np.float64), z, 0.0)
      l, zl = [np.asarray(a)[:, 0, 0] for a in f(rows, tt)]
      gl, gt = [np.asarray(a) for a in df(rows, tt)]
      ck.case((z, tuple(d)), n=3 * len(rows),
              sample=dict(logits=rows[5], dist=d, z_loss=z))
      er = ref(rows[:, ::-1], tt.astype(np.float64), z, 0.0)[2][:, ::-1]
      ert = ref(rows[:, ::-1], tt.astype(np.float64), z, 0.0)[3]
      for name, got, exp in [('loss', l, el), ('penalty', zl, ez),
                             ('gradient in the logits', gl, eg),
                             ('gradient in the targets', gt, et),
                             ('gradient with per-position cotangents',
                              np.asarray(cot(rows, tt)), 3 * eg - 2 * er),
                             ('target gradient with per-position cotangents',
                              np.asarray(cot_t(rows, tt)), 3 * et - 2 * ert)]:
        bad = ~(np.abs(got - exp) <= 1e-4 + 1e-5 * np.abs(exp))
        if bad.any():
          i = int(np.argmax(bad.reshape(len(rows), -1).any(-1)))
          ck.violation(f'{name} differs from its definition (soft targets)',
                       dict(logits=rows[i], dist=d, z_loss=z), exp[i], got[i])

  # ---- batches: additivity, weights, normalizing factor, shapes
  ck.part('batches')
  fns = {}
  rng_rows = np.array(list(itertools.product([-1.0, 0.0, 2.0], repeat=3)), np.float32)
  for shape in [(1,), (3,), (1, 1), (1, 3), (2, 2), (2, 1, 2)]:
    n = int(np.prod(shape))
    lg = rng_rows[(np.arange(n) * 5) % len(rng_rows)].reshape(shape + (3,))
    for t in itertools.product(range(3), repeat=min(n, 3)):
      tt = np.array([t[i % len(t)] for i in range(n)], np.int32).reshape(shape)
      ws = itertools.product([0.0, 0.5, 1.0, 2.0], repeat=n) if n <= 3 or t == (0, 1, 2) else [
          (0., 1., .5, 2.), (1., 1., 0., 0.)]
      for w in list(ws) + [None]:
        for lnf in (None, 4.0, 0.5):
          for s, z in ((0.0, 0.0), (0.1, 0.3)):
            soft, const = smooth(tt, 3, s)
            el, ez, _, _ = ref(lg, soft, z, const)
            wa = np.ones(shape) if w is None else np.array(w[:n]).reshape(shape)
            k = 1.0 if lnf is None else lnf
            exp = ((el * wa).sum() / k, (ez * wa).sum() / k, wa.sum())
            wj = None if w is None else wa.astype(np.float32)
            fk = (s, z, lnf)
            if fk not in fns:
              fns[fk] = jax.jit(functools.partial(
                  losses.compute_weighted_cross_entropy, label_smoothing=s,
                  z_loss=z, loss_normalizing_factor=lnf))
            got = fns[fk](lg, tt, wj)
            got = tuple(float(x) for x in got)
            ck.case((shape, t, w, lnf, s))
            if not np.allclose(got, exp, rtol=1e-5, atol=1e-5):
              ck.violation('batch loss is not the weighted sum of its positions',
                           dict(shape=shape, targets=tt, weights=w, lnf=lnf,
                                smoothing=s, z_loss=z), exp, got)
  for ls, ts in [((2, 3), (2, 3)), ((2, 3, 4), (2,)), ((3,), (2, 3))]:
    ck.expect_raises('mismatched ranks',
                     lambda: losses.compute_weighted_cross_entropy(
                         jnp.zeros(ls), jnp.zeros(ts, jnp.int32)),
                     dict(logits=ls, targets=ts), ValueError)
