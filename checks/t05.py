"""T05: learning-rate schedules against a double-precision reading of their documentation."""
import itertools
import math

import numpy as np

TECHNIQUE = 'enum'
LEVEL = 'exploration'
RULE = ('every sequence of factors up to length three (four) x a grid of hyperparameters x every step of a range '
        'covering each boundary; distinct = (factors, hyperparameters)')
ASSUMPTIONS = ['warmup_steps, steps_per_decay and steps_per_cycle are positive']

FACTORS = ('constant', 'linear_warmup', 'linear_decay', 'rsqrt_decay', 'rsqrt_normalized_decay', 'decay_every',
           'cosine_decay')


def reference(names, steps, base, warm, decay, per_decay, per_cycle, offset, low):
  s = np.maximum(0, steps - offset).astype(np.float64)
  r = np.ones(len(steps))
  for n in names:
    if n == 'constant':
      r = r * base
    elif n == 'linear_warmup':
      r = r * np.minimum(1, s / warm)
    elif n == 'linear_decay':
      r = r * base * np.minimum(s / warm, 1 + decay * (warm - s))
    elif n == 'rsqrt_decay':
      r = r / np.sqrt(np.maximum(s, warm))
    elif n == 'rsqrt_normalized_decay':
      r = r / np.sqrt(np.maximum(s / warm, 1))
    elif n == 'decay_every':
      r = r * decay ** (s // per_decay)
    else:
      p = np.maximum(0, (s - warm)) % per_cycle / per_cycle
      r = r * np.maximum(0, .5 * (1 + np.cos(math.pi * p)))
  return np.maximum(r, low)


def check(ck):
  import jax
  import jax.numpy as jnp
  from t5x import utils

  grids = [
      dict(base=0.5, warm=4, decay=0.5, per_decay=5, per_cycle=7, offset=0, low=1e-8),
      dict(base=1.0, warm=1, decay=0.1, per_decay=1, per_cycle=3, offset=0, low=0.0),
      dict(base=0.01, warm=10, decay=0.9, per_decay=3, per_cycle=16, offset=6, low=1e-3),
      dict(base=2.0, warm=7, decay=0.02, per_decay=8, per_cycle=5, offset=3, low=1e-8),
      dict(base=3.0, warm=3, decay=1.5, per_decay=4, per_cycle=1, offset=1, low=0.25),
  ]
  if ck.thorough:
    grids += [dict(base=b, warm=w, decay=d, per_decay=p, per_cycle=c, offset=o, low=l)
              for b, w, d, p, c, o, l in itertools.product((0.5, 1.), (2, 9), (0.5, 0.03), (2, 11), (4, 13), (0, 8),
                                                           (1e-8, 0.1))]
  steps = np.arange(ck.pick(48, 72))

  def sched(names, g, sep=' * '):
    return utils.create_learning_rate_scheduler(
        sep.join(names), base_learning_rate=g['base'], warmup_steps=g['warm'], decay_factor=g['decay'],
        steps_per_decay=g['per_decay'], steps_per_cycle=g['per_cycle'], step_offset=g['offset'],
        min_learning_rate=g['low'])

  def compare(names, g, got, what, at=steps, tol=2e-5):
    want = reference(names, at, **g)
    case = dict(factors=' * '.join(names), **g)
    ck.expect(np.all(np.isfinite(got)), 'not finite', case, None, got)
    bad = np.nonzero(~np.isclose(got, want, rtol=tol, atol=3e-7 * g['base']))[0]
    ck.expect(not len(bad), what, dict(case, step=int(at[bad[0]]) if len(bad) else None), want[bad[:1]], got[bad[:1]])
    ck.expect(np.all(got >= np.float32(g['low'])), 'below the minimum', case, g['low'], got.min())

  ck.part('factor sequences')
  for g in grids:
    for n in range(1, (4 if g in grids[:2] else 3) if ck.thorough else 4):
      if n == 3 and not ck.thorough and g not in grids[:3]:
        continue
      for names in itertools.product(FACTORS, repeat=n):
        case = dict(factors=' * '.join(names), **g)
        ck.case((names, tuple(g.values())), n=len(steps), sample=case if n == 3 and names[0] != names[1] and
                names[2] == 'cosine_decay' and names[0] == 'decay_every' else None)
        fn = sched(names, g)
        ok, got = ck.guarded('evaluating', lambda: np.asarray(jax.vmap(fn)(jnp.asarray(steps, jnp.int32))), case)
        if ok:
          ck.expect(got.dtype == np.float32, 'dtype', case, 'float32', got.dtype)
          compare(names, g, got, 'schedule value')

  ck.part('calling conventions')
  for g in grids[:4]:
    for names in list(itertools.product(FACTORS, repeat=1)) + [FACTORS[:2] + (f,) for f in FACTORS[3:]]:
      for sep in ('*', ' *', '  *  '):
        fn = sched(names, g, sep)
        jitted = jax.jit(fn)
        ck.case((names, sep, tuple(g.values())), n=24)
        for kind, call in (('int', lambda s: fn(s)), ('jit', lambda s: jitted(jnp.int32(s))),
                           ('int32', lambda s: fn(jnp.asarray(s, jnp.int32))), ('numpy', lambda s: fn(np.int64(s)))):
          if sep != '*' and kind != 'jit':
            continue
          at = np.arange(0, 24, 1 if kind == 'jit' else 3)
          ok, got = ck.guarded('evaluating', lambda: np.array([np.asarray(call(int(s))) for s in at]), names)
          if ok:
            ck.expect(got.shape == at.shape, 'not a scalar', names, at.shape, got.shape)
            compare(names, g, got, 'schedule value (%s)' % kind, at)

  ck.part('late steps')
  far = np.array([10 ** 5, 10 ** 6 + 1, 3 * 10 ** 6])
  g = dict(base=1.0, warm=10000, decay=0.5, per_decay=500000, per_cycle=10 ** 6, offset=0, low=1e-8)
  for n in (1, 2):
    for names in itertools.product(FACTORS, repeat=n):
      ck.case(('far', names), n=3)
      compare(names, g, np.asarray(jax.vmap(sched(names, g))(jnp.asarray(far, jnp.int32))), 'late value', far, 1e-4)

  ck.part('hand-over at the end of the warm-up')
  for warm in range(1, ck.pick(12, 40)):
    for g in grids[:3]:
      g = dict(g, warm=warm, offset=0)
      for names in (('constant', 'linear_warmup', 'rsqrt_normalized_decay'), ('constant', 'linear_warmup', 'cosine_decay'),
                    ('linear_decay',), ('constant', 'linear_warmup')):
        case = dict(factors=names, **g)
        ck.case(('hand-over', warm, names, g['base']))
        got = float(sched(names, g)(jnp.int32(warm)))
        ck.expect(abs(got - max(g['base'], g['low'])) <= 1e-5 * g['base'], 'value when the warm-up ends', case,
                  g['base'], got)

  ck.part('unknown factors')
  for bad in ('', 'rsqrt', 'constant linear_warmup', 'Constant', 'cosine', 'linear-warmup'):
    for pre, post in itertools.product(((), ('constant',), ('constant', 'linear_warmup')), repeat=2):
      names = pre + (bad,) + post
      ck.case(('unknown', names))
      ck.expect_raises('an unknown factor', lambda: sched(names, grids[0])(jnp.int32(3)), names, ValueError)
