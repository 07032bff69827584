"""P05: expert gradients, names, auxiliary losses and upcycling."""
import copy
import itertools
import re
import shutil
import tempfile

import numpy as np

import lib_ckpt as lc
import lib_mesh as lm

TECHNIQUE = 'enum'
LEVEL = 'exploration'
MANUAL_GC = True  # trainers close threads when collected
N_DEVICES = 8
RULE = ('every parameter tree of bounded size over a small set of names, in every order of insertion and container, with '
        'every pattern; every layout of sown metrics over a few layers; every division of a batch into microbatches with '
        'every expert factor through the real trainer; every expert mesh of eight devices and expert count for upcycling; '
        'distinct = (tree, pattern) or configuration')
ASSUMPTIONS = ['parameter trees are nested dictionaries with text keys', 'expert parameters are those with "expert/" in the name '
               'when upcycling (as documented)']


def check(ck):
  import jax
  import jax.numpy as jnp
  import flax
  import flax.linen as nn
  from flax.core import freeze, unfreeze
  from flax.linen import partitioning as fp
  import seqio
  from jax.sharding import NamedSharding, PartitionSpec as P
  from t5x import checkpoints, losses, models, optimizers, partitioning, state_utils
  from t5x import train_state as ts
  from t5x import trainer as tl
  from t5x.contrib.moe import checkpoints as mc
  from t5x.contrib.moe import models as mm
  from t5x.contrib.moe import partitioning as moe
  from t5x.contrib.moe import trainer as mt
  from t5x.contrib.moe import training_utils as tu

  # ---- patterns
  ck.part('patterns')
  alphabet = ['', 'a', 'b', 'expert', 'experts', 'mlp', 'expert_mlp', 'xexpert']
  names = sorted({'/'.join(x for x in c if x) for n in (1, 2, 3) for c in itertools.product(alphabet, repeat=n)})
  # pattern -> meaning, spelled out
  patterns = {None: lambda s: False, '': lambda s: False, 'expert': lambda s: s.startswith('expert'),
              '.*expert.*': lambda s: 'expert' in s, '.*/expert': lambda s: '/expert' in s, 'a|b': lambda s: s[:1] in ('a', 'b') and bool(s),
              'a/.*mlp': lambda s: s.startswith('a/') and 'mlp' in s[2:], '.*expert/.*': lambda s: 'expert/' in s,
              'expert$': lambda s: s == 'expert', '(a|mlp)/expert': lambda s: s.startswith(('a/expert', 'mlp/expert')),
              '.': lambda s: bool(s), '[^e]': lambda s: bool(s) and s[0] != 'e'}
  for p, meaning in patterns.items():
    f = tu.match_fn(p)
    for s in names:
      ck.case((p, s))
      got = f(s)
      ck.expect(isinstance(got, bool) and got == meaning(s), 'pattern', dict(pattern=p, name=s), meaning(s), got)

  # ---- named trees
  def trees(keys, depth):
    """Trees as nested tuples of (key, subtree or None for a leaf)."""
    subs = [None] if depth == 1 else [None] + list(trees(keys, depth - 1))
    for n in (1, 2):
      for ks in itertools.permutations(keys, n):  # insertion order counts
        for sub in itertools.product(subs, repeat=n):
          yield tuple(zip(ks, sub))

  def leaves(t, prefix=()):
    return [prefix + (k,) if s is None else x for k, s in t for x in ([None] if s is None else leaves(s, prefix + (k,)))]

  def make(t, values, prefix=()):
    return {k: values[prefix + (k,)] if s is None else make(s, values, prefix + (k,)) for k, s in t}

  def get(tree, path):
    for k in path:
      tree = tree[k]
    return tree

  @flax.struct.dataclass
  class Holder:
    second: object
    first: object

  kinds = {'dict': lambda d: d, 'frozen': freeze, 'dataclass': lambda d: Holder(second=d, first={'expert': d})}
  ck.part('named trees')
  every = [t for ks in (('a', 'expert', 'a-b'), ('b', 'expert_0', 'a')) for t in trees(ks, 2)]
  if ck.thorough:
    every += [t for t in trees(('a', 'expert'), 3)]
  else:
    every += list(trees(('a', 'expert'), 3))[::3]
  for t in every:
    ps = leaves(t)
    for kind, wrap in kinds.items():
      for none in ((None, 0) if len(ps) > 1 and kind != 'dataclass' else (None,)):
        vals = {p: np.float32(2**(i + 1)) for i, p in enumerate(ps)}
        if none is not None:
          vals[ps[none]] = None
        tree = wrap(make(t, vals))
        full = ({p: p for p in ps} if kind != 'dataclass' else
                {**{('second',) + p: p for p in ps}, **{('first', 'expert') + p: p for p in ps}})
        walk = (lambda tr: tr) if kind != 'dataclass' else (lambda tr: {'second': tr.second, 'first': tr.first})
        for pat in ('.*expert.*', 'expert', '.*expert/.*', None):
          match = tu.match_fn(pat)
          means = patterns[pat]
          case = dict(tree=t, kind=kind, none=none, pattern=pat)
          ck.case(str(case))
          seen = []

          def f(v):
            seen.append(v)
            return ('f', v)
          ok, got = ck.guarded('mapping with names', lambda: tu.tree_map_with_names(f, tree, match), case)
          if ok:
            want = {p: (('f', vals[q]) if means('/'.join(p)) else vals[q]) for p, q in full.items()}
            have = {p: get(walk(got), p) for p in full}
            ck.expect(type(got) is type(tree) and want == have and len(seen) == sum(means('/'.join(p)) for p in full),
                      'mapping with names', case, {'/'.join(k): str(v) for k, v in want.items()}, {'/'.join(k): str(v) for k, v in have.items()})
          if none is not None and means('/'.join(ps[none])):
            continue
          ok, got = ck.guarded('scaling', lambda: tu.scale_sharded_grads(tree, match if pat else None, 3.0), case)
          if ok:
            want = {p: vals[q] * 3 if vals[q] is not None and pat and means('/'.join(p)) else vals[q] for p, q in full.items()}
            have = {p: get(walk(got), p) for p in full}
            ck.expect(type(got) is type(tree) and want == have and jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(tree),
                      'scaling of gradients', case, {'/'.join(k): v for k, v in want.items()}, {'/'.join(k): v for k, v in have.items()})
        if none is None:
          got = tu.tree_map_with_names(lambda v: v + 1, tree)
          ck.expect(all(get(walk(got), p) == vals[q] + 1 for p, q in full.items()), 'mapping every leaf', dict(tree=t, kind=kind))

  # ---- nodes that are dataclasses: fields in every order
  ck.part('dataclass nodes')
  for fields in itertools.chain(*(itertools.permutations(('a', 'b', 'c', 'd'), k) for k in ck.pick((1, 2, 3, 4), (1, 2, 3, 4)))):
    for inner in (False, True):
      cls = flax.struct.dataclass(type('Node', (), dict(__annotations__={f: object for f in fields}, __module__=__name__)))
      node = cls(**{f: i + 1.0 for i, f in enumerate(sorted(fields))})
      tree = dict(x=node, w=9.0) if inner else node
      for hit in fields:
        case = dict(fields=fields, nested=inner, selected=hit)
        ck.case(str(case), sample=case)
        match = tu.match_fn(('x/' if inner else '') + hit + '$')
        for what, fn in (('mapping with names', lambda: tu.tree_map_with_names(lambda v: v * 3, tree, match)),
                         ('scaling of gradients', lambda: tu.scale_sharded_grads(tree, match, 3.0))):
          ok, got = ck.guarded(what, fn, case)
          if ok:
            n = got['x'] if inner else got
            have = {f: getattr(n, f) for f in fields}
            want = {f: (i + 1.0) * (3 if f == hit else 1) for i, f in enumerate(sorted(fields))}
            ck.expect(type(n) is cls and have == want and (not inner or got['w'] == 9.0), what + ' in a dataclass', case, want, have)

  # ---- auxiliary losses
  ck.part('auxiliary losses')
  V, L = 5, 3
  voc = seqio.PassThroughVocabulary(V, 1)

  class Sower(nn.Module):
    """Sows the metrics given by the configuration; logits from one table."""
    layout: tuple  # per layer: (path, number of stacked values)
    missing: str = ''

    def everything(self, tokens):
      w = self.param('w', nn.initializers.normal(), (V, V))
      q = self.param('q', nn.initializers.ones, ())
      for i, (n, stacked) in enumerate(self.layout):
        Layer(i, n, stacked, self.missing, name=f'layer_{i}')(q)
      return w[tokens]

    @nn.compact
    def __call__(self, encoder_input_tokens=None, decoder_input_tokens=None, decoder_target_tokens=None, **kw):
      passed.append((kw, self.has_rng('dropout')))
      return self.everything(decoder_input_tokens)

  class SowerOnly(Sower):

    @nn.compact
    def __call__(self, decoder_input_tokens, decoder_target_tokens, **kw):
      passed.append((kw, self.has_rng('dropout')))
      return self.everything(decoder_input_tokens)

  passed = []

  def sown(i, k, j):
    """Value j of metric k sown by layer i."""
    return 0.25 * (1 + i) + 0.5 * k + 0.125 * j * j + 0.01 * i * k

  METRICS = ('auxiliary_loss', 'router_z_loss', 'fraction_tokens_left_behind', 'expert_usage', 'router_confidence')

  class Layer(nn.Module):
    index: int
    times: int
    stacked: int
    missing: str

    @nn.compact
    def __call__(self, q):
      for k, m in enumerate(METRICS):
        if m == self.missing:
          continue
        for t in range(self.times):
          x = [sown(self.index, k, t * 7 + j) for j in range(self.stacked or 1)]
          self.sow('intermediates', m, q * (jnp.array(x) if self.stacked else x[0]))
      self.sow('intermediates', 'something_else', q * 100)
      return q

  layer_kinds = [(1, 0), (1, 2), (2, 0), (1, 3)]
  layouts = [c for n in (1, 2, 3) for c in itertools.product(layer_kinds, repeat=n)
             if len({s for _, s in c}) == 1 and len({t for t, _ in c}) == 1 or n == 1] + [((1, 0), (1, 0), (1, 0), (1, 0))]
  tg = np.array(list(itertools.product(range(3), repeat=L)), np.int32)
  base_batch = dict(decoder_target_tokens=tg, decoder_input_tokens=np.roll(tg, 1, 1), decoder_loss_weights=(tg > 0).astype(np.float32),
                    encoder_input_tokens=tg)
  for cls, net, make_model in (
      ('encoder-decoder', Sower, lambda m, **kw: mm.MoeEncoderDecoderModel(m, voc, voc, None, **kw)),
      ('decoder-only', SowerOnly, lambda m, **kw: mm.MoeDecoderOnlyModel(m, voc, None, **kw))):
    for layout in layouts:
      mod = net(layout=layout)
      w = np.sin(np.arange(V * V)).reshape(V, V).astype(np.float32)
      params = {'w': w, 'q': np.float32(1.5)}
      means = [np.mean([[1.5 * sown(i, k, t * 7 + j) for t in range(n) for j in range(s or 1)] for i, (n, s) in enumerate(layout)])
               for k in range(5)]
      for aux, rz, (ls, z, norm) in itertools.product((0.0, 2.0), (0.0, 0.5), [(0.0, 0.0, None), (0.1, 1e-2, 4.0)] + (
          [(0.0, 1e-2, None), (0.1, 0.0, 4.0)] if ck.thorough else [])):
        case = dict(model=cls, layers=layout, aux=aux, router_z=rz, smoothing=ls, z_loss=z, norm=norm)
        ck.case(str(case))
        model = make_model(mod, aux_loss_factor=aux, router_z_loss_factor=rz, label_smoothing=ls, z_loss=z, loss_normalizing_factor=norm)
        fn = jax.value_and_grad(lambda p: model.loss_fn(p, base_batch, None), has_aux=True)
        ok, res = ck.guarded('loss', lambda: fn(params), case)
        if not ok:
          continue
        (loss, metrics), grad = res
        norm_, weights = losses.get_loss_normalizing_factor_and_weights(norm, base_batch)
        ce = lambda p: losses.compute_weighted_cross_entropy(p[base_batch['decoder_input_tokens']], tg, weights, ls, z, norm_)
        total, zl, _ = ce(jnp.asarray(w))
        want = {'loss': float(total) + aux * means[0] + rz * means[1], 'aux': aux * means[0], 'router_z': rz * means[1],
                'left': means[2], 'usage': means[3], 'confidence': means[4], 'z': float(zl), 'cross': float(total) - float(zl),
                'cross/token': (float(total) - float(zl)) / tg.size, 'accuracy': float(
                    ((w[base_batch['decoder_input_tokens']].argmax(-1) == tg) * (tg > 0)).sum() / (tg > 0).sum()),
                'gradient of the sown values': (aux * means[0] + rz * means[1]) / 1.5, 'returned': float(total) + aux * means[0] + rz * means[1]}

        def per_step(m):
          return float(m.total) / float(1 if m.steps is None else m.steps)
        got = dict(zip(('loss', 'aux', 'router_z', 'left', 'usage', 'confidence', 'z', 'cross'), (per_step(metrics[k]) for k in (
            'loss', 'experts/auxiliary_loss', 'experts/router_z_loss', 'experts/fraction_tokens_left_behind', 'experts/expert_usage',
            'experts/router_confidence', 'z_loss', 'cross_ent_loss'))))
        got.update({'cross/token': float(metrics['cross_ent_loss_per_all_target_tokens'].compute()), 'accuracy': float(metrics['accuracy'].compute()),
                    'gradient of the sown values': float(grad['q']), 'returned': float(loss)})
        bad = [k for k in want if abs(want[k] - got[k]) > 1e-4 * max(1, abs(want[k]))]
        ck.expect(not bad, f'losses and metrics: {bad}', case, want, got)
        gw = jax.grad(lambda p: ce(p)[0])(jnp.asarray(w))
        ck.expect(np.allclose(gw, grad['w'], atol=1e-5), 'gradient of the weights', case)
    # dropout and packing features reach the network as they do for the plain model
    feats = ['decoder_segment_ids', 'decoder_positions'] + (['encoder_segment_ids', 'encoder_positions'] if cls == 'encoder-decoder' else [])
    for r, key in itertools.product(range(len(feats) + 1), (None, 3)):
      for sub in itertools.combinations(feats, r):
        case = dict(model=cls, features=sub, dropout=key is not None)
        ck.case(str(case))
        b = dict(base_batch, **{f: tg * 0 + 1 + feats.index(f) for f in sub})
        passed = []
        if not ck.guarded('loss', lambda: make_model(net(layout=((1, 0),))).loss_fn(params, b, None if key is None else jax.random.PRNGKey(key)), case)[0]:
          continue
        kw, has = passed[-1]
        bad = [f for f in feats if (f in sub) != (kw.get(f) is not None) or f in sub and not np.array_equal(kw[f], b[f])]
        ck.expect(not bad and kw.get('enable_dropout') == has == (key is not None), 'features or dropout given to the network', case,
                  None, (bad, kw.get('enable_dropout'), has))
    # metrics which are not sown
    for m in METRICS:
      ck.case(('missing', cls, m))
      ck.expect_raises('a metric is never sown', lambda: make_model(net(layout=((1, 0),), missing=m)).loss_fn(params, base_batch, None),
                       dict(model=cls, missing=m), ValueError)

  # what the decoding function is given
  ck.part('prediction')

  class Cached(nn.Module):

    @nn.compact
    def __call__(self, *a, decode=False, prefill=False, prefill_lengths=None, **kw):
      tokens = (kw.get('decoder_input_tokens') if 'decoder_input_tokens' in kw else a[0])
      n = self.variable('cache', 'cache_index', lambda: jnp.zeros((), jnp.int32))
      n.value = prefill_lengths if prefill else n.value + 1
      return jnp.zeros(tokens.shape + (V,))

    def encode(self, tokens, *a, **kw):
      return jnp.zeros(tokens.shape + (2,))

    def decode(self, encoded, enc, dec, *a, **kw):
      return self(dec, **kw)

  seen = []

  def recorder(inputs=None, cache=None, tokens_to_logits=None, num_decodes=None, **kw):
    seen.append(dict(kw, num_decodes=num_decodes, inputs=np.asarray(inputs)))
    return jnp.zeros((inputs.shape[0], num_decodes, inputs.shape[1]), jnp.int32) + jnp.arange(num_decodes)[None, :, None], jnp.zeros(
        (inputs.shape[0], num_decodes)) + jnp.arange(num_decodes, dtype=jnp.float32)

  b = dict(encoder_input_tokens=np.array([[2, 3]]), decoder_input_tokens=np.array([[0, 2, 1]]), decoder_causal_attention=np.array([[1, 0, 0]]))
  for key, opts, alld, nd, prompt in itertools.product((None, 5), (None, dict(alpha=0.5), dict(eos_id=3)), (False, True), (1, 3), (False, True)):
    case = dict(key=key, options=opts, all=alld, num_decodes=nd, prompted=prompt)
    rng = None if key is None else jax.random.PRNGKey(key)
    pairs = []
    for moe_cls, plain_cls, args in ((mm.MoeEncoderDecoderModel, models.EncoderDecoderModel, (voc, voc, None)),
                                     (mm.MoeDecoderOnlyModel, models.DecoderOnlyModel, (voc, None))):
      if plain_cls is models.DecoderOnlyModel and prompt:
        continue
      ck.case((plain_cls.__name__, str(case)))
      res = []
      for c in (plain_cls, moe_cls):
        kw = dict(return_all_decodes=alld, num_decodes=nd, decoder_params=copy.copy(opts), rng=rng)
        if plain_cls is models.EncoderDecoderModel:
          kw['prompt_with_targets'] = prompt
        ok, out = ck.guarded('predicting', lambda: c(Cached(), *args, decode_fn=recorder).predict_batch_with_aux({}, b, **kw), case)
        if not ok:
          break
        res.append((np.asarray(out[0]), np.asarray(out[1]['scores']), {k: np.asarray(v).tolist() for k, v in seen[-1].items()
                                                                      if k in ('inputs', 'num_decodes', 'alpha', 'eos_id', 'decode_rng')}))
      if len(res) == 2:
        ck.expect(np.array_equal(res[0][0], res[1][0]) and np.array_equal(res[0][1], res[1][1]) and res[0][2] == res[1][2],
                  'prediction differs from the plain model', case, res[0], res[1])

  # ---- the training step
  ck.part('training step')

  class Linear(models.BaseModel):
    """Loss whose gradient is the batch sum, times a constant per parameter."""

    def __init__(self):
      super().__init__(None)

    def loss_fn(self, params, batch, dropout_rng):
      t = sum((i + 1) * jnp.sum(p * jnp.sum(batch['x'])) for i, p in enumerate(jax.tree_util.tree_leaves(params)))
      return t, {'loss': tl.metrics_lib.AveragePerStep(total=t)}

    eval_fn = None
    predict_batch_with_aux = None
    score_batch = None

    def get_initial_variables(self, *a, **k):
      pass

  Linear.__abstractmethods__ = frozenset()

  class Mesh3(moe.MoePjitPartitioner):

    def __init__(self, shape, **kw):
      n = int(np.prod(shape))
      self._mesh3 = jax.sharding.Mesh(np.array(jax.devices()[:n]).reshape(shape), ('data', 'expert', 'model'))
      super().__init__(num_expert_partitions=shape[1], num_partitions=1, **kw)

    mesh = property(lambda self: self._mesh3)

  trees_ = [{'expert': {'wi': (4, 2)}, 'attention': {'expert_q': (2,), 'k': (2, 2)}}, {'mlp': {'wi': (2,)}, 'router': {'w': (2,)}},
            {'experts': (2,), 'z': (2,), 'a': {'b': {'expert': (2,), 'c': ()}}}]
  x = np.array([1., -2., 3., 0.5, 4., -1., 2., 0.25], np.float32)[:, None]
  for tree in trees_:
    flat = flax.traverse_util.flatten_dict(tree)
    params = flax.traverse_util.unflatten_dict({k: np.full(s, 1. + i, np.float32) for i, (k, s) in enumerate(flat.items())})
    axes = flax.traverse_util.unflatten_dict({k[:-1] + (k[-1] + '_axes',): fp.AxisMetadata(names=('embed', 'mlp')[:len(s)]) for k, s in flat.items()})
    state = ts.FlaxOptimTrainState.create(optimizers.sgd(0.1), freeze({'params': params, 'params_axes': axes}))
    order = {k: i for i, k in enumerate(sorted(flat))}
    for shape in ((1, 1, 1), (2, 2, 2), (1, 4, 1)):
      part = Mesh3(shape)
      for micro, factor, pat, default in itertools.product((None, 1, 2, 4), (1, 2, 8), ('.*expert.*', 'expert', None), (True, False)):
        if default and pat != '.*expert.*' or not ck.thorough and (shape != (2, 2, 2) and (micro == 1 or factor == 8) or shape == (1, 1, 1) and pat):
          continue
        case = dict(tree=tree, mesh=shape, microbatches=micro, factor=factor, pattern=pat, default=default)
        ck.case(str(case))
        kw = {} if default else dict(sharded_match_fn=tu.match_fn(pat) if pat else None)

        def run():
          t = mt.MoeTrainer(model=Linear(), train_state=part.move_params_to_devices(state, part.get_mesh_axes(state)), partitioner=part,
                            eval_names=[], summary_dir=None, train_state_axes=part.get_mesh_axes(state), rng=jax.random.PRNGKey(0),
                            learning_rate_fn=lambda s: 0.5 + s, num_microbatches=micro, num_expert_partitions=factor, **kw)
          t.train(iter([{'x': x}, {'x': 2 * x}]), 2)
          out = t.train_state
          t.close()
          return out
        ok, new = ck.guarded('training', run, case)
        if not ok:
          continue
        got = flax.traverse_util.flatten_dict(unfreeze(new.params))
        for i, (k, s) in enumerate(flat.items()):
          g = (order[k] + 1) * float(x.sum()) * (factor if patterns[pat]('/'.join(k)) else 1)
          want = np.full(s, 1. + i - 0.1 * g - 0.1 * 2 * g, np.float32)
          ck.expect(np.allclose(want, got[k], rtol=1e-5), 'a parameter after training', dict(case, parameter='/'.join(k)), want, got[k])
        ck.expect(int(new.step) == 2, 'step after training', case, 2, int(new.step))

  # ---- upcycling
  ck.part('upcycling')
  d = tempfile.mkdtemp()
  try:
    sgd = optimizers.sgd(0.1)

    def state_of(params, states, step=7):
      return ts.FlaxOptimTrainState(optimizers.Optimizer(sgd, state=optimizers.OptimizerState(
          step=jnp.array(step, jnp.int32), param_states=states), target=params))
    val = lambda s, o: (np.arange(int(np.prod(s)), dtype=np.float32) + o).reshape(s)
    dense_p = {'mlp': {'wi': val((4, 8), 1), 'wo': val((8, 4), 50)}, 'attention': {'q': val((4, 4), 100)}, 'expert_norm': {'scale': val((4,), 200)}}
    dense_s = {'mlp': {'wi': {'v_row': val((4,), 300), 'v': val((1,), 310), 'm': val((1,), 320)}, 'wo': {'v_row': val((8,), 330), 'v': val((1,), 340), 'm': val((1,), 350)}},
               'attention': {'q': {'v_row': val((4,), 360)}}, 'expert_norm': {'scale': {'v': val((4,), 370)}}}

    class Fixed(Mesh3):
      axes = None

      def get_mesh_axes(self, train_state):
        return self.axes

    def axes_like(st, f):
      return jax.tree_util.tree_map_with_path(lambda p, x: f(p, x), st)
    one = Fixed((1, 1, 1))
    dense = state_of(dense_p, dense_s)
    for sd in (np.float32, jnp.bfloat16):
      one.axes = jax.tree_util.tree_map(lambda v: P(*([None] * np.ndim(v))), dense)
      sub = f'{d}/{np.dtype(sd).name}'
      ck.guarded('saving the dense checkpoint', lambda: checkpoints.Checkpointer(dense, one, sub, save_dtype=sd).save(dense), 'dense')
      for shape in [s for n in ((1, 2, 4, 8) if ck.thorough else (1, 4, 8)) for s in lm.factorizations(n, 3)]:
        for E in (1, 2, 4, 8):
          if E % shape[1] or not ck.thorough and sd != np.float32 and (shape != (2, 2, 2) or E > 4):
            continue
          for lazy, rd in ((False, None), (True, None), (False, jnp.bfloat16)):
            if not ck.thorough and (lazy or rd is not None) and shape[0] * shape[2] > 2:
              continue
            case = dict(mesh=shape, experts=E, saved=np.dtype(sd).name, restored=str(rd), lazy=lazy)
            ck.case(str(case))
            up = lambda v: np.repeat(np.asarray(v)[None], E, 0)
            sp = {'expert': jax.tree_util.tree_map(up, dense_p['mlp']), 'attention': dense_p['attention'], 'expert_norm': dense_p['expert_norm']}
            ss = {'expert': {k: {n: up(v) if n == 'v_row' else v for n, v in x.items()} for k, x in dense_s['mlp'].items()},
                  'attention': dense_s['attention'], 'expert_norm': dense_s['expert_norm']}
            sparse = state_of(sp, ss, 0)
            part = Fixed(shape, params_on_devices=not lazy)

            def spec(path, v):
              name = jax.tree_util.keystr(path)
              r = np.ndim(v)
              if "'expert'" in name and "'m'" not in name and "'v'" not in name:
                return P('expert', *([None] * (r - 2)), *(['model'] if r > 1 and np.shape(v)[-1] % shape[2] == 0 else [None] * (r > 1)))
              return P(*(['model'] + [None] * (r - 1) if r and np.shape(v)[0] % shape[2] == 0 else [None] * r))
            part.axes = axes_like(sparse, spec)
            template = jax.tree_util.tree_map(lambda v: np.zeros_like(np.asarray(v)), sparse)
            rename = lambda sdict, tgt, **kw: state_utils.apply_assignment_map(sdict, tgt, [(r'(.*)expert/(.*)', r'\1mlp/\2'), (r'(.*)', r'\1')], **kw)
            ok, got = ck.guarded('restoring with upcycling', lambda: mc.UpcycleCheckpointer(
                template, part, sub, num_experts=E, restore_dtype=rd).restore(7, lazy_parameters=lazy, state_transformation_fns=[rename]), case)
            if not ok:
              continue
            if lazy:
              got = jax.tree_util.tree_map(lambda v: v.get() if hasattr(v, 'get') else v, got)
            want = state_of(sp, ss)
            a, b_ = jax.tree_util.tree_leaves_with_path(want), jax.tree_util.tree_leaves_with_path(got)
            ck.expect([k for k, _ in a] == [k for k, _ in b_], 'structure after upcycling', case)
            for (k, v), (_, g) in zip(a, b_):
              name = jax.tree_util.keystr(k)
              w = np.asarray(v)
              g_ = np.asarray(g)
              if w.dtype == np.float32 and 'target' in name:
                w = w.astype(sd).astype(rd or np.float32)
                ck.expect(g_.dtype == w.dtype or rd is None, 'dtype after upcycling', dict(case, parameter=name), w.dtype, g_.dtype)
              ck.expect(w.shape == g_.shape and np.array_equal(w.astype(np.float64), g_.astype(np.float64)), 'value after upcycling', dict(case, parameter=name), w, g_)
              if isinstance(g, jax.Array) and np.ndim(w):
                sp_ = spec(k, v)
                ck.expect(g.sharding.is_equivalent_to(NamedSharding(part.mesh, sp_), g.ndim), 'placement after upcycling', dict(case, parameter=name), str(sp_), str(g.sharding))
  finally:
    shutil.rmtree(d)
