"""C10: importing a Mesh-TensorFlow checkpoint."""
import itertools
import re

import numpy as np

from mc import crashfs

TECHNIQUE = 'enum'
LEVEL = 'exploration'
RULE = ('every architecture (encoder-decoder or decoder only, layer counts, gated or not, logits '
        'or shared embedding, shared or per-layer position bias, both norm names, slot kinds) as '
        'a real TensorFlow checkpoint, intact and with each variable dropped, renamed or '
        'mis-shaped; every list of up to three (four) rules over a rule alphabet; distinct = '
        '(architecture, damage) or (rules, names)')
ASSUMPTIONS = ['relative position biases are shared in all towers or in none, and not shared '
               'only in models of more than one layer, as the importer documents']

SLOTS = {'v': '_slot_v', 'v_row': '_slot_vr', 'v_col': '_slot_vc'}


def encdec(a):
  """(TensorFlow name, t5x path) of every parameter of an architecture."""
  lyr = lambda i: f'{i:03d}'
  norm = a['norm']
  out = []
  if a['kind'] == 'encdec':
    if a['embedding'] == 'shared':
      out.append(('shared/embedding', 'token_embedder/embedding'))
    else:
      for t in ('encoder', 'decoder'):
        out.append((f'{t}/embedding', f'{t}/token_embedder/embedding'))
    towers = [('encoder', 'encoder', a['enc']), ('decoder', 'decoder', a['dec'])]
  else:
    t = a['tower']
    out.append((f'{t}/embedding', 'decoder/token_embedder/embedding'))
    towers = [(t, 'decoder', a['dec'])]
  mlp = [('wi', 'wi'), ('wo', 'wo')] if not a['gated'] else [('wi_0', 'wi_0'), ('wi_1', 'wi_1'), ('wo', 'wo')]
  for tf, to, n in towers:
    for i in range(n):
      b = f'{tf}/block_{lyr(i)}'
      d = f'{to}/layers_{i}'
      attn = 'attention' if to == 'encoder' else 'self_attention'
      sub = 0
      def ln(name):
        out.append((f'{b}/layer_{lyr(sub)}/{norm[0]}/scale', f'{d}/{name}/scale'))
      ln('pre_attention_layer_norm' if to == 'encoder' else 'pre_self_attention_layer_norm')
      for q, w in zip('qkvo', ('query', 'key', 'value', 'out')):
        out.append((f'{b}/layer_{lyr(sub)}/SelfAttention/{q}', f'{d}/{attn}/{w}/kernel'))
      if a['relpos'] == 'each' or i == 0:
        out.append((f'{b}/layer_{lyr(sub)}/SelfAttention/relative_attention_bias',
                    f'{d}/relpos_bias/rel_embedding' if a['relpos'] == 'each'
                    else f'{to}/relpos_bias/rel_embedding'))
      if to == 'decoder' and a['kind'] == 'encdec':
        sub += 1
        ln('pre_cross_attention_layer_norm')
        for q, w in zip('qkvo', ('query', 'key', 'value', 'out')):
          out.append((f'{b}/layer_{lyr(sub)}/EncDecAttention/{q}',
                      f'{d}/encoder_decoder_attention/{w}/kernel'))
      sub += 1
      ln('pre_mlp_layer_norm')
      for m, w in mlp:
        out.append((f'{b}/layer_{lyr(sub)}/DenseReluDense/{m}/kernel', f'{d}/mlp/{w}/kernel'))
    out.append((f'{tf}/{norm[1]}/scale', f'{to}/{to}_norm/scale'))
  if a['logits']:
    out.append((f'{towers[-1][0]}/logits/kernel', 'decoder/logits_dense/kernel'))
  return out


def write_tf(path, values):
  import tensorflow as tf
  names = sorted(values)
  tf.raw_ops.SaveV2(prefix=path, tensor_names=names, shape_and_slices=[''] * len(names),
                    tensors=[tf.constant(values[n]) for n in names])


def check(ck):
  import jax
  from flax import traverse_util
  from t5x import checkpoint_importer as ci
  fl = lambda t: traverse_util.flatten_dict(t, sep='/')

  def source(a, slots, seed=0):
    """TensorFlow variables, and the state they stand for."""
    tf, state = {}, {}
    for i, (name, path) in enumerate(encdec(a)):
      shape = (3,) if path.endswith('scale') else (2, 4 + i % 3)
      val = (1000. * (i + 1) + np.arange(np.prod(shape))).reshape(shape).astype(np.float32)
      tf[name], state['target/' + path] = val, val
      kind = slots if slots != 'mixed' else ('v' if len(shape) == 1 else 'vr')
      ps = f'state/param_states/{path}/'
      one = np.zeros((1,), np.float32)
      sl = dict(m=one, v=one, v_row=one, v_col=one)
      if kind == 'v':
        sl['v'] = val + 0.5
      else:
        sl['v_row'], sl['v_col'] = val[..., 0] + 0.25, val.reshape(-1)[:shape[-1]] + 0.75
      for k, x in sl.items():
        state[ps + k] = x
        if x is not one:
          tf[name + SLOTS[k]] = x
    tf['global_step'] = np.int64(1234567)
    state['state/step'] = np.int32(1234567)
    return tf, state

  def tree(state):
    return traverse_util.unflatten_dict({tuple(k.split('/')): v for k, v in state.items()})

  def blank(state):
    return tree({k: np.zeros(np.shape(v), np.asarray(v).dtype) for k, v in state.items()})

  archs = []
  lay = ck.pick((1, 2, 3), (1, 2, 3, 11))
  for norm in (('layer_norm', 'final_layer_norm'), ('rms_norm', 'rms_norm')):
    norm = (norm[0], 'final_layer_norm' if norm[0] == 'layer_norm' else 'rms_norm')
    for gated, logits, relpos in itertools.product((False, True), (False, True), ('shared', 'each')):
      for enc, dec in itertools.product(lay, repeat=2):
        if relpos == 'each' and min(enc, dec) == 1:
          continue
        for emb in ('shared', 'separate'):
          archs.append(dict(kind='encdec', enc=enc, dec=dec, embedding=emb, norm=norm, gated=gated,
                            logits=logits, relpos=relpos))
      for tower, dec in itertools.product(('transformer', 'decoder'), lay):
        if relpos == 'each' and dec == 1 or tower == 'decoder':
          continue
        archs.append(dict(kind='lm', tower=tower, dec=dec, norm=norm, gated=gated, logits=logits,
                          relpos=relpos))
  if not ck.thorough:
    archs = [a for i, a in enumerate(archs) if i % 2 == 0 or a['dec'] == 2]

  same = lambda a, b: (np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a), np.asarray(b)) and
                       np.asarray(a).dtype == np.asarray(b).dtype)

  def verify(got, state, case, lazy=False):
    g = fl(got)
    if not ck.expect(set(g) == set(state), 'variables lost or invented', case,
                     sorted(set(state) - set(g)), sorted(set(g) - set(state))):
      return
    for k, want in state.items():
      x = g[k]
      if lazy and isinstance(x, ci.LazyArray):
        ck.expect(tuple(x.shape) == np.shape(want) and x.dtype == want.dtype,
                  f'{k}: lazy shape or dtype', case)
        x = x.get()
      elif not lazy:
        ck.expect(not isinstance(x, ci.LazyArray), f'{k} was not loaded', case)
      ck.expect(same(x, want), f'{k} has another value', case, want, x)

  with crashfs.Scratch() as scratch:
    ck.part('architectures')
    for n, a in enumerate(archs):
      slots = ('v', 'vr', 'mixed')[n % 3]
      for slots in (('v', 'vr', 'mixed') if ck.thorough else (slots,)):
        tf, state = source(a, slots)
        d = scratch.new()
        write_tf(d + '/model.ckpt', tf)
        case = dict(a, slots=slots)
        for lazy in (False, True):
          for strict in (True, False):
            ck.case((str(case), lazy, strict), sample=dict(case, variables=len(tf)) if lazy else None)
            ok, got = ck.guarded('importing', lambda: ci.restore_from_t5_checkpoint(
                blank(state), d + '/model.ckpt', lazy_parameters=lazy, strict=strict), case)
            if ok:
              verify(got, state, dict(case, lazy=lazy, strict=strict), lazy)
        scratch.clear(d)

    ck.part('damaged checkpoints')
    some = [a for a in archs if a['dec'] <= 2 and a.get('enc', 1) <= 2]
    for n, a in enumerate(some[::ck.pick(20, 3)]):
      slots = ('v', 'vr', 'mixed')[n % 3]
      tf, state = source(a, slots)
      path = {}  # TensorFlow name -> state path
      for name, p in encdec(a):
        path[name] = 'target/' + p
        for k, s in SLOTS.items():
          if name + s in tf:
            path[name + s] = f'state/param_states/{p}/{k}'
      path['global_step'] = 'state/step'
      for name in sorted(tf):
        case = dict(a, slots=slots, variable=name)
        d = scratch.new()
        less = {k: v for k, v in tf.items() if k != name}
        write_tf(d + '/less', less)
        odd = dict(tf)
        odd[name] = np.zeros(np.shape(tf[name]) + (2,), np.float32)
        write_tf(d + '/odd', odd)
        unk = dict(less)
        unk[name + '/unknown_thing'] = tf[name]
        write_tf(d + '/unk', unk)
        # the model lacks the variable
        small = {k: v for k, v in state.items() if k != path[name]}
        write_tf(d + '/all', tf)
        for strict in (True, False):
          ck.case((str(case), strict))
          load = lambda st, f: ci.restore_from_t5_checkpoint(blank(st), f'{d}/{f}', strict=strict)
          c = dict(case, strict=strict)
          ck.expect_raises('a variable missing in the checkpoint', lambda: load(state, 'less'), c)
          if name != 'global_step':
            ck.expect_raises('a variable of another shape', lambda: load(state, 'odd'), c)
          ck.expect_raises('an unknown variable', lambda: load(state, 'unk'), c, ValueError)
          if strict:
            ck.expect_raises('a variable the model lacks', lambda: load(small, 'all'), c)
          else:
            ok, got = ck.guarded('importing into a smaller model', lambda: load(small, 'all'), c)
            if ok:
              verify(got, small, c)
        scratch.clear(d)

    ck.part('example models')
    networks(ck, ci, scratch, fl, same)

  # ---- rule lists
  ck.part('rule lists')
  pats = ['a', 'a|b', 'b', '(a)b', 'ab?', '.*', r'a(\d+)', '(?:a|b)c', '', 'x/(a|b)', '(x/)?b',
          'x|(y)', '^a$', 'c|ab']
  names = ['a', 'b', 'ab', 'abc', 'a1', 'a12', 'bc', 'ac', 'x/a', 'x/b', 'x', 'y', 'ba', 'c', 'ax',
           'x/ab', 'b\n']

  for k in range(0, ck.pick(4, 5)):
    for ps in itertools.permutations(pats, k):
      if k == 3 and not ck.thorough and ps[0] in pats[8:]:
        continue
      if k == 4 and ps[0] not in pats[:5]:
        continue
      tr = ci.CheckpointTranslator()
      calls = []
      for i, s in enumerate(ps):
        def rule(opts, key, val, *groups, i=i):
          calls.append((i, key, val, groups, dict(opts)))
          return (None, None) if i == 1 and key == 'a' else (f'{i}:{key}', (val, i))
        ret = tr.add(s)(rule)
        if ret is not rule:
          ck.violation('the decorator does not return its function', ps)
      want, un, wcalls = {}, [], []
      for j, nm in enumerate(names):
        for i, s in enumerate(ps):
          m = re.match('(?:' + s.replace('^', '').replace('$', '') + r')\Z', nm)
          if m:
            wcalls.append((i, nm, j, m.groups(), dict(o=7)))
            if not (i == 1 and nm == 'a'):
              want[f'{i}:{nm}'] = (j, i)
            break
        else:
          un.append(nm)
      ck.case(ps, sample=dict(rules=ps, unmatched=un) if k == 2 else None)
      d = {nm: j for j, nm in enumerate(names)}
      if un:
        ck.expect_raises('names without a rule', lambda: tr.apply(d, o=7), dict(rules=ps, unmatched=un),
                         ValueError)
        calls.clear()
      d = {nm: j for nm, j in d.items() if nm not in un}
      ok, got = ck.guarded('translating', lambda: tr.apply(dict(d), o=7), ps)
      if ok:
        ck.expect(got == want, 'wrong translation', ps, want, got)
        ck.expect(calls == wcalls, 'rules called otherwise', ps, wcalls, calls)


def networks(ck, ci, scratch, fl, same):
  """The imported state of the example models is exactly the state they need."""
  import jax
  import jax.numpy as jnp
  from flax.core import unfreeze
  import lib_ckpt as lc
  from t5x import adafactor, checkpoints, train_state as ts
  part = lc.partitioner()
  from t5x.examples.decoder_only import network as lm
  from t5x.examples.t5 import network as t5
  for kind, gated, tied, n in itertools.product(('encdec', 'lm'), (False, True), (False, True),
                                                ck.pick((1, 2), (1, 2, 3))):
    kw = dict(vocab_size=8, emb_dim=4, num_heads=2, head_dim=3, mlp_dim=6,
              mlp_activations=('gelu', 'linear') if gated else ('relu',), logits_via_embedding=tied)
    ones = jnp.ones((1, 4), jnp.int32)
    if kind == 'encdec':
      cfg = t5.T5Config(num_encoder_layers=n, num_decoder_layers=3 - n if n < 3 else 1, **kw)
      init = lambda: t5.Transformer(cfg).init(jax.random.PRNGKey(0), ones, ones, ones, enable_dropout=False)
      a = dict(kind='encdec', enc=n, dec=3 - n if n < 3 else 1, embedding='shared')
    else:
      cfg = lm.TransformerConfig(num_layers=n, **kw)
      init = lambda: lm.DecoderWrapper(cfg).init(jax.random.PRNGKey(0), ones, ones, enable_dropout=False)
      a = dict(kind='lm', tower='transformer', dec=n)
    a.update(norm=('layer_norm', 'final_layer_norm'), gated=gated, logits=not tied, relpos='shared')
    for factored in (False, True):
      opt = adafactor.Adafactor(0.1, factored=factored, min_dim_size_to_factor=2,
                                logical_factor_rules=adafactor.standard_logical_factor_rules())
      st = ts.FlaxOptimTrainState.create(opt, init())
      sd = unfreeze(st.state_dict())
      have = {k: np.asarray(v) for k, v in fl(sd).items()}
      case = dict(a, factored=factored)
      ck.case(str(case), sample=case)
      tf, want = {'global_step': np.int64(7)}, {'state/step': np.int32(7)}
      for i, (name, p) in enumerate(encdec(a)):
        if not ck.expect('target/' + p in have, 'the model has no such parameter', case, None, p):
          continue
        sh = have['target/' + p].shape
        val = (100. * (i + 1) + np.arange(np.prod(sh))).reshape(sh).astype(np.float32)
        tf[name] = want['target/' + p] = val
        for s in ('m', 'v', 'v_row', 'v_col'):
          k = f'state/param_states/{p}/{s}'
          want[k] = np.zeros(have[k].shape, np.float32)
          if s != 'm' and have[k].shape != (1,) or (s == 'v' and sh == (1,)):
            want[k] = tf[name + SLOTS[s]] = want[k] + i + 0.5
      d = scratch.new()
      write_tf(d + '/m', tf)
      ok, got = ck.guarded('importing into an example model', lambda: ci.restore_from_t5_checkpoint(
          sd, d + '/m'), case)
      if ok:
        g = fl(got)
        ck.expect(set(g) == set(have), 'the state is not that of the model', case,
                  sorted(set(have) - set(g)), sorted(set(g) - set(have)))
        for k in want:
          ck.expect(k in g and same(g[k], want[k]), f'{k} has another value', case, want[k], g.get(k))
        ok, new = ck.guarded('restoring the train state', lambda: st.restore_state(got), case)
        if ok:
          f = fl(unfreeze(new.state_dict()))
          ck.expect(all(np.array_equal(f[k], want[k]) for k in want), 'restored state differs', case)
      for how, rd in itertools.product(('classic', 'orbax', 'convert'), (None, jnp.bfloat16)):
        if (n > 1 or gated or tied or not factored) and not ck.thorough:
          continue
        c = dict(case, how=how, restore_dtype=str(rd))
        ck.case(str(c))
        def go():
          e = scratch.new()
          if how == 'orbax':
            m = checkpoints.OrbaxCheckpointManagerInterface(e, st, part, restore_dtype=rd)
            try:
              return m.restore_from_tf_checkpoint(d + '/m')
            finally:
              m.close()
          m = checkpoints.Checkpointer(st, part, e, restore_dtype=rd)
          if how == 'classic':
            return m.restore_from_tf_checkpoint(d + '/m')
          m.convert_from_tf_checkpoint(d + '/m')
          return m.restore(step=7)
        ok, new = ck.guarded('importing through a checkpointer', go, c)
        if ok:
          f = fl(unfreeze(new.state_dict()))
          ck.expect(set(f) == set(have), 'the state is not that of the model', c)
          for k in want:
            w = want[k].astype(rd) if rd is not None and k.startswith('target/') else want[k]
            ck.expect(k in f and same(f[k], w), f'{k} has another value', c, w, f.get(k))
      scratch.clear(d)
