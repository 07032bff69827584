"""P02: sharding of parameters, optimizer slots and mutables by logical axes."""
import itertools
import re

import numpy as np

TECHNIQUE = 'enum'
LEVEL = 'exploration'
N_DEVICES = 8
RULE = ('every tuple of up to three (four) distinct axis names x every rule configuration; every '
        'bounded parameter tree x optimizer family; every list of up to three (four) overrides '
        'x every subset of annotated parameters; distinct = (names, rules) or request')
ASSUMPTIONS = ['a parameter never carries the same logical axis name twice']

COMMON = ['relpos_buckets', 'abspos_buckets', 'length', 'layers', 'stack', 'mlp_activations']


def documented(act, par):
  """The documented rules: first applicable one wins."""
  rules = [('batch', 'data'), ('vocab', 'model')]
  if (act, par) == (1, 1):
    rules += [('embed', None)]
  rules += [('mlp', 'model'), ('heads', 'model'), ('kv', None), ('joined_kv', 'model')]
  if act == 2:
    rules += [('embed', 'model')]
  if par == 2:
    rules += [('embed', 'data')]
  return rules + [(n, None) for n in COMMON]


def resolve(names, rules):
  """Mesh axis per name: rules in order of priority, a mesh axis at most once."""
  done, used = {}, set()
  for name, mesh in rules:
    if name in names and name not in done:
      want = set(mesh if isinstance(mesh, tuple) else (mesh,)) - {None}
      if not want & used:
        done[name] = mesh
        used |= want
  return tuple(done.get(n) for n in names)


def check(ck):
  import jax
  from flax.core import freeze, unfreeze
  from flax.linen.partitioning import AxisMetadata
  from flax.traverse_util import flatten_dict, unflatten_dict
  from jax.sharding import PartitionSpec as P
  from t5x import adafactor, optimizers, partitioning, utils
  from t5x import train_state as ts

  def variables(params, axes, mutables=None):
    """params: {path: shape}, axes: {path: names}."""
    v = dict(params=unflatten_dict({p: np.zeros(s, np.float32) for p, s in params.items()}),
             params_axes=unflatten_dict({p[:-1] + (p[-1] + '_axes',): AxisMetadata(names=n)
                                         for p, n in axes.items()}))
    for k, (shape, names) in (mutables or {}).items():
      v[k] = dict(x=np.zeros(shape, np.float32))
      v[k + '_axes'] = dict(x_axes=AxisMetadata(names=names))
    return freeze(v)

  def norm(spec):
    return None if spec is None else tuple(spec)

  # ---- rules
  ck.part('rules')
  extras = [None, [('extra', 'model')], [('extra', 'data'), ('other', None)], [('embed', 'data')],
            [('kv', 'model'), ('extra', 'model')], [('heads', 'data'), ('length', 'data')]]
  for act, par in itertools.product((0, 1, 2, 3), repeat=2):
    if act not in (1, 2) or par not in (1, 2):
      ck.case(('bad', act, par))
      ck.expect_raises('unsupported dimensions', lambda: partitioning.standard_logical_axis_rules(
          act, par), (act, par), ValueError)
  for act, par, extra, multi in itertools.product((1, 2), (1, 2), extras, (False, True)):
    if multi and extra not in (None, extras[2]):
      continue
    want_rules = documented(act, par) + (extra or [])
    if multi:
      want_rules = [(k, ('replica', 'data') if k == 'batch' else v) for k, v in want_rules]
    case = dict(activation_dims=act, parameter_dims=par, additional=extra, multi_slice=multi)
    ok, rules = ck.guarded('rules', lambda: partitioning.standard_logical_axis_rules(
        act, par, extra), case)
    if not ok:
      continue
    kw = dict(ici_mesh_shape=(1, 1, 1), dcn_mesh_shape=(1, 1, 1)) if multi else {}
    ok, p = ck.guarded('partitioner', lambda: partitioning.PjitPartitioner(
        1, logical_axis_rules=rules, **kw), case)
    if not ok:
      continue
    ck.expect(norm(p.data_partition_spec) == (('replica', 'data') if multi else 'data',),
              'spec of the batch', case, None, p.data_partition_spec)
    names = sorted({r[0] for r in want_rules} | {'unknown', 'extra'})
    for k in range(0, ck.pick(4, 5)):
      tuples = list(itertools.permutations(names, k))
      if k >= 3 and not (extra is None or (ck.thorough and k == 3)):
        tuples = [t for t in tuples if {'extra', 'embed', 'kv'} & set(t)][::1]
        if not ck.thorough:
          tuples = [t for t in tuples if t[0] in ('extra', 'embed')]
      # one state holds a block of tuples
      for i in range(0, len(tuples), 400):
        block = tuples[i:i + 400]
        params = {('m', f'p{j}'): (2,) * k for j in range(len(block))}
        axes = {('m', f'p{j}'): t for j, t in enumerate(block)}
        st = ts.InferenceState.create(variables(params, axes))
        ok, got = ck.guarded('deriving mesh axes', lambda: p.get_mesh_axes(st), case)
        if not ok:
          break
        flat = flatten_dict(unfreeze(got.params))
        ck.expect(set(flat) == set(params), 'parameters lost or invented', case)
        for j, t in enumerate(block):
          ck.case((act, par, str(extra), multi, t), sample=dict(case, axes=t, mesh_axes=str(
              flat[('m', f'p{j}')])) if k == 3 and j == 77 else None)
          g = norm(flat[('m', f'p{j}')])
          want = resolve(t, want_rules)
          ck.expect(g == want, 'mesh axes of a parameter', dict(case, axes=t), want, g)
          flatg = [a for x in g or () for a in (x if isinstance(x, tuple) else (x,)) if a]
          ck.expect(len(set(flatg)) == len(flatg), 'a mesh axis used twice', dict(case, axes=t), None, g)
        ck.expect(got.step is None, 'the step is not replicated', case, None, got.step)
  for dup in (('embed', 'embed'), ('mlp', 'kv', 'mlp')):
    ck.case(dup)
    st = ts.InferenceState.create(variables({('m', 'p'): (2,) * len(dup)}, {('m', 'p'): dup}))
    ck.expect_raises('a repeated axis name', lambda: partitioning.PjitPartitioner(1).get_mesh_axes(
        st), dup, ValueError)

  # ---- optimizer slots
  ck.part('optimizer slots')
  fd = adafactor.FactorDim
  lrules = dict(vocab=fd.COLUMN, embed=fd.ROW, mlp=fd.COLUMN, heads=fd.COLUMN, kv=fd.COLUMN,
                layers=fd.BATCH)
  ada = lambda **kw: adafactor.Adafactor(0.1, min_dim_size_to_factor=2, logical_factor_rules=lrules, **kw)
  kinds = dict(
      adamw=lambda: optimizers.adamw(1e-3), sgd=lambda: optimizers.sgd(1e-3),
      momentum=lambda: optimizers.sgd(1e-3, momentum=0.9),
      lion=lambda: optimizers.lion(1e-3), rmsprop=lambda: optimizers.rmsprop(1e-3),
      adagrad=lambda: optimizers.adagrad(1e-3), lamb=lambda: optimizers.lamb(1e-3),
      factored=lambda: ada(), unfactored=lambda: ada(factored=False),
      factored_momentum=lambda: ada(beta1=0.9), unfactored_momentum=lambda: ada(factored=False, beta1=0.9))
  leaves = [(('a', 'kernel'), (4, 8), ('embed', 'mlp')), (('a', 'bias'), (8,), ('mlp',)),
            (('b', 'c', 'kernel'), (4, 2, 4), ('embed', 'heads', 'kv')),
            (('emb',), (16, 4), ('vocab', 'embed')), (('scale',), (4,), ('embed',)),
            (('z', 'stacked'), (3, 4, 8), ('layers', 'embed', 'mlp')),
            (('z', 'temp'), (), ())]
  muts = [None, dict(batch_stats=((4,), ('embed',))),
          dict(batch_stats=((4, 8), ('embed', 'mlp')), zz=((4,), ('kv',)))]
  for act, par in itertools.product((1, 2), (1, 2)):
    rules = partitioning.standard_logical_axis_rules(act, par)
    p = partitioning.PjitPartitioner(1, logical_axis_rules=rules)
    for n in range(1, ck.pick(3, 5)):
      for chosen in itertools.combinations(leaves, n):
        for mut in muts if n == 1 or ck.thorough else muts[2:]:
          v = variables({l[0]: l[1] for l in chosen}, {l[0]: l[2] for l in chosen}, mut)
          spec = {'/'.join(l[0]): resolve(l[2], documented(act, par)) for l in chosen}
          for name, make in kinds.items():
            if (act, par) in ((1, 2), (2, 1)) and name not in ('adamw', 'factored', 'unfactored'):
              continue
            if not any(len(l[1]) for l in chosen) and 'factored' in name:
              continue
            case = dict(activation_dims=act, parameter_dims=par, optimizer=name, mutables=mut,
                        params=[(l[0], l[2]) for l in chosen])
            ck.case(str(case), sample=case if n == 2 else None)
            st = ts.FlaxOptimTrainState.create(make(), v)
            ok, got = ck.guarded('deriving mesh axes', lambda: p.get_mesh_axes(st), case)
            if not ok:
              continue
            flat = flatten_dict(unfreeze(got.state_dict()), keep_empty_nodes=True, sep='/')
            have = flatten_dict(unfreeze(st.state_dict()), keep_empty_nodes=True, sep='/')
            ck.expect(set(flat) == set(have), 'the axes tree differs from the state', case,
                      sorted(have), sorted(flat))
            for path, x in have.items():
              g = norm(flat.get(path)) if not isinstance(x, dict) and hasattr(x, 'shape') else None
              if not hasattr(x, 'shape'):
                continue
              want = None
              if path.startswith('target/'):
                want = spec[path[7:]]
              elif path.startswith('flax_mutables/'):
                want = resolve(mut[path.split('/')[1]][1], documented(act, par))
              elif path.startswith('state/param_states/'):
                inner = path[len('state/param_states/'):]
                own = [s for s in spec if inner == s or inner.endswith('/' + s)
                       or inner.startswith(s + '/')]
                slot = inner.rsplit('/', 1)[-1]
                if name.startswith(('factored', 'unfactored')):
                  s = inner[:-len(slot) - 1]
                  full = x.shape == np.shape(flatten_dict(unfreeze(v['params']), sep='/')[s])
                  if slot in ('v', 'm'):
                    want = spec[s] if full and x.shape != (1,) else None
                  else:
                    want = None
                elif own:
                  want = spec[max(own, key=len)]
              if want == ():
                want = g if g in (None, ()) else ()
              ck.expect(g == want, f'mesh axes of {path}', case, want, g)
              ck.expect(g is None or len(g) <= len(x.shape), f'{path} has more axes than dimensions',
                        case, x.shape, g)

  # ---- missing annotations
  ck.part('missing annotations')
  for n in (1, 2, 3):
    for chosen in itertools.combinations(leaves, n):
      for drop in range(1, n + 1):
        for gone in itertools.combinations(range(n), drop):
          ck.case((str(chosen), gone))
          v = variables({l[0]: l[1] for l in chosen},
                        {l[0]: l[2] for i, l in enumerate(chosen) if i not in gone})
          for make in (lambda: ts.InferenceState.create(v),
                       lambda: ts.FlaxOptimTrainState.create(optimizers.adamw(1e-3), v)):
            ck.expect_raises('a parameter without axis names', make,
                             dict(params=[l[0] for l in chosen], missing=gone), ValueError)

  # ---- overrides
  ck.part('overrides')
  names = [('a',), ('ab',), ('m', 'a'), ('m', 'ab'), ('m', 'a.b'), ('n', 'm', 'a')]
  rank = {('a',): 1, ('ab',): 2, ('m', 'a'): 2, ('m', 'ab'): 1, ('m', 'a.b'): 2, ('n', 'm', 'a'): 2}
  pats = ['a', 'm/a', 'm/.*', '.*a', '.*', 'm/a.b', 'a|ab', '.*/a', 'm/a$', 'm/ab?', 'A']
  params = {p: (2,) * rank[p] for p in names}
  old = {p: tuple(f'o{i}' for i in range(rank[p])) for p in names}
  for annotated in ([], names[::2], names):
    v = variables(params, {p: old[p] for p in annotated}, None)
    v = freeze(dict(unfreeze(v), other=dict(q=np.ones(3))))
    for k in range(0, ck.pick(4, 5)):
      if k == 3 and annotated != names[::2] and not ck.thorough:
        continue
      for ps in itertools.permutations(pats, k):
        if k == 3 and not ck.thorough and ps[0] not in ('a', 'm/a', 'm/.*', 'a|ab'):
          continue
        for ranks in itertools.product((1, 2), repeat=k):
          if k >= 3 and ranks not in ((1,) * k, (2,) * k, (1, 2, 2, 2)[:k], (2, 1, 1, 1)[:k]):
            continue
          over = [(s, tuple(f'n{i}{d}' for d in range(r))) for i, (s, r) in enumerate(zip(ps, ranks))]
          case = dict(overrides=over, annotated=annotated)
          ck.case(str(case), sample=case if k == 2 else None)
          want, bad = {p: old[p] for p in annotated}, False
          for p in names:
            for s, ax in over:
              if re.match('(?:' + s + r')\Z', '/'.join(p)):
                want[p] = ax
                bad = bad or len(ax) != rank[p]
                break
          fn = lambda: utils.override_params_axes_names(v, over)
          if bad:
            ck.expect_raises('an override of the wrong rank', fn, case, ValueError)
            continue
          ok, got = ck.guarded('overriding', fn, case)
          if not ok:
            continue
          g = {kk[:-1] + (kk[-1][:-5],): tuple(m.names)
               for kk, m in flatten_dict(unfreeze(got['params_axes'])).items()}
          ck.expect(g == want, 'axis names after overriding', case, str(want), str(g))
          same = jax.tree_util.tree_map(lambda a, b: a is b or (a == b).all(), got['params'], v['params'])
          ck.expect(all(jax.tree_util.tree_leaves(same)) and set(got) == set(v) and
                    (got['other']['q'] == v['other']['q']).all(), 'other variables changed', case)
  ck.expect_raises('no axes to override', lambda: utils.override_params_axes_names(
      freeze(dict(params=dict(a=np.ones(2)))), [('a', ('x',))]), None, ValueError)

  # ---- the summary written for users
  ck.part('model summary')
  import os
  from mc import crashfs
  sc = crashfs.Scratch()
  p = partitioning.PjitPartitioner(1, logical_axis_rules=partitioning.standard_logical_axis_rules(2, 1))
  rules = documented(2, 1)
  line = re.compile(r'Variable\s+(\S+)\s+size (\d+)\s+shape (\(.*\))\s+partition spec (.*)$')
  for n in range(1, ck.pick(4, 6)):
    for chosen in itertools.combinations(leaves, n):
      v = variables({l[0]: l[1] for l in chosen}, {l[0]: l[2] for l in chosen})
      for name in ('inference', 'adamw', 'factored', 'sgd'):
        if name == 'factored' and not any(len(l[1]) for l in chosen):
          continue
        case = dict(optimizer=name, params=[(l[0], l[2]) for l in chosen])
        st = ts.InferenceState.create(v) if name == 'inference' else ts.FlaxOptimTrainState.create(kinds[name](), v)
        ck.case(str(case), sample=case if n == 2 else None)
        root = sc.new()
        try:
          ok, _ = ck.guarded('writing the summary', lambda: utils.log_model_info(
              os.path.join(root, 'info.txt'), jax.eval_shape(lambda: st), p), case)
          if not ok:
            continue
          with open(os.path.join(root, 'info.txt')) as h:
            text = h.read()
        finally:
          sc.clear(root)
        want = {}
        for path, shape, names in chosen:
          names = tuple(names)
          want['/'.join(path)] = (int(np.prod(shape, dtype=int)), '({})'.format(
              ', '.join(f'{a}={d}' for a, d in zip(names, shape))), resolve(names, rules))
        head, _, tail = text.partition('Total number of parameters:')
        got = [m.groups() for m in map(line.match, head.splitlines()) if m]
        ck.expect(sorted(g[0] for g in got) == sorted(want), 'the parameters in the summary', case,
                  sorted(want), sorted(g[0] for g in got))
        for g in got:
          w = want.get(g[0])
          if w is None:
            continue
          spec_text = g[3].strip()
          mine = () if spec_text in ('None', '()') else tuple(
              None if x in ('None', '') else x.strip("'") for x in re.sub(r'[()\s]', '', spec_text).rstrip(',').split(','))
          ck.expect((int(g[1]), g[2].strip()) == w[:2], f'size and shape of {g[0]} in the summary', case, w[:2], g)
          ck.expect(mine == (w[2] if any(w[2]) or mine else ()), f'partition spec of {g[0]} in the summary', case, w[2], mine)
        total = re.match(r'\s*(\d+)', tail)
        ck.expect(total is not None and int(total.group(1)) == sum(w[0] for w in want.values()),
                  'total number of parameters in the summary', case, sum(w[0] for w in want.values()), tail[:60])
        have = flatten_dict(unfreeze(st.state_dict()).get('state', {}), sep='/') if name != 'inference' else {}
        slots = {m.group(1): int(m.group(2)) for m in map(line.match, tail.splitlines()) if m}
        mine = {k: int(np.size(x)) for k, x in have.items() if x is not None and not isinstance(x, dict)}
        if name != 'inference':
          ck.expect(slots == mine, 'optimizer slots in the summary', case, mine, slots)
