"""P04: expert meshes, layouts and rules of the mixture-of-experts partitioner."""
import itertools

import numpy as np

import lib_mesh as lm
import p01

TECHNIQUE = 'enum'
LEVEL = 'exploration'
RULE = ('every (data, expert, model) mesh of up to 16 (32) devices x every division among hosts '
        'x batch sizes from the view of every host; every expert request from one to past the '
        'device count on every listed TPU pod, GPU and CPU cluster x model sizes and submeshes; '
        'every bounded parameter tree x optimizer for the state axes; distinct = request')
ASSUMPTIONS = ['devices are stand-ins; Mesh and NamedSharding are jax\'s own']


def check(ck):
  import jax
  from jax.sharding import PartitionSpec as P
  from t5x.contrib.moe import partitioning as moe

  def on(mesh, **kw):
    return type('M', (moe.MoePjitPartitioner,), dict(mesh=mesh))(
        num_expert_partitions=1, num_partitions=1, **kw)

  # ---- layouts on every mesh
  ck.part('layouts')
  nm = ('data', 'expert', 'model')
  for total in ck.pick((1, 2, 4, 6, 8, 12), (1, 2, 3, 4, 6, 8, 12, 16, 24, 32)):
    for shape in lm.factorizations(total, 3):
      for local in itertools.product(*map(lm.divisors, shape)):
        nh = int(np.prod(shape) // np.prod(local))
        for order in ((0,) if nh == 1 else (0, 1) if nh == 2 else (0, 1, 2)):
          devs = lm.blocks(shape, local, order)
          flat = list(devs.reshape(-1))
          mesh = jax.sharding.Mesh(devs, nm)
          dm = shape[0] * shape[1]
          case = dict(mesh=dict(zip(nm, shape)), devices_per_host=local, numbering=order)
          for batch in (dm, 3 * dm):
            lays = p01.layouts(ck, lambda: on(mesh), flat, mesh, ('expert', 'data'), batch,
                               dict(case, batch=batch))
            ck.case((shape, local, order, batch), sample=dict(case, batch=batch, layouts=[
                vars(l) for l in lays[:4]]) if nh == 4 and lays else None)
          with lm.world(flat, 0):
            p = on(mesh)
            ck.expect(p.get_data_layout().batch_size == dm, 'default batch size', case, dm,
                      p.get_data_layout().batch_size)
            for bad in sorted({dm - 1, dm + 1, 2 * dm + 1, 3 * dm - 1}):
              if bad > 0 and bad % dm:
                ck.case((shape, local, order, bad))
                ck.expect_raises('a batch that cannot be split evenly',
                                 lambda: p.get_data_layout(bad), dict(case, batch=bad), ValueError)

  # ---- topologies
  def topology(devices, case, model_size, fit, **kw):
    from t5x import partitioning
    with lm.world(devices, 0):
      try:
        base = partitioning.default_mesh(kw.get('num_partitions'),
                                         kw.get('model_parallel_submesh'))
      except Exception:  # P01 decides which requests must fit
        return
    data = len(devices) // model_size
    n = len(devices)
    powers = n & (n - 1) == 0 and (model_size & (model_size - 1)) == 0
    local = base.devices.shape
    reqs = sorted({1, 2, 3, 4, 5, 6, 7, 8, data - 1, data, data + 1, 2 * data, 64, 100} - {0})
    for req in reqs:
      c = dict(case, experts=req)
      ck.case(str(c))
      with lm.world(devices, 0):
        ok, mesh = ck.guarded('building the expert mesh', lambda: moe.default_moe_mesh(req, **kw), c)
      if not ok:
        continue
      p01.once(ck, devices, mesh, c)
      want = max(d for d in range(1, min(req, data) + 1) if data % d == 0)
      ck.expect(tuple(mesh.axis_names) == nm and dict(mesh.shape) == dict(
          data=data // want, expert=want, model=model_size),
                'wrong expert mesh', c, dict(data=data // want, expert=want, model=model_size),
                dict(mesh.shape))
      ck.expect([[d.id for d in r] for r in mesh.devices.reshape(-1, model_size)] ==
                [[d.id for d in r] for r in base.devices],
                'the model-parallel groups are not those of the plain mesh', c)
      blocky = True
      for h in sorted({d.process_index for d in devices}):
        with lm.world(devices, h):
          try:
            mesh.local_mesh, base.local_mesh  # pylint: disable=expression-not-assigned
          except ValueError:
            blocky = False
            break
      if not blocky:
        continue
      if len(devices) <= ck.pick(32, 128):
        def make():
          p = moe.MoePjitPartitioner(req, **kw)
          ck.expect([d.id for d in p.mesh.devices.reshape(-1)] ==
                    [d.id for d in mesh.devices.reshape(-1)] and
                    p.mesh.devices.shape == mesh.devices.shape,
                    'the partitioner uses another mesh', c)
          ck.expect(p.data_partition_spec == P(('expert', 'data'),), 'data partition spec', c,
                    None, p.data_partition_spec)
          return p
        p01.layouts(ck, make, devices, mesh, ('expert', 'data'), 2 * data, c)

  ck.part('TPU meshes')
  for kind, pods in (('TPU v3', lm.V3), ('TPU v4', lm.V4)):
    for pod, host in pods:
      n = int(np.prod(pod))
      if n > ck.pick(64, 256):
        continue
      devices = lm.tpu(pod, host, kind)
      for size in (1, 2, 4, 8):
        if n % size == 0:
          topology(devices, dict(kind=kind, pod=pod, chips=host, num_partitions=size), size, True,
                   num_partitions=size)
      for sub in itertools.product(*map(lm.divisors, pod)):
        size = int(np.prod(sub))
        if n <= ck.pick(16, 64) or size in (2, 4):
          topology(devices, dict(kind=kind, pod=pod, chips=host, submesh=sub), size, True,
                   model_parallel_submesh=sub)
  ck.part('CPU and GPU meshes')
  for hosts, per in itertools.product((1, 2, 3, 4, 6, 8, 12), (1, 2, 4, 8)):
    topology(lm.cluster(hosts, per, 'cpu'), dict(platform='cpu', hosts=hosts, per_host=per), per,
             True, num_partitions=1)
    for size in sorted({1, 2, 4, per}):
      if per % size == 0:
        topology(lm.cluster(hosts, per, 'gpu'),
                 dict(platform='gpu', hosts=hosts, per_host=per, num_partitions=size), size, True,
                 num_partitions=size)

  # ---- rules
  ck.part('axis rules')
  from t5x import partitioning as base
  from flax.linen import partitioning as flax_partitioning
  import flax.linen as nn
  for act, par, extra in itertools.product(
      (1, 2), (1, 2), (None, [('extra', 'model')], [('stack2', None), ('more', 'data')],
                       [('expert', 'model')], [('expert_mlp', 'data'), ('extra', 'expert')],
                       [('extra', 'data'), ('mlp', 'data')])):
    case = dict(activation_dims=act, parameter_dims=par, additional=extra)
    ck.case(str(case), sample=case)
    ok, rules = ck.guarded('making the rules', lambda: moe.standard_logical_axis_rules(
        act, par, extra), case)
    if not ok:
      continue
    plain = base.standard_logical_axis_rules(act, par)
    # what each logical axis resolves to on its own
    axes = sorted({r[0] for r in list(plain) + list(rules)})
    for a in axes:
      got = nn.logical_to_mesh_axes((a,), rules)
      if a == 'batch':
        want = P(('expert', 'data'))
      elif a in ('expert', 'expert_mlp', 'expert_replicas', 'unmodeled'):
        want = P(dict(expert='expert', expert_mlp='model', expert_replicas='data').get(a))
      elif extra and a in dict(extra) and a not in dict(plain):
        want = P(dict(extra)[a])
      else:
        want = nn.logical_to_mesh_axes((a,), plain)
      ck.expect(got == want, f'mesh axes of "{a}"', case, want, got)
      if a not in ('batch', 'expert') and not (extra and 'expert' in dict(extra).values()):
        ck.expect('expert' not in str(got), f'"{a}" follows the expert axis', case)
    # additional rules come last: they take only what the standard rules leave
    base_rules = moe.standard_logical_axis_rules(act, par)
    known = {r[0] for r in base_rules}
    for dims in itertools.permutations(sorted({r[0] for r in extra or ()} | known), 2):
      if len(set(dims) & known) != 1:
        continue
      ck.case(('last', act, par, str(extra), dims))
      got = tuple(nn.logical_to_mesh_axes(dims, rules)) + (None, None)
      i = [d in known for d in dims].index(True)
      if dims[i] in dict(extra):
        continue
      want = (tuple(nn.logical_to_mesh_axes((dims[i],), base_rules)) + (None,))[0]
      ck.expect(got[i] == want, 'an additional rule displaced a standard one',
                dict(case, axes=dims), want, got[i])
    # expert weights: the expert dimension follows 'expert', the rest never does
    for dims in itertools.product(axes, repeat=2):
      if extra and ('expert' in dict(extra) or 'expert' in dict(extra).values()):
        break
      if len(set(dims)) < 2 or {'batch', 'expert'} & set(dims):
        continue
      ck.case((act, par, str(extra), dims))
      got = tuple(nn.logical_to_mesh_axes(('expert',) + dims, rules))
      got += (None,) * (3 - len(got))
      ck.expect(got[0] == 'expert' and 'expert' not in got[1:], 'expert weights on the mesh',
                dict(case, axes=('expert',) + dims), None, got)
      rest = tuple(nn.logical_to_mesh_axes(dims, plain)) if not extra else None
      if rest is not None and not {'expert_mlp', 'expert_replicas', 'unmodeled'} & set(dims):
        rest += (None,) * (2 - len(rest))
        ck.expect(got[1:] == rest, 'the other axes of expert weights',
                  dict(case, axes=('expert',) + dims), rest, got[1:])

  # ---- raw specs
  ck.part('raw specs')
  specs = [P(), P('data'), P(None), P('model'), P('expert'), P(('expert', 'data')),
           P('data', 'model'), P(None, 'data'), None]
  tree = dict(a=P('data'), b=dict(c=P('model')))
  for k in range(0, 4):
    for combo in itertools.product(specs + [tree], repeat=k):
      for kind in (tuple, list):
        ck.case((str(combo), kind))
        got = moe.override_partition_specs(kind(combo))
        want = tuple(P(('expert', 'data')) if s == P('data') and isinstance(s, P) else s
                     for s in combo)
        ck.expect(tuple(got) == want, 'overridden specs', combo, want, got)
  for s in specs[:-1]:
    ck.case(str(s))
    ck.expect(moe.override_partition_specs(s) == (P(('expert', 'data')) if s == P('data') else s),
              'overridden spec', s)
  ck.expect(moe.override_partition_specs(tree) == tree, 'a tree of specs was changed', tree)

  # ---- number of model partitions
  ck.part('model partitions')
  subs = [None] + list(itertools.product((1, 2, 4), (1, 2), (1,), (1, 2)))
  for n, sub in itertools.product((None, 1, 2, 4, 8, 3), subs):
    ck.case((n, sub))
    fn = lambda: moe.compute_num_model_partitions(n, sub)
    if (n is None and sub is None) or (n is not None and sub and n != np.prod(sub)):
      ck.expect_raises('missing or inconsistent sizes', fn, (n, sub), ValueError)
    else:
      ok, got = ck.guarded('number of model partitions', fn, (n, sub))
      ck.expect(not ok or got == (n if n is not None else np.prod(sub)), 'number of model partitions',
                (n, sub), None, got)

  state_axes(ck, moe, P)


def state_axes(ck, moe, P):
  """Expert axes of the optimizer state."""
  import flax
  import jax
  import optax
  from flax import traverse_util
  from flax.core import freeze, unfreeze
  from flax.linen.partitioning import AxisMetadata
  from t5x import adafactor, optimizers, train_state as ts
  from t5x.contrib.moe import training_utils

  mods = ('expert', 'mlp', 'my_experts', 'dense')
  paths = [(a, b) for a in mods for b in ('kernel', 'bias', 'scale')]
  paths += [(a, b, 'kernel') for a in ('layer', 'expert') for b in ('expert', 'wi')]
  fd = adafactor.FactorDim
  rules = dict(expert=fd.BATCH, embed=fd.ROW, mlp=fd.COLUMN)
  kinds = dict(
      factored=lambda: adafactor.Adafactor(0.1, factored=True, min_dim_size_to_factor=2,
                                          logical_factor_rules=rules),
      momentum=lambda: adafactor.Adafactor(0.1, factored=True, min_dim_size_to_factor=2, beta1=0.9,
                                          logical_factor_rules=rules),
      unfactored=lambda: adafactor.Adafactor(0.1, factored=False, logical_factor_rules=rules),
      adamw=lambda: optimizers.adamw(1e-3),
      sgd=lambda: optimizers.sgd(1e-3))
  ours = training_utils.match_fn(r'.*wi.*')

  def variables(chosen, mutables):
    params, axes = {}, {}
    for p in chosen:
      nd = 1 if p[-1] != 'kernel' else (3 if any('expert' in x for x in p) else 2)
      names = ('expert',) * (nd == 3) + ('embed', 'mlp')[:min(nd, 2)]
      params[p] = np.ones((2,) * (nd == 3) + (4, 8)[:min(nd, 2)], np.float32)
      axes[p[:-1] + (p[-1] + '_axes',)] = AxisMetadata(names=names)
    v = dict(params=traverse_util.unflatten_dict(params),
             params_axes=traverse_util.unflatten_dict(axes))
    if mutables:
      v['other'] = dict(x=np.ones((2, 2), np.float32))
      v['other_axes'] = dict(x_axes=AxisMetadata(names=('vocab', 'embed')))
    return freeze(v)

  def flat(tree):
    return traverse_util.flatten_dict(unfreeze(flax.serialization.to_state_dict(tree)),
                                      keep_empty_nodes=True)

  ck.part('optimizer state axes')
  dev = lm.cluster(1, 1)
  ps = [moe.MoePjitPartitioner(1, 1), moe.MoePjitPartitioner(1, 1, state_filter_fn=ours)]
  sizes = (1, 2, 3) if ck.thorough else (1, 2)
  for k in sizes:
    for chosen in itertools.combinations(paths, k):
      if any(a != b and a[:len(b)] == b for a in chosen for b in chosen):
        continue
      for name, make in kinds.items():
        if k == 2 and not ck.thorough and name in ('momentum', 'sgd'):
          continue
        for mut in (False, True):
          if mut and k > 1:
            continue
          state = ts.FlaxOptimTrainState.create(make(), variables(chosen, mut))
          plain = state.as_logical_axes()
          for which, p in enumerate(ps):
            if which and name == 'sgd':
              continue  # no per-parameter state for the filter to select
            case = dict(params=['/'.join(c) for c in chosen], optimizer=name, mutables=mut,
                        filter='.*wi.*' if which else 'default')
            ck.case(str(case), sample=case)
            ok, got = ck.guarded('deriving logical axes', lambda: p.get_logical_axes(state), case)
            if not ok:
              continue
            ck.expect(got.params == plain.params, 'axes of parameters changed', case, plain.params,
                      got.params)
            ck.expect(got.flax_mutables == plain.flax_mutables, 'axes of mutables', case,
                      plain.flax_mutables, got.flax_mutables)
            gs = traverse_util.flatten_dict(unfreeze(got.state_dict()['state']), sep='/')
            wsd = traverse_util.flatten_dict(unfreeze(plain.state_dict()['state']), sep='/')
            want = {}
            for path, ax in wsd.items():
              inner = path[len('param_states/'):]
              if not path.startswith('param_states/'):
                hit = False
              elif which:
                hit = 'wi' in inner
              else:
                q = inner.split('/')
                hit = (name in ('factored', 'momentum') and len(q) > 2 and q[-2] == 'kernel' and
                       q[-1] in ('v_row', 'v_col') and any('expert' in x for x in q[:-2]))
              want[path] = P(*(('expert',) + tuple(ax or ()))) if hit else ax
            ck.expect(gs == want, 'axes of the optimizer state', case,
                      {k: str(v) for k, v in want.items() if gs.get(k) != v},
                      {k: str(v) for k, v in gs.items() if want.get(k) != v})

  ck.part('inference state')
  for chosen in itertools.combinations(paths[:8], 2):
    st = ts.InferenceState.create(variables(chosen, True))
    for p in ps:
      ck.case(str(chosen))
      ok, got = ck.guarded('inference axes', lambda: p.get_logical_axes(st), chosen)
      if ok:
        ck.expect(got == st.as_logical_axes(), 'inference state axes', chosen)

  ck.part('several optimizers')
  v = variables([('expert', 'kernel'), ('mlp', 'kernel')], False)
  is_mlp = traverse_util.ModelParamTraversal(lambda path, _: 'mlp' in path)
  not_mlp = traverse_util.ModelParamTraversal(lambda path, _: 'mlp' not in path)
  ada = [n for n in ('factored', 'momentum', 'unfactored')]
  for a, b in itertools.product(list(kinds), repeat=2):
    case = dict(first=a, second=b)
    ck.case((a, b))
    multi = optimizers.MultiOptimizer(((is_mlp, kinds[a]()), (not_mlp, kinds[b]())))
    if (a in ada) != (b in ada) or (a in ada and (a == 'unfactored') != (b == 'unfactored')):
      fake = type('S', (), {})()
      fake._optimizer = type('O', (), dict(optimizer_def=multi))()
      fake.as_logical_axes = lambda: None
      ck.expect_raises('optimizers of different kinds', lambda: ps[0].get_logical_axes(fake), case,
                       ValueError)
    elif a in ada:
      st = ts.FlaxOptimTrainState.create(multi, v)
      ok, got = ck.guarded('axes of a multi-optimizer', lambda: ps[0].get_logical_axes(st), case)
      if ok:
        f = traverse_util.flatten_dict(unfreeze(got.state_dict()['state']), sep='/')
        hits = {k for k, x in f.items() if x is not None and 'expert' in str(x) and '/v_' in k}
        want = {'param_states/expert/kernel/v_row', 'param_states/expert/kernel/v_col'}
        ck.expect(hits == (set() if a == 'unfactored' else want), 'axes of a multi-optimizer', case,
                  None, sorted(hits))
