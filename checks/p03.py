"""P03: the partitioned function equals the plain one, placed as asked."""
import itertools

import numpy as np

import lib_ckpt as lc

TECHNIQUE = 'enum'
LEVEL = 'exploration'
N_DEVICES = 8
RULE = ('every factorization of one to eight devices into mesh axes x every valid partition spec '
        'of inputs and outputs x traced, lowered and compiled forms; all states of the listed '
        'optimizers moved to every mesh; distinct = (mesh, specs, form)')
ASSUMPTIONS = ['array dimensions are divisible by the mesh axes they are placed on',
               'eight simulated CPU devices']


def specs(names, rank):
  """Partition specs of an array: every assignment of distinct mesh axes to dimensions."""
  opts = [None] + list(names) + [t for k in range(2, len(names) + 1)
                                 for t in itertools.permutations(names, k)]
  for combo in itertools.product(opts, repeat=rank):
    used = [a for x in combo if x is not None for a in (x if isinstance(x, tuple) else (x,))]
    if len(set(used)) == len(used):
      yield combo


def check(ck):
  import jax
  import jax.numpy as jnp
  from flax.core import freeze, unfreeze
  from flax.linen import partitioning as fp
  from flax.linen.partitioning import AxisMetadata
  from jax.sharding import NamedSharding, PartitionSpec as P
  from t5x import adafactor, optimizers, partitioning
  from t5x import train_state as ts
  from t5x.contrib.moe import partitioning as moe
  from jax._src import mesh as jmesh

  rng = np.random.RandomState(0)
  x0 = rng.randint(-4, 5, (8, 16)).astype(np.float32)
  y0 = rng.randint(-4, 5, (16, 8)).astype(np.float32)
  meshes = [((d, m), ('data', 'model')) for n in (1, 2, 4, 8) for d, m in
            [(a, n // a) for a in range(1, n + 1) if n % a == 0]]
  meshes3 = [((2, 2, 2), ('replica', 'data', 'model')), ((1, 4, 2), ('replica', 'data', 'model')),
             ((8, 1, 1), ('replica', 'data', 'model'))]
  rules = partitioning.standard_logical_axis_rules(2, 2)

  def placed(arr, mesh, spec):
    return arr.sharding.is_equivalent_to(NamedSharding(mesh, P() if spec is None else P(*spec)),
                                         arr.ndim)

  seen = []

  def fn(x, y):
    seen.append((fp.get_axis_rules(), jmesh.thread_resources.env.physical_mesh))
    return dict(prod=x @ y, sq=x * x - 3), y.T

  want = dict(prod=x0 @ y0, sq=x0 * x0 - 3), y0.T

  # ---- specs
  ck.part('specs')
  for (shape, names) in meshes + meshes3:
    p = lc.mesh_partitioner(shape, rules, names)
    all2 = list(specs(names, 2))
    dims = dict(zip(names, shape))
    size = lambda e: int(np.prod([dims[a] for a in (e if isinstance(e, tuple) else (e,)) if a]))
    all2 = [s for s in all2 if size(s[0]) <= 8 and size(s[1]) <= 8]
    full = ck.thorough or shape in ((4, 2),)
    k = len(all2)
    pairs = [(i, j) for i in range(k) for j in range(k)] if full and k < 40 else [
        (i, (i * 7 + 3) % k) for i in range(k)]
    for i, j in pairs:
      sx, so = all2[i], all2[j]
      sy = all2[(i + j) % k]
      case = dict(mesh=dims, in_specs=[sx, sy], out_spec=so)
      ins = (P(*sx), P(*sy))
      outs = (dict(prod=P(*so), sq=None), P(*sx))
      seen.clear()
      f = p.partition(lambda x, y: fn(x, y), ins, outs)  # not traced before
      before = fp.get_axis_rules()
      forms = [('traced', lambda: f(x0, y0))]
      if i == j or (not full and i % 3 == 0) or ck.thorough:
        gx = jax.device_put(x0, NamedSharding(p.mesh, P(*sx)))
        gy = jax.device_put(y0, NamedSharding(p.mesh, P(*sy)))
        forms.append(('compiled', lambda: p.compile(f, gx, gy)(gx, gy)))
        forms.append(('lowered', lambda: f.lower(gx, gy).compile()(gx, gy)))
      for form, run in forms:
        ck.case((shape, names, sx, sy, so, form), sample=dict(case, form=form) if i == 3 else None)
        ok, got = ck.guarded('running the partitioned function', run, dict(case, form=form))
        if not ok:
          continue
        same = jax.tree_util.tree_map(lambda a, b: bool((np.asarray(a) == b).all()), got, want)
        ck.expect(all(jax.tree_util.tree_leaves(same)), 'another value than unpartitioned',
                  dict(case, form=form), None, same)
        ck.expect(placed(got[0]['prod'], p.mesh, so) and placed(got[0]['sq'], p.mesh, ()) and
                  placed(got[1], p.mesh, sx), 'outputs placed elsewhere', dict(case, form=form),
                  None, [str(a.sharding) for a in jax.tree_util.tree_leaves(got)])
        ck.expect(fp.get_axis_rules() == before and
                  jmesh.thread_resources.env.physical_mesh.empty, 'context left behind', case)
      for r, m in seen:
        ck.expect(tuple(r) == tuple(p.logical_axis_rules) and m == p.mesh,
                  'the function runs without the mesh and rules of the partitioner', case, None,
                  (str(r), str(m)))
      ck.expect(bool(seen), 'the function never ran', case)

  # the context is left when the function raises
  def bad(x):
    raise KeyError('no')
  for shape, names in meshes[:4]:
    p = lc.mesh_partitioner(shape, rules, names)
    before = fp.get_axis_rules()
    for call in (lambda f: f(x0), lambda f: f.lower(x0)):
      ck.case(('raises', shape))
      ck.expect_raises('an error inside', lambda: call(p.partition(bad, (None,), None)), shape, KeyError)
      ck.expect(fp.get_axis_rules() == before and
                jmesh.thread_resources.env.physical_mesh.empty, 'context left after an error', shape)

  # ---- static and donated arguments
  ck.part('static and donated arguments')
  for shape, names in [meshes[0], meshes[4], meshes[7]] if not ck.thorough else meshes:
    p = lc.mesh_partitioner(shape, rules, names)

    def g(a, n, b):
      for _ in range(n):
        a = a + b
      return a, b * n
    for static in (1, (1,)):
      for donate in ((), 0, (0,), (2,), (0, 2)):
        for spec in (None, P('data'), P('model', 'data')):
          a = jax.device_put(x0, NamedSharding(p.mesh, spec or P()))
          b = jax.device_put(x0 + 1, NamedSharding(p.mesh, spec or P()))
          case = dict(mesh=shape, static=static, donate=donate, spec=str(spec))
          ck.case(str(case))
          f = p.partition(g, (spec, spec), (spec, spec), static_argnums=static,
                          donate_argnums=donate)
          ok, got = ck.guarded('running with static arguments', lambda: f(a, 3, b), case)
          if ok:
            ck.expect(np.array_equal(got[0], x0 + 3 * (x0 + 1)) and
                      np.array_equal(got[1], 3 * (x0 + 1)), 'wrong value', case)
            dn = (donate,) if isinstance(donate, int) else donate
            ck.expect(a.is_deleted() == (0 in dn) and b.is_deleted() == (2 in dn),
                      'wrong buffers donated', case, dn, (a.is_deleted(), b.is_deleted()))

  # ---- expert partitioner
  ck.part('expert data axes')
  for shape in [s for n in (1, 2, 4, 8) for s in
                [(a, b, n // a // b) for a in range(1, n + 1) for b in range(1, n + 1)
                 if n % (a * b) == 0]]:
    mesh = jax.sharding.Mesh(np.array(jax.devices()[:int(np.prod(shape))]).reshape(shape),
                             ('data', 'expert', 'model'))
    p = type('M', (moe.MoePjitPartitioner,), dict(mesh=mesh))(num_expert_partitions=1,
                                                              num_partitions=1)
    case = dict(mesh=shape)
    for spec in (P('data'), P('expert'), P(None, 'data')):
      ck.case((shape, str(spec)), sample=case)
      seen.clear()
      f = p.partition(fn, (spec, None), (None, spec))
      ok, got = ck.guarded('running on an expert mesh', lambda: f(x0, y0), case)
      if not ok:
        continue
      want_spec = (('expert', 'data'),) if spec == P('data') else tuple(spec)
      ck.expect(np.array_equal(got[0]['prod'], want[0]['prod']) and placed(got[1], mesh, want_spec),
                'value or placement on an expert mesh', case, want_spec, str(got[1].sharding))
      ok, c = ck.guarded('compiling on an expert mesh', lambda: p.compile(f, x0, y0), case)

  # ---- moving a train state
  ck.part('moving states')
  params = dict(a=dict(kernel=rng.randn(8, 16).astype(np.float32), bias=rng.randn(16).astype(np.float32)),
                emb=rng.randn(16, 8).astype(np.float32), temp=np.float32(2.5))
  axes = dict(a=dict(kernel_axes=AxisMetadata(names=('embed', 'mlp')),
                     bias_axes=AxisMetadata(names=('mlp',))),
              emb_axes=AxisMetadata(names=('vocab', 'embed')), temp_axes=AxisMetadata(names=()))
  v = freeze(dict(params=params, params_axes=axes, stats=dict(m=rng.randn(8).astype(np.float32)),
                  stats_axes=dict(m_axes=AxisMetadata(names=('embed',)))))
  kinds = dict(adamw=lambda: optimizers.adamw(1e-3), momentum=lambda: optimizers.sgd(1e-3, momentum=0.9),
               adafactor=lambda: adafactor.Adafactor(0.1, min_dim_size_to_factor=2, logical_factor_rules=dict(
                   vocab=adafactor.FactorDim.COLUMN, embed=adafactor.FactorDim.ROW,
                   mlp=adafactor.FactorDim.COLUMN)),
               inference=None)
  for shape, names in meshes + meshes3:
    for act, par in itertools.product((1, 2), (1, 2)):
      p = lc.mesh_partitioner(shape, partitioning.standard_logical_axis_rules(act, par), names)
      for name, make in kinds.items():
        if not ck.thorough and (act, par) != (2, 2) and name != 'adamw':
          continue
        st = (ts.FlaxOptimTrainState.create(make(), v) if make else ts.InferenceState.create(v))
        host = jax.tree_util.tree_map(np.array, st)
        mesh_axes = p.get_mesh_axes(st)
        case = dict(mesh=dict(zip(names, shape)), dims=(act, par), state=name)
        ck.case(str(case), sample=case)
        ok, got = ck.guarded('moving the state', lambda: p.move_params_to_devices(host, mesh_axes), case)
        if not ok:
          continue
        flat = lambda t: jax.tree_util.tree_flatten(t, is_leaf=lambda z: z is None)[0]
        g, w, s = (flat(unfreeze(t.state_dict())) for t in (got, st, mesh_axes))
        s = jax.tree_util.tree_flatten(unfreeze(mesh_axes.state_dict()),
                                       is_leaf=lambda z: z is None or isinstance(z, P))[0]
        ck.expect(len(g) == len(w) == len(s), 'state structure changed', case, len(w), len(g))
        for a, b, sp in zip(g, w, s):
          ck.expect(np.array_equal(np.asarray(a), np.asarray(b)) and np.asarray(a).dtype == jnp.asarray(b).dtype,
                    'a value changed while moving', case)
          ck.expect(isinstance(a, jax.Array) and placed(a, p.mesh, sp), 'a leaf was not placed as its axes say', case, sp, str(
              getattr(a, 'sharding', type(a))))
        ck.expect(jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(st),
                  'state type changed', case)
