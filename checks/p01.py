"""P01: data layout of every host, default meshes."""
import collections
import itertools

import numpy as np

import lib_mesh as lm

TECHNIQUE = 'enum'
LEVEL = 'exploration'
RULE = ('every mesh of up to 16 (32) devices over one to three axes x every division among '
        'hosts x data axes x batch sizes, from the view of every host; default and explicit '
        'meshes of every listed TPU pod, host shape and submesh, of CPU and GPU clusters and of '
        'multi-slice clusters; distinct = (devices, hosts, request)')
ASSUMPTIONS = ['devices are stand-ins; Mesh and NamedSharding are jax\'s own',
               'a host owns a contiguous block of the mesh, as jax requires']


def partitioner(partitioning, mesh, **kw):
  return type('P', (partitioning.PjitPartitioner,), dict(mesh=mesh))(num_partitions=1, **kw)


def layouts(ck, make, devices, mesh, data_axes, batch, case):
  """Layouts of all hosts of one mesh, checked against the placement of the batch."""
  hosts = sorted({d.process_index for d in devices})
  rows = {}
  place = lm.boxes(mesh, (data_axes,), (batch,))
  lays = []
  for h in hosts:
    with lm.world(devices, h):
      ok, lay = ck.guarded('computing the data layout', lambda: make().get_data_layout(batch),
                           dict(case, host=h))
    if not ok:
      return
    lays.append(lay)
    rows[h] = frozenset(i for d, b in place.items() if d.process_index == h
                        for i in range(*b[0]))
  ck.expect(len({l.num_shards for l in lays}) == 1 and all(l.batch_size == batch for l in lays),
            'hosts disagree on the layout', case, None, lays)
  n = lays[0].num_shards
  ck.expect({l.shard_id for l in lays} == set(range(n)), 'shards left unassigned', case,
            n, [l.shard_id for l in lays])
  by_shard = collections.defaultdict(set)
  first = collections.Counter()
  for h, l in zip(hosts, lays):
    by_shard[l.shard_id].add(rows[h])
    first[l.shard_id] += bool(l.is_first_host_in_replica_set)
  ck.expect(all(len(v) == 1 for v in by_shard.values()),
            'hosts with the same shard hold different parts of the batch', case, None,
            {k: [sorted(x) for x in v] for k, v in by_shard.items()})
  ck.expect(len({next(iter(v)) for v in by_shard.values()}) == n,
            'hosts with the same part of the batch get different shards', case)
  cover = collections.Counter(i for v in by_shard.values() for i in next(iter(v)))
  ck.expect(set(cover) == set(range(batch)) and set(cover.values()) == {1},
            'shards do not cover the batch exactly once', case, None, dict(cover))
  ck.expect(all(first[s] == 1 for s in range(n)), 'not exactly one first host per shard', case,
            None, dict(first))
  ck.expect(batch % n == 0, 'the batch is not divisible by the shards', case)
  return lays


def check(ck):
  from t5x import partitioning
  import jax

  # ---- layouts on every mesh
  ck.part('layouts')
  names = ('replica', 'data', 'model')
  for rank in (1, 2, 3):
    for total in ck.pick((1, 2, 4, 6, 8, 12), (1, 2, 3, 4, 6, 8, 12, 16, 24)):
      for shape in lm.factorizations(total, rank):
        nm = {1: ('data',), 2: ('data', 'model'), 3: names}[rank]
        for local in itertools.product(*map(lm.divisors, shape)):
          nh = int(np.prod(shape) // np.prod(local))
          for order in ((0,) if nh == 1 else (0, 1) if nh == 2 else (0, 1, 2)):
            devs = lm.blocks(shape, local, order)
            flat = list(devs.reshape(-1))
            mesh = jax.sharding.Mesh(devs, nm)
            for axes in (('data',),) + ((('replica', 'data'),) if rank == 3 else ()):
              dm = int(np.prod([mesh.shape[a] for a in axes]))
              kw = dict(ici_mesh_shape=(1,), dcn_mesh_shape=(1,)) if len(axes) == 2 else {}
              made = []

              def make():
                # a partitioner of this host (its chunker looks at the process index)
                p = partitioner(partitioning, mesh, **kw)
                made.append(p)
                return p
              case = dict(mesh=dict(zip(nm, shape)), devices_per_host=local, numbering=order,
                          data_axes=axes)
              for batch in (dm, 3 * dm):
                lays = layouts(ck, make, flat, mesh, axes if len(axes) > 1 else axes[0], batch,
                               dict(case, batch=batch))
                ck.case((shape, local, order, axes, batch),
                        sample=dict(case, batch=batch, layouts=[
                            vars(l) for l in lays[:4]]) if nh == 4 and lays else None)
              with lm.world(flat, 0):
                p = partitioner(partitioning, mesh, **kw)
                ck.expect(p.get_data_layout().batch_size == dm, 'default batch size', case, dm,
                          p.get_data_layout().batch_size)
                ck.expect(p.data_mesh_size == dm, 'data mesh size', case, dm, p.data_mesh_size)
                ck.expect(p.data_shards == p.get_data_layout().num_shards, 'data shards', case)
                for bad in sorted({dm - 1, dm + 1, 2 * dm + 1, 3 * dm - 1}):
                  if bad > 0 and bad % dm:
                    ck.case((shape, local, order, axes, bad))
                    ck.expect_raises('a batch that cannot be split evenly',
                                     lambda: p.get_data_layout(bad), dict(case, batch=bad),
                                     ValueError)

  # ---- the batch is not sharded at all
  ck.part('replicated batch')
  for hosts in (1, 2, 4):
    devs = lm.cluster(hosts, 2)
    mesh = jax.sharding.Mesh(np.array(devs, object).reshape(hosts, 2), ('data', 'model'))
    first = 0
    for h in range(hosts):
      with lm.world(devs, h):
        p = partitioner(partitioning, mesh, logical_axis_rules=[('batch', None)])
        lay = p.get_data_layout(5)
        first += lay.is_first_host_in_replica_set
        ck.case(('replicated', hosts, h))
        ck.expect((lay.batch_size, lay.shard_id, lay.num_shards) == (5, 0, 1),
                  'a replicated batch has one shard', dict(hosts=hosts, host=h), None, vars(lay))
    ck.expect(first == 1, 'not exactly one first host', dict(hosts=hosts), 1, first)

  # ---- default meshes
  ck.part('TPU meshes')
  for kind, pods, sizes in (('TPU v3', lm.V3, (1, 2, 4, 8, 16)), ('TPU v2', lm.V3[:4], (1, 2, 4, 8)),
                            ('TPU v4', lm.V4, (1, 2, 4, 8, 16)),
                            ('TPU v4 lite', lm.V4[:4], (1, 2, 4, 8))):
    for pod, host in pods:
      n = int(np.prod(pod))
      if n > ck.pick(128, 512):
        continue
      devices = lm.tpu(pod, host, kind)
      for size in sizes:
        if n % size:
          continue
        case = dict(kind=kind, pod=pod, chips_per_host=host, num_partitions=size)
        whole_mesh(ck, partitioning, devices, case, size, num_partitions=size)
      for sub in itertools.product(*map(lm.divisors, pod)):
        size = int(np.prod(sub))
        case = dict(kind=kind, pod=pod, chips_per_host=host, submesh=sub)
        whole_mesh(ck, partitioning, devices, case, size, model_parallel_submesh=sub)
      # a submesh that does not divide the pod is refused
      for axis in range(3):
        sub = [1, 1, 1, 1]
        sub[axis] = pod[axis] + 1
        ck.case((kind, pod, host, tuple(sub)))
        with lm.world(devices, 0):
          ck.expect_raises('a submesh that does not divide the devices', lambda:
                           partitioning.default_mesh(1, tuple(sub)),
                           dict(pod=pod, submesh=sub), Exception)

  ck.part('CPU and GPU meshes')
  for hosts, per in itertools.product((1, 2, 3, 4, 8), (1, 2, 4, 8)):
    devices = lm.cluster(hosts, per, 'cpu')
    whole_mesh(ck, partitioning, devices, dict(platform='cpu', hosts=hosts, per_host=per), per,
               num_partitions=1)
    devices = lm.cluster(hosts, per, 'gpu')
    for size in sorted({1, 2, 4, 8, per, per * 2, per * hosts, 3}):
      case = dict(platform='gpu', hosts=hosts, per_host=per, num_partitions=size)
      fits = (per % size == 0 if size <= per else (size % per == 0 and hosts % (size // per) == 0))
      if fits:
        whole_mesh(ck, partitioning, devices, case, size, num_partitions=size)
      else:
        ck.case(('gpu', hosts, per, size))
        with lm.world(devices, 0):
          ck.expect_raises('a partition count that does not fit the devices', lambda:
                           partitioning.default_mesh(size), case, Exception)

  ck.part('multi-slice meshes')
  for slices, per_slice in itertools.product((2, 3, 4), (1, 2, 4)):
    devices = lm.cluster(slices * per_slice, 2, 'cpu', slices=slices)
    n = per_slice * 2
    for ici in lm.factorizations(n, 3):
      for dcn in ((slices, 1, 1), (1, slices, 1)):
        case = dict(slices=slices, hosts_per_slice=per_slice, ici=ici, dcn=dcn)
        with lm.world(devices, 0):
          ok, mesh = ck.guarded('multi-slice mesh', lambda: partitioning.default_mesh(
              1, ici_mesh_shape=ici, dcn_mesh_shape=dcn), case)
        if not ok:
          continue
        ck.case(str(case), sample=case)
        ck.expect(tuple(mesh.axis_names) == ('replica', 'data', 'model') and
                  tuple(mesh.devices.shape) == tuple(a * b for a, b in zip(ici, dcn)),
                  'wrong multi-slice mesh', case, None, dict(mesh.shape))
        once(ck, devices, mesh, case)

  ck.part('refusals')
  ck.expect_raises('neither size nor submesh', lambda: partitioning.PjitPartitioner(), None,
                   ValueError)
  devices = lm.tpu((2, 2, 1, 2), (2, 2, 1), 'TPU v3')
  with lm.world(devices, 0):
    for size in (3, 5, 32):
      ck.case(('none', size))
      ck.expect_raises('an unsupported size', lambda: partitioning.default_mesh(size), size, Exception)


def once(ck, devices, mesh, case):
  ids = sorted(d.id for d in mesh.devices.reshape(-1))
  return ck.expect(ids == sorted(d.id for d in devices), 'the mesh does not use every device '
                   'exactly once', case, len(devices), ids)


def whole_mesh(ck, partitioning, devices, case, model_size, **kw):
  import jax
  hosts = sorted({d.process_index for d in devices})
  with lm.world(devices, 0):
    if 'num_partitions' in kw:
      make = lambda: partitioning.default_mesh(kw['num_partitions'])
    else:
      make = lambda: partitioning.default_mesh(1, kw['model_parallel_submesh'])
    try:
      mesh = make()
    except AssertionError:
      mesh = None  # the request does not fit the topology
    except Exception as e:  # pylint: disable=broad-except
      ck.violation(f'building the mesh: {e!r}', case)
      return
  ck.case(str(case), sample=dict(case, mesh=None if mesh is None else dict(mesh.shape))
          if model_size == 4 else None)
  fits = must_fit(devices, kw)
  if mesh is None:
    ck.expect(not fits, 'a mesh that fits the devices was refused', case)
    return
  once(ck, devices, mesh, case)
  ck.expect(tuple(mesh.axis_names) == ('data', 'model'), 'mesh axes', case, None, mesh.axis_names)
  ck.expect(mesh.shape['model'] == model_size, 'model-parallel size', case, model_size,
            mesh.shape['model'])
  if 'model_parallel_submesh' in kw:
    want = kw['model_parallel_submesh']
    for i, row in enumerate(mesh.devices):
      at = np.array([tuple(d.coords) + (d.core_on_chip,) for d in row])
      size = tuple(int(x) for x in at.max(0) - at.min(0) + 1)
      if not ck.expect(size == tuple(kw['model_parallel_submesh']) and not (at.min(0) % size).any(),
                       'a model-parallel group is not a tile of the hardware mesh', dict(case, group=i), want, at):
        break
  contiguous = True
  for h in hosts:
    with lm.world(devices, h):
      try:
        mesh.local_mesh  # pylint: disable=pointless-statement
      except ValueError:
        contiguous = False
        break
  if not contiguous:
    ck.expect(not fits, 'the devices of a host are not a block of the mesh', case)
    return
  if len(devices) <= 64:
    batch = mesh.shape['data'] * 2

    def part():
      return partitioner(partitioning, mesh)
    layouts(ck, part, devices, mesh, 'data', batch, case)


def must_fit(devices, kw):
  """Requests the documentation promises to serve."""
  if 'model_parallel_submesh' not in kw:
    return not hasattr(devices[0], 'coords') or standard(devices, kw['num_partitions'])
  sub = kw['model_parallel_submesh']
  pod = tuple(max(d.coords[i] for d in devices) + 1 for i in range(3)) + (
      max(d.core_on_chip for d in devices) + 1,)
  if sub[3] != pod[3]:
    return False  # documented advice: use all cores of a chip first
  loc = [d for d in devices if d.process_index == 0]
  host = tuple(max(d.coords[i] for d in loc) + 1 for i in range(3)) + (pod[3],)
  return all(g % m == 0 and g % l == 0 and (m % l == 0 or l % m == 0)
             for g, m, l in zip(pod, sub, host))


def standard(devices, n):
  """Default sizes every pod with at least two by two chips and n devices per plane serves."""
  x, y = (max(d.coords[i] for d in devices) + 1 for i in range(2))
  cores = max(d.core_on_chip for d in devices) + 1
  need = {1: (1, 1), 2: (1, 2), 4: (2, 2), 8: (4, 2), 16: (4, 4)} if cores == 1 else {
      1: (1, 1), 2: (1, 1), 4: (2, 1), 8: (2, 2), 16: (4, 2)}
  return x >= need[n][0] and y >= need[n][1]
