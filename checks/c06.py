"""C06: the chunks of all hosts tile every array."""
import collections
import itertools
import json
import os

import numpy as np

import lib_ckpt as lc
import lib_mesh as lm
from mc import crashfs

TECHNIQUE = 'enum'
LEVEL = 'exploration'
RULE = ('every mesh of up to 16 (32) devices and three axes x every division among hosts x '
        'three host numberings x every assignment of mesh axes to the dimensions of arrays up '
        'to rank three, from the view of every host; every shape up to a size x every chunk '
        'limit; saved arrays on disk for every mesh of a menu; distinct = (mesh, hosts, spec)')
ASSUMPTIONS = ['sharded dimensions are divisible by their mesh axis, as jax requires',
               'a host owns a contiguous block of the mesh, as jax requires']


def check(ck):
  from t5x import partitioning, checkpoints
  import jax

  ck.part('chunks of every host')
  names = ('replica', 'data', 'model')
  n_meshes = 0
  for rank in (1, 2, 3):
    for total in ck.pick((1, 2, 3, 4, 6, 8, 12), (1, 2, 3, 4, 6, 8, 12, 16, 24)):
      for shape in lm.factorizations(total, rank):
        for local in itertools.product(*map(lm.divisors, shape)):
          nh = int(np.prod(shape) // np.prod(local))
          for order in ((0,) if nh == 1 else (0, 1) if nh == 2 else (0, 1, 2)):
            if order == 2 and not ck.thorough and total > 6:
              continue
            n_meshes += 1
            one_mesh(ck, partitioning, jax, names[-rank:], shape, local, nh, order)
  ck.trace(n_meshes)

  ck.part('write granularity')
  top = ck.pick(12, 24)
  shapes = [(), *((a,) for a in range(1, 65)), *itertools.product(range(1, top + 1), repeat=2)]
  shapes += list(itertools.product((1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16), repeat=3))
  shapes += list(itertools.product((1, 2, 3, 8, 9), repeat=4))
  for s in shapes:
    n = int(np.prod(s)) if s else 1
    targets = sorted({1, 2, 3, 5, 7, n // 3, n // 2, n - 1, n, n + 1, 1.5, n / 2.5} - {0})
    for t in targets:
      if t < 1:
        continue
      ok, c = ck.guarded('choosing a chunk shape', lambda: checkpoints._choose_chunk_shape(  # pylint: disable=protected-access
          list(s), t), dict(shape=s, limit=t))
      if not ok:
        continue
      ck.case((s, t), sample=dict(shape=s, limit=t, chunk=c) if n > 90 else None)
      ck.expect(len(c) == len(s) and all(a % b == 0 for a, b in zip(s, c)),
                'the chunk shape does not divide the array', dict(shape=s, limit=t), None, c)
      ck.expect(np.prod(c) <= t, 'a chunk exceeds the size limit', dict(shape=s, limit=t), t, c)
      if n <= t:
        ck.expect(list(c) == list(s), 'an array within the limit was divided',
                  dict(shape=s, limit=t), s, c)

  ck.part('saved host arrays')
  saved(ck, partitioning, checkpoints, jax)


def one_mesh(ck, partitioning, jax, names, shape, local, nh, order):
  devs = lm.blocks(shape, local, order)
  flat = list(devs.reshape(-1))
  chunkers = []
  mesh = jax.sharding.Mesh(devs, names)
  for h in range(nh):
    with lm.world(flat, h):
      chunkers.append(partitioning.LocalChunker(mesh))
  sizes = dict(zip(names, shape))
  for rank in (0, 1, 2, 3):
    for spec in itertools.product((None,) + names, repeat=rank):
      used = [a for a in spec if a]
      if len(set(used)) != len(used):
        continue
      mult = {1: (1, 2), 2: (1, 3), 3: (2, 1)}
      arr = tuple((sizes[a] if a else 1) * mult[i + 1][(order + rank) % 2]
                  for i, a in enumerate(spec))
      case = dict(mesh=dict(zip(names, shape)), devices_per_host=local, numbering=order,
                  array=arr, axes=spec)
      ck.case((shape, local, order, spec),
              sample=case if len(used) == 2 and nh > 3 else None)
      place = lm.boxes(mesh, spec, arr)
      got = []
      for h, c in enumerate(chunkers):
        with lm.world(flat, h):
          ok, info = ck.guarded('computing the local chunk', lambda: c.get_local_chunk_info(
              arr, spec), dict(case, host=h))
        if not ok:
          return
        box = tuple(sl.indices(n)[:2] for sl, n in zip(info.slice, arr))
        step_ok = all(sl.step in (None, 1) for sl in info.slice)
        mine = [b for d, b in place.items() if d.process_index == h]
        hull = tuple((min(b[i][0] for b in mine), max(b[i][1] for b in mine))
                     for i in range(rank))
        ck.expect(step_ok and box == hull,
                  "a host's slice is not the data its devices hold", dict(case, host=h), hull, box)
        got.append((box, int(info.replica_id)))
      by_box = collections.defaultdict(list)
      for b, r in got:
        by_box[b].append(r)
      for b, rs in by_box.items():
        ck.expect(len(set(rs)) == len(rs) and 0 in rs,
                  'not exactly one replica of a chunk is the first',
                  dict(case, chunk=b), list(range(len(rs))), sorted(rs))
      count = collections.Counter()
      for b in by_box:
        count.update(lm.cells(b))
      want = lm.cells(tuple((0, n) for n in arr))
      ck.expect(set(count) == want and all(v == 1 for v in count.values()),
                'the distinct chunks do not tile the array', case, len(want), len(count))


def saved(ck, partitioning, checkpoints, jax):
  """Host-resident arrays: what reaches the disk is whole and divides evenly."""
  from t5x import train_state as ts
  from flax.core import freeze
  from flax.linen import partitioning as fp
  rules = [('a', 'data'), ('b', 'model'), ('c', None), ('d', None), ('batch', 'data')]
  with crashfs.Scratch() as scratch:
    for shape, local in (((4, 2), (1, 2)), ((4, 2), (2, 1)), ((2, 2), (1, 1)), ((1, 4), (1, 1)),
                         ((4, 1), (4, 1))):
      devs = lm.blocks(shape, local)
      # the saving process is 0 of the real, single-process world; the mesh names four hosts
      mesh = jax.sharding.Mesh(devs, ('data', 'model'))
      P = type('P', (partitioning.PjitPartitioner,), dict(mesh=mesh))

      for arr, axes in (((8, 4), ('a', 'b')), ((4, 8), ('b', 'a')), ((12,), ('a',)),
                        ((5, 8), ('c', 'b')), ((3, 5), ('c', 'd')), ((8, 3, 4), ('a', 'c', 'b'))):
        for limit in (8, 24, 64, 1 << 20):
          part = P(num_partitions=1, params_on_devices=False, logical_axis_rules=rules)
          x = lc.value(1, 2, arr)
          st = ts.InferenceState.create(freeze({
              'params': {'w': x}, 'params_axes': {'w_axes': fp.AxisMetadata(names=axes)}}))
          old = checkpoints._DESIRED_CHUNK_SIZE_BYTES  # pylint: disable=protected-access
          checkpoints._DESIRED_CHUNK_SIZE_BYTES = limit  # pylint: disable=protected-access
          d = scratch.new()
          case = dict(mesh=shape, devices_per_host=local, array=arr, axes=axes, limit_bytes=limit)
          try:
            ok, _ = ck.guarded('saving', lambda: checkpoints.Checkpointer(st, part, d).save(st), case)
          finally:
            checkpoints._DESIRED_CHUNK_SIZE_BYTES = old  # pylint: disable=protected-access
          if not ok:
            continue
          ck.case((shape, local, arr, axes, limit), sample=case)
          z = json.load(open(os.path.join(d, 'checkpoint_0', 'target.w', '.zarray')))
          spec = [dict(a='data', b='model').get(a) for a in axes]
          sizes, loc = dict(zip(('data', 'model'), shape)), dict(zip(('data', 'model'), local))
          chunk = [n // (sizes[s] // loc[s]) if s else n for n, s in zip(arr, spec)]
          ck.expect(tuple(z['shape']) == arr, 'wrong shape on disk', case, arr, z['shape'])
          ck.expect(all(a % b == 0 for a, b in zip(chunk, z['chunks'])),
                    "stored chunks straddle a host's part of the array", case, chunk, z['chunks'])
          ck.expect(np.prod(z['chunks']) * 4 <= max(limit, 4), 'stored chunks exceed the limit',
                    case, limit, z['chunks'])
          back = checkpoints.load_t5x_checkpoint(d, step=0, lazy_parameters=False)
          ck.expect(np.array_equal(back['target']['w'], x), 'the array on disk is not the array saved',
                    case)
          scratch.clear(d)
