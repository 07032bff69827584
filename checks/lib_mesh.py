"""Fake devices and hosts, with the real jax Mesh and NamedSharding on top."""
import contextlib
import itertools

import numpy as np


class Device:
  """Stands for an accelerator device."""

  def __init__(self, id, process_index, platform, kind, coords=None, core=0, slice_index=None):
    self.id, self.process_index = id, process_index
    self.platform, self.device_kind = platform, kind
    self.client = None
    if coords is not None:
      self.coords, self.core_on_chip = coords, core
    if slice_index is not None:
      self.slice_index = slice_index

  def __repr__(self):
    return f'd{self.id}@{self.process_index}'


def tpu(pod, host, kind):
  """Devices of a TPU pod (x, y, z, cores) whose hosts own (hx, hy, hz) chips."""
  out = []
  x, y, z, c = pod
  hx, hy, hz = host
  for k, (zz, yy, xx) in enumerate(itertools.product(range(z), range(y), range(x))):
    p = (zz // hz) * (y // hy) * (x // hx) + (yy // hy) * (x // hx) + xx // hx
    for cc in range(c):
      out.append(Device(k * c + cc, p, 'tpu', kind, (xx, yy, zz), cc))
  # jax lists devices by process, then in coordinate order
  return sorted(out, key=lambda d: (d.process_index, d.id))


def cluster(hosts, per_host, platform='gpu', slices=None):
  per_slice = hosts // slices if slices else None
  return [Device(h * per_host + i, h, platform, platform,
                 slice_index=None if slices is None else h // per_slice)
          for h in range(hosts) for i in range(per_host)]


def blocks(shape, local, order=0):
  """Mesh positions owned by equal contiguous blocks of hosts."""
  grid = [s // l for s, l in zip(shape, local)]
  n = int(np.prod(grid))
  devs = np.empty(shape, object)
  ids = itertools.count()
  for pos in itertools.product(*map(range, shape)):
    h = int(np.ravel_multi_index([p // l for p, l in zip(pos, local)], grid))
    if order == 1:
      h = n - 1 - h
    elif order == 2:
      h = (h * 3 + 1) % n if n % 3 else (h + 1) % n
    devs[pos] = Device(next(ids), h, 'tpu', 'TPU v4')
  return devs


@contextlib.contextmanager
def world(devices, host):
  """jax reports `devices`, seen from process `host`."""
  import jax
  import jax._src.xla_bridge as xb
  devices = list(devices)
  local = lambda p: [d for d in devices if d.process_index == p]
  new = dict(
      devices=lambda backend=None: devices,
      local_devices=lambda process_index=None, backend=None, host_id=None: local(
          host if process_index is None else process_index),
      process_index=lambda backend=None: host,
      process_count=lambda backend=None: len({d.process_index for d in devices}),
      local_device_count=lambda backend=None: len(local(host)),
      device_count=lambda backend=None: len(devices))
  saved = {(m, k): getattr(m, k) for m in (jax, xb) for k in new}
  try:
    for (m, k) in saved:
      setattr(m, k, new[k])
    yield
  finally:
    for (m, k), v in saved.items():
      setattr(m, k, v)


def boxes(mesh, spec, shape):
  """{device: ((start, stop), ...)} as jax places an array of `shape`."""
  import jax
  s = jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec(*spec))
  return {d: tuple(sl.indices(n)[:2] for sl, n in zip(idx, shape))
          for d, idx in s.devices_indices_map(tuple(shape)).items()}


def cells(box):
  return set(itertools.product(*(range(a, b) for a, b in box)))


def factorizations(n, rank):
  if rank == 1:
    yield (n,)
    return
  for d in range(1, n + 1):
    if n % d == 0:
      for rest in factorizations(n // d, rank - 1):
        yield (d,) + rest


def divisors(n):
  return [d for d in range(1, n + 1) if n % d == 0]


# TPU pods: (x, y, z, cores), chips of a host, kind
V3 = [((2, 2, 1, 2), (2, 2, 1)), ((4, 2, 1, 2), (2, 2, 1)), ((4, 4, 1, 2), (2, 2, 1)),
      ((4, 8, 1, 2), (2, 2, 1)), ((8, 8, 1, 2), (2, 2, 1)), ((8, 8, 1, 2), (4, 2, 1)),
      ((8, 16, 1, 2), (2, 2, 1)), ((2, 2, 1, 2), (1, 1, 1)), ((4, 4, 1, 2), (4, 2, 1)),
      ((8, 4, 1, 2), (2, 2, 1)), ((4, 4, 1, 2), (1, 2, 1))]
V4 = [((2, 2, 1, 1), (2, 2, 1)), ((2, 2, 2, 1), (2, 2, 1)), ((2, 2, 4, 1), (2, 2, 1)),
      ((2, 4, 4, 1), (2, 2, 1)), ((4, 4, 4, 1), (2, 2, 1)), ((4, 4, 8, 1), (2, 2, 1)),
      ((4, 8, 8, 1), (2, 2, 1)), ((8, 8, 8, 1), (2, 2, 1)), ((4, 4, 16, 1), (2, 2, 1)),
      ((8, 4, 4, 1), (2, 2, 1)), ((4, 2, 1, 1), (2, 2, 1)), ((2, 2, 16, 1), (2, 2, 1))]
