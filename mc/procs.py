"""Runs a check's work items on real groups of jax processes over the loopback."""
import importlib
import importlib.util
import os
import pickle
import socket
import subprocess
import sys
import tempfile
import time


class Hung(Exception):
  """A group of processes did not finish in time."""


def _port():
  with socket.socket() as s:
    s.bind(('127.0.0.1', 0))
    return s.getsockname()[1]


class Group:
  """`processes` jax processes with `devices` local devices each."""

  def __init__(self, module, func, items, processes, devices):
    self.dir = tempfile.TemporaryDirectory(prefix='verifprocs')
    self.n = len(list(items))
    src = os.path.join(self.dir.name, 'in')
    with open(src, 'wb') as f:
      pickle.dump((module, func, list(items)), f)
    port = _port()
    self.out = [os.path.join(self.dir.name, f'out{i}') for i in range(processes)]
    self.err = [open(os.path.join(self.dir.name, f'err{i}'), 'wb') for i in range(processes)]
    self.procs = [
        subprocess.Popen([sys.executable, '-m', 'mc.procs', src, self.out[i], str(i), str(processes),
                          str(devices), str(port)], env=dict(os.environ, NPROC='1'), stderr=self.err[i])
        for i in range(processes)]

  def results(self, timeout=420):
    """results()[process][item] = ('ok', value) | ('raised', text); fewer if it died."""
    end = time.monotonic() + timeout
    hung = False
    for p in self.procs:
      try:
        p.wait(max(0.1, end - time.monotonic()))
      except subprocess.TimeoutExpired:
        hung = True
    for p in self.procs:
      if p.poll() is None:
        p.kill()
        p.wait()
    res = []
    for o in self.out:
      r = []
      if os.path.exists(o):
        with open(o, 'rb') as f:
          while True:
            try:
              r.append(pickle.load(f))
            except EOFError:
              break
      res.append(r)
    for i, e in enumerate(self.err):
      e.close()
      if os.environ.get('VERIF_VERBOSE') and len(res[i]) < self.n:
        with open(e.name, 'rb') as f:
          sys.stderr.write(f.read()[-2000:].decode(errors='replace'))
    self.dir.cleanup()
    if hung:
      raise Hung(f'finished {[len(r) for r in res]} of {self.n} items')
    return res


def _worker(src, dst, index, processes, devices, port):
  import traceback
  from mc import env
  sys.path.insert(0, os.path.join(env.HERE, 'checks'))
  with open(src, 'rb') as f:
    module, func, items = pickle.load(f)
  env.setup(devices)
  import jax
  jax.config.update('jax_cpu_collectives_implementation', 'gloo')
  jax.config.update('jax_cpu_enable_async_dispatch', False)
  jax.distributed.initialize(f'127.0.0.1:{port}', processes, index)
  mod = importlib.import_module(module)
  with open(dst, 'wb') as out:
    for x in items:
      try:
        r = ('ok', getattr(mod, func)(x))
      except Exception as e:  # pylint: disable=broad-except
        r = ('raised', f'{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}')
      pickle.dump(r, out)
      out.flush()
  # All leave together: the death of one is an error to the others.
  open(dst + '.done', 'wb').close()
  end = time.monotonic() + 300
  while time.monotonic() < end and not all(
      os.path.exists(f'{dst[:-len(str(index))]}{i}.done') for i in range(processes)):
    time.sleep(0.05)
  time.sleep(0.2 if index else 0.6)
  sys.stdout.flush()
  os._exit(0)


if __name__ == '__main__':
  _worker(sys.argv[1], sys.argv[2], *map(int, sys.argv[3:]))
