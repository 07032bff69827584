"""Runs a check's work items in worker processes (imports done afresh in each)."""
import importlib
import importlib.util
import os
import pickle
import subprocess
import sys
import tempfile


RUNNING = []


def pmap(module, func, items, jobs=6):
  """[module.func(x) for x in items], spread over processes."""
  items = list(items)
  jobs = max(1, min(jobs, len(items)))
  with tempfile.TemporaryDirectory(prefix='verifpar') as d:
    procs = []
    for j in range(jobs):
      src, dst = os.path.join(d, f'{j}.in'), os.path.join(d, f'{j}.out')
      with open(src, 'wb') as f:
        pickle.dump((module, func, items[j::jobs]), f)
      procs.append((subprocess.Popen([sys.executable, '-m', 'mc.par', src, dst],
                                     env=os.environ), dst))
      RUNNING.append(procs[-1][0])
    out = [None] * len(items)
    for j, (p, dst) in enumerate(procs):
      p.wait()
      if not os.path.exists(dst):
        raise RuntimeError(f'worker {j} ended with {p.returncode}')
      with open(dst, 'rb') as f:
        out[j::jobs] = pickle.load(f)
    return out


def _worker(src, dst):
  from mc import env
  sys.path.insert(0, os.path.join(env.HERE, 'checks'))
  with open(src, 'rb') as f:
    module, func, items = pickle.load(f)
  env.setup(env.options(importlib.util.find_spec(module).origin))
  mod = importlib.import_module(module)
  res = []
  for x in items:
    res.append(getattr(mod, func)(x))
    env.collect()
  with open(dst + '.tmp', 'wb') as f:
    pickle.dump(res, f)
  os.rename(dst + '.tmp', dst)


if __name__ == '__main__':
  _worker(*sys.argv[1:])
