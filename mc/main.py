"""python -m mc.main <ID> <tier> [--replay FILE]"""
import importlib
import os
import sys

from mc import env


def main():
  pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
  replay = sys.argv[4] if len(sys.argv) > 4 and sys.argv[3] == '--replay' else None
  sys.path.insert(0, os.path.join(env.HERE, 'checks'))
  import importlib.util
  spec = importlib.util.find_spec(f'{pid.lower()}')
  env.setup(env.options(spec.origin))
  from mc import core
  m = importlib.import_module(pid.lower())
  code = core.run(pid, m.check, tier, m.LEVEL, getattr(m, 'RULE', ''),
                  getattr(m, 'ASSUMPTIONS', ()), replay)
  sys.stdout.flush()
  sys.stderr.flush()
  os._exit(code)


if __name__ == '__main__':
  main()
