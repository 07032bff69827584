"""Writes a planted bug: seed(id, property, edits, needs, breaks, demo)."""
import json
import os
import shutil
import subprocess
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RS = '/tmp/rs'


def sync():
  subprocess.run(['rsync', '-a', '--delete', '/repo/', RS + '/'], check=False) if shutil.which('rsync') else (
      shutil.rmtree(RS, ignore_errors=True), subprocess.run(['cp', '-a', '/repo', RS], check=True))


def seed(id, prop, edits, needs, breaks, demo):
  d = os.path.join(HERE, 'seeded', id)
  os.makedirs(d, exist_ok=True)
  if not os.path.isdir(RS):
    sync()
  subprocess.run(['git', '-C', RS, 'checkout', '-q', '--', '.'], check=True)
  for f, old, new in edits:
    p = os.path.join(RS, f)
    s = open(p).read()
    if s.count(old) != 1:
      shutil.rmtree(d)
      print('BAD', id, f, s.count(old))
      return
    open(p, 'w').write(s.replace(old, new))
  diff = subprocess.run(['git', '-C', RS, 'diff'], check=True, capture_output=True, text=True).stdout
  open(os.path.join(d, 'patch.diff'), 'w').write(diff)
  subprocess.run(['git', '-C', RS, 'checkout', '-q', '--', '.'], check=True)
  json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
            open(os.path.join(d, 'meta.json'), 'w'), indent=1)
  shutil.copy(os.path.join(HERE, 'tools', 'prep.py'), os.path.join(d, 'prep.py'))
  open(os.path.join(d, 'demo.py'), 'w').write(textwrap.dedent(demo).lstrip())
  open(os.path.join(d, 'demo.sh'), 'w').write(
      '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
