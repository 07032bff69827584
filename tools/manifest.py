"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import importlib.util
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PENDING = 'check not built yet'
TECH = {
    'crash': 'model checking of the real code: exhaustive crash-point enumeration with recovery on every distinct on-disk state',
    'sched': 'model checking of the real code: exhaustive schedule enumeration under a controlled scheduler, deviation-bounded',
    'hist': 'model checking of the real code: exhaustive operation-history enumeration against a reference state machine',
    'enum': 'bounded exhaustive model checking of the real code: every input of a finite alphabet up to the stated bound against a reference model',
}


def attr(src, name, default=None):
  m = re.search(rf'^{name} = (\(.*?\)|\'.*?\'(?:\n    \'.*?\')*)$', src, re.M | re.S)
  return eval(m.group(1)) if m else default  # pylint: disable=eval-used


checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
  p = json.loads(line)
  f = os.path.join(HERE, 'checks', p['id'].lower() + '.py')
  if not os.path.exists(f):
    na.append(dict(property=p['id'], reason=PENDING))
    continue
  src = open(f).read()
  tech = attr(src, 'TECHNIQUE', 'enum')
  checks.append(dict(
      property=p['id'],
      quick_cmd=f'./run.sh {p["id"]} quick',
      thorough_cmd=f'./run.sh {p["id"]} thorough',
      evidence_file=f'evidence/{p["id"]}.json',
      technique=TECH.get(tech, tech),
      level=attr(src, 'LEVEL'),
      level_note=attr(src, 'RULE') or ''))
  assert checks[-1]['level'] and checks[-1]['level_note'], p['id']
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks,
               not_applicable=na),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'pending')
