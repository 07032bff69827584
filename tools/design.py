"""Writes DESIGN.md from tools/design_head.md, the properties, the checks and the findings.

Run: python3 tools/design.py (uses evidence/*.json for the costs when present)."""
import ast
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {'crash': 'crash-point enumeration on the real code',
       'sched': 'schedule enumeration of the real code under a controlled scheduler',
       'hist': 'enumeration of operation histories on the real code next to a reference state machine',
       'enum': 'exhaustive enumeration of inputs and configurations on the real code next to a reference model'}
ORACLE = {
    'C01': 'the values handed to each save; every step listed by `all_steps`/`latest_step` in the image must restore to exactly them, and the next save must work',
    'C02': 'a set model (newest `keep` plus pinned; iterator states separately) that follows the same operations; directory bytes of retained checkpoints are compared before and after',
    'C03': 'a sort of the metric values as the documentation of SaveBestCheckpointer orders them; TensorBoard event files are really written and read',
    'C04': 'the saved arrays, cast once to the requested types, compared bit for bit with names, shapes and types; refused inputs must raise',
    'C05': 'a plain reading of the directory listing; each checkpoint holds values that name its step, so a wrong pick is visible',
    'C06': 'a counter per array element over the chunks of all hosts (each written exactly once by the hosts that write); chunk shapes must divide the shards and respect the limit',
    'C07': 'the C01/C02/C04/C05 oracles applied to OrbaxCheckpointManagerInterface',
    'C08': 'a byte counter around the stand-in storage operations: never more in flight than the budget, never a waiting request that fits, all requests finish, failures are reported',
    'C09': 'a ten-line reading of the assignment-map documentation (first matching pattern, group expansion, null skips, unmatched rules refused); real restores with the classic checkpointer, the Orbax manager and the Orbax manager on classic checkpoints',
    'C10': 'an independent table from Mesh-TensorFlow names to t5x paths; every variable carries values naming it; transposes and reshapes of slots included',
    'C11': 'the state machine (stored type, last requested type, value) that each handle must follow; reads counted',
    'D01': 'a step-by-step Python sampler over table models; the real sampler is forced down every token path',
    'D02': 'plain decoding (D01 oracle) of the same rows, one at a time and from scratch',
    'D03': 'a reference beam search in plain Python and, for small vocabularies, the exhaustive optimum over all sequences',
    'D04': 'sorting in Python with exact rational masses; the k-th value/threshold of the bit-level binary searches',
    'D05': 'the plain sampler on the same rows and the table of confidences and exit layers',
    'M01': 'the full (non-incremental) pass of the same network with the same weights at every position; the cache contents against the projected inputs',
    'M02': 'a boolean permission table computed position by position; perturbing one position of the input must change exactly the permitted outputs',
    'M03': 'the bucket formula in exact arithmetic plus its order properties (monotone, symmetric, all buckets reached)',
    'M04': 'a stand-in network that returns what it was given; prompts, cache shapes, keys, weights and scores are read back and compared with the batch',
    'M05': 'float64 definitions and finite-difference-free analytic gradients',
    'M06': 'Python loops over tokens and segments',
    'M07': 'the metric of all data at once, from numpy',
    'M08': 'float64 einsum/definitions with the same weights; shapes, types and axis names from the documented conventions',
    'M09': 'the unrolled, not rematerialized variant with the same weights',
    'O01': 'optax itself for the values; identity for serialization; names of the parameter axes for annotations',
    'O02': 'each sub-optimizer run alone on its own parameters',
    'O03': 'a float64 reimplementation of the documented update',
    'O04': 'first-match rule search and the documented factoring conditions, in Python',
    'M10': 'a step-by-step early-exit simulation in NumPy on the same stand-in layers, with lists as caches, and the losses written out',
    'P01': 'the index map of jax NamedSharding over stand-in devices: the rows a host owns; uniqueness and coverage counted',
    'P02': 'a first-fit reading of the rules per array, with each mesh axis used at most once',
    'P03': 'the same function without partitioning, bit for bit; addressable shards compared with slices',
    'P04': 'as P01, plus the documented choice of expert and model axes',
    'P05': 'gradients computed by hand for small expert networks; per-expert values naming their expert',
    'T01': 'a dictionary of the parts of the state that follows the operations',
    'T02': 'float64 sums over the whole batch; a log kept in mutable variables of the rows and keys every microbatch saw',
    'T03': 'a sequential model of the reports: every write once, in order, after the values were computed; final reads equal the state set last',
    'T04': 'a 40-line description of the schedule (which steps train, save, evaluate, collect garbage) computed from the configuration alone',
    'T05': 'the documented formula of each factor in double precision',
    'T06': 'the documented stop condition on the full history',
    'T07': 'example identities: multiset of what the shards deliver, order per shard, the owner of each row on each device',
    'T08': 'uninterrupted runs of every length that save nothing on the way: the state after every step, bit for bit',
    'I01': 'the output of an uninterrupted run and the records expected from the stand-in model',
    'I02': 'the ascending list of checkpoints; log of evaluated (step, values)',
    'I03': 'per-example results of the stand-in model in data set order',
    'I04': 'sorted set operations on the list of steps',
    'I05': 'integer counts of the tokens trained on, which name every example and step; lists of calls for the loops',
    'I06': 'the examples themselves, SeqIO\'s decoding of each row, and sums of their bytes',
    'X01': 'the features of each text worked out in Python lists, and the live stand-in model on these features in NumPy',
    'G01': 'an independent definition of the rewriting of each argument, and the gin/absl/fiddle values read back',
    'G02': 'the nesting depth of marked imports: collector off inside, previous state outside',
}


def consts(pid):
  t = ast.parse(open(os.path.join(HERE, 'checks', pid.lower() + '.py')).read())
  out = {}
  for n in t.body:
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in (
        'TECHNIQUE', 'LEVEL', 'RULE', 'ASSUMPTIONS'):
      out[n.targets[0].id] = ast.literal_eval(n.value)
  src = open(os.path.join(HERE, 'checks', pid.lower() + '.py')).read()
  out['parts'] = list(dict.fromkeys(re.findall(r"ck\.part\('([^']*)'\)", src)))
  return out


def main():
  out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read().rstrip(), '', '## The properties, one by one', '']
  seeds = {}
  for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m['needs']))
  costs_file = os.path.join(HERE, 'tools', 'costs.json')
  costs = json.load(open(costs_file)) if os.path.exists(costs_file) else {}
  props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
  for d in props:
    c = consts(d['id'])
    k = costs.get(d['id'])
    out += [f"### {d['id']} {d['title']}", '',
            f"*Specified:* {d['statement']}", '',
            f"*Method:* {HOW[c.get('TECHNIQUE', 'enum')]}. Enumerated: {c['RULE']}."]
    if c['parts']:
      out.append(f"Parts: {'; '.join(c['parts'])}.")
    out += ['', f"*Oracle:* {ORACLE[d['id']]}.", '',
            f"*Bounds:* {d['quantifier']['text']}"]
    if k:
      out.append(f"Quick tier: {k['n']} cases" + (f", {k['states']} states" if k.get('states') else '')
                 + (f", {k['transitions']} transitions" if k.get('transitions') else '') + f", about {k['s']} s.")
    out += ['', f"*Beyond the tests:* {d['why_tests_cant']}", '']
    if c.get('ASSUMPTIONS'):
      out += ['*Assumed:* ' + '; '.join(c['ASSUMPTIONS']) + '.', '']
    if d['id'] in seeds:
      out += ['*Planted bugs caught:* ' + '; '.join(f'`{n}` (needs {w})' for n, w in seeds[d['id']]) + '.', '']
  kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
  items = kf if isinstance(kf, list) else [x for v in kf.values() if isinstance(v, list) for x in v]
  out += ['## Defects found in t5x', '', 'Recorded, not repaired (printed as KNOWN-FINDING):', '']
  out += [f"* {x['property']} `{x['sig']}`: {x['what']}" for x in items if isinstance(x, dict)]
  out += ['', 'Repaired by `fix:` commits in /repo:', '']
  out += ['* ' + x.replace('fixed: property=', '') for x in items if isinstance(x, str)]
  open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


def record_costs():
  costs = {}
  f = os.path.join(HERE, 'tools', 'costs.json')
  if os.path.exists(f):
    costs = json.load(open(f))
  for e in glob.glob(os.path.join(HERE, 'evidence', '*.json')):
    d = json.load(open(e))
    if d['tier'] != 'quick' or d.get('violations'):
      continue
    c = d['coverage']
    costs[d['property']] = dict(n=c.get('distinct_nontrivial'), states=c.get('states'),
                                transitions=c.get('transitions'), s=round(d['wall_s']))
  json.dump(costs, open(f, 'w'), indent=0, sort_keys=True)


if __name__ == '__main__':
  import sys
  if 'costs' in sys.argv:
    record_costs()
  main()
