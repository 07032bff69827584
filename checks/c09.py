"""C09: partial restoration assigns exactly what the mapping says."""
import copy
import itertools
import logging
import re

import jax
import numpy as np

import lib_ckpt as lc
from mc import crashfs

TECHNIQUE = 'enum'
LEVEL = 'exploration'
RULE = ('every checkpoint and target over a small universe of names x every assignment map of '
        'up to two rules (three in the thorough tier) x strictness; every pair of nested '
        'states over the universe for merge and intersect; distinct = (checkpoint, target, '
        'map)')
ASSUMPTIONS = ['a retained extra checkpoint entry never lies below a target leaf of the same name']

RULES = [('t/a', 't/b'), ('t/b', 't/a'), ('t/(.*)', r's/\1'), ('s/(.)', r't/\1'), ('t/a', None),
         ('.*', None), ('t/.', 't/a'), ('a', 't/b'), ('t', None), ('t/a|t/b', 't/ab'),
         ('(.*)/a', r'\1/b'), ('t/ab', 's/a'), ('.*b', 't/a'), (r'(?P<x>\w)/(\w+)', r'\g<2>/\g<x>'),
         ('(.*)', r'\1'), ('s/a', 't.b')]
NAMES = ('t/a', 't/b', 't/ab', 's/a', 'a/s')


def subsets(xs, lo=0):
  return list(itertools.chain.from_iterable(
      itertools.combinations(xs, k) for k in range(lo, len(xs) + 1)))


def nest(flat):
  out = {}
  for k, v in flat.items():
    d = out
    *p, last = k.split('/')
    for x in p:
      d = d.setdefault(x, {})
    d[last] = v
  return out


def unnest(t, pre=()):
  out = {}
  for k, v in t.items():
    if isinstance(v, dict):
      out.update(unnest(v, pre + (k,)))
    else:
      out['/'.join(pre + (k,))] = v
  return out


def model(ckpt, opt, amap, strict):
  res, skipped, used, taken = {}, set(), set(), set()
  for k in opt:
    for i, (pat, rep) in enumerate(amap):
      m = re.match('(?:' + pat + r')\Z', k)
      if not m:
        continue
      used.add(i)
      if rep is None:
        skipped.add(k)
      else:
        old = m.expand(rep)
        if old not in ckpt:
          return 'error'
        taken.add(old)
        res[k] = ckpt[old]
      break
    else:
      if k in ckpt:
        res[k] = ckpt[k]
  if strict and len(used) < len(amap):
    return 'error'
  for k, v in ckpt.items():
    if k not in taken and k not in opt:
      res[k] = v
  return res


def check(ck):
  from t5x import state_utils as su
  from absl import logging as alog
  alog.set_verbosity(alog.ERROR)
  logging.getLogger('absl').setLevel(logging.ERROR)

  ck.part('assignment maps')
  maps = [()] + [(r,) for r in RULES] + [p for p in itertools.permutations(RULES, 2)]
  ckpts = subsets(NAMES, 1)
  opts = subsets(NAMES, 1)
  for c, o in itertools.product(ckpts, opts):
    ck0 = {k: 'old ' + k for k in c}
    ms = maps
    if not ck.thorough and len(c) + len(o) > 6 and len(o) < 5:
      ms = maps[:len(RULES) + 1] + maps[len(RULES) + 1::7]
    for m in ms:
      ck.case((c, o, m))
      tree, tgt = nest(ck0), nest({k: 'new ' + k for k in o})
      keep = copy.deepcopy((tree, tgt))
      for strict in (True, False):
        want = model(ck0, o, m, strict)
        case = dict(checkpoint=c, target=o, map=m, require_all_rules_match=strict)
        try:
          got = unnest(su.apply_assignment_map(tree, tgt, m, require_all_rules_match=strict))
        except ValueError as e:
          got = 'error'
        except Exception as e:  # pylint: disable=broad-except
          got = repr(e)
        if got != want:
          ck.violation('wrong assignment', case, want, got)
        if (tree, tgt) != keep:
          ck.violation('the inputs were altered', case)
      if m and su.apply_assignment_map(tree, tgt, m, is_resuming=True) != tree:
        ck.violation('applied while resuming', dict(checkpoint=c, target=o, map=m))
  ck.sample(dict(checkpoint=c, target=o, map=m))
  if ck.thorough:
    ck.part('three rules')
    for c, o in itertools.product([('t/a', 't/b', 's/a'), NAMES, ('t/a',)], [
        ('t/a', 't/b'), ('t/a', 't/b', 't/ab', 's/a'), ('t/ab', 'a/s')]):
      ck0 = {k: 'old ' + k for k in c}
      for m in itertools.permutations(RULES, 3):
        ck.case((c, o, m))
        for strict in (True, False):
          want = model(ck0, o, m, strict)
          try:
            got = unnest(su.apply_assignment_map(
                nest(ck0), nest({k: 'new ' + k for k in o}), m, require_all_rules_match=strict))
          except ValueError:
            got = 'error'
          if got != want:
            ck.violation('wrong assignment', dict(checkpoint=c, target=o, map=m), want, got)

  ck.part('merge and intersect')
  import tensorstore as ts
  spec = {'driver': 'zarr', 'kvstore': {'driver': 'memory'},
          'metadata': {'shape': [1], 'dtype': '<f4', 'chunks': [1]}}
  uni = ('a', 'ab', 'b/c', 'b/d', 'state/f/g', 'e/h')
  arrs = {k: np.arange(2) + i for i, k in enumerate(uni)}
  def val(k, who):
    if k == 'b/d':
      return dict(spec, kvstore={'driver': 'memory', 'path': who})
    return (who, k) if k != 'e/h' else None
  def flat(t):
    out = {}
    for k, v in t.items():
      if isinstance(v, dict) and not {'driver', 'kvstore', 'metadata'} <= set(v):
        out.update({k + '/' + a: b for a, b in flat(v).items()})
      else:
        out[k] = v
    return out
  for x, y in itertools.product(subsets(uni), repeat=2):
    fx, fy = {k: val(k, 'x') for k in x}, {k: val(k, 'y') for k in y}
    tx, ty = nest(fx), nest(fy)
    keep = copy.deepcopy((tx, ty))
    case = dict(left=x, right=y)
    ck.case((x, y), sample=case)
    ok, got = ck.guarded('merge', lambda: (
        flat(su.merge_state(tx, ty)), flat(su.merge_state(tx, ty, overwrite=True)),
        flat(su.intersect_state(tx, ty)), dict(su.flatten_state_dict(tx)),
        flat(su.get_name_tree({k: v for k, v in tx.items() if k != 'b'}))), case)
    if not ok:
      continue
    for what, want, g in (('merge_state', {**fy, **fx}, got[0]),
                          ('merge_state(overwrite)', {**fx, **fy}, got[1]),
                          ('intersect_state', {k: fx[k] for k in x if k in y}, got[2]),
                          ('flatten_state_dict', fx, got[3]),
                          ('get_name_tree', {k: k for k in x if not k.startswith('b/')}, got[4])):
      ck.expect(g == want, f'{what} is wrong', case, want, g)
    ck.expect((tx, ty) == keep, 'the inputs were altered', case)

  ck.part('empty nodes')
  t = {'a': {}, 'b': {'c': {}, 'd': 1}}
  from flax import traverse_util
  ck.case('empty')
  got = su.flatten_state_dict(t, keep_empty_nodes=True)
  ck.expect(set(got) == {'a', 'b/c', 'b/d'} and
            traverse_util.unflatten_dict(got, sep='/') == t, 'empty nodes lost', t, None, list(got))
  ck.expect(dict(su.flatten_state_dict(t)) == {'b/d': 1}, 'empty nodes kept', t)
  ck.expect(set(flat_keys(su.get_name_tree(t, keep_empty_nodes=True))) >= {'b/d'},
            'name tree lost a leaf', t)

  ck.part('through a real restore')
  from t5x import checkpoints, utils
  part = lc.partitioner()
  with crashfs.Scratch() as scratch:
    names = ('w0', 'w1', 'w2')
    st = lc.train_state(5, 'adam', ((2, 3),) * 3)
    d, d2 = scratch.new(), scratch.new()
    checkpoints.Checkpointer(st, part, d).save(st)
    m = checkpoints.OrbaxCheckpointManagerInterface(d2, st, part)
    m.save(st)
    m.wait_until_finished()
    m.close()
    ini = Init(utils, part)
    stored = lc.flat(st.state_dict())
    scratch_state = lc.flat(ini.tsi.from_scratch(jax.random.PRNGKey(0)).state_dict())
    def run(system, cfg):
      if system == 'classic':
        return ini.tsi.from_checkpoint([cfg], init_rng=jax.random.PRNGKey(0))
      got, mgr = utils.create_checkpoint_manager_and_restore(
          ini.tsi, part, cfg, cfg.path, jax.random.PRNGKey(0),
          model_dir=scratch.new(), use_orbax=True)
      mgr.close()
      return got
    # Every map from the names of parameters (and of their first moments) to {same name,
    # another, null} by rules for one parameter, or for a parameter with all its slots.
    choices = list(itertools.product((None, 'skip', 'w0', 'w1', 'w2'), repeat=3))
    for choice, slots, system in itertools.product(
        choices, (False, True), ('classic', 'orbax', 'orbax from classic')):
      if system != 'classic' and not ck.thorough and (
          choices.index(choice) + slots + (system != 'orbax')) % 5:
        continue
      if slots and system == 'classic' and not ck.thorough and choices.index(choice) % 3:
        continue
      rules = []
      for n, c in zip(names, choice):
        if c is not None:
          rules.append((f'(.*)/enc/{n}(.*)' if slots else f'target/enc/{n}', None if c == 'skip'
                        else fr'\1/enc/{c}\2' if slots else f'target/enc/{c}'))
      case = dict(rules=rules, system=system)
      ck.case((choice, slots, system), sample=case)
      path = d if system != 'orbax' else d2
      if system != 'classic':
        path += '/checkpoint_5'
      cfg = utils.RestoreCheckpointConfig(
          path=path, mode='latest' if system == 'classic' else 'specific',
          assignment_map=rules or None, fallback_to_scratch=bool(rules))
      ok, got = ck.guarded('restore with an assignment map', lambda: run(system, cfg), case)
      if not ok:
        continue
      have = lc.flat(got.state_dict())
      ck.expect(set(have) == set(stored), 'entries gained or lost', case, set(stored), set(have))
      for k in sorted(set(have) & set(stored)):
        n = next((n for n in names if f'/enc/{n}' in k), None)
        c = dict(zip(names, choice)).get(n)
        if c is None or not slots and not k.startswith('target/'):
          want = stored[k]
        elif c == 'skip':
          want = scratch_state[k]
        else:
          want = stored[k.replace(f'/enc/{n}', f'/enc/{c}')]
        if want is None or have[k] is None:
          ck.expect(want is have[k], f'{k} was assigned another value', case, want, have[k])
        else:
          ck.expect(np.array_equal(have[k], want), f'{k} was assigned another value', case,
                    want, have[k])


def flat_keys(t, pre=''):
  for k, v in t.items():
    if isinstance(v, dict) and v:
      yield from flat_keys(v, pre + k + '/')
    else:
      yield pre + k


class Init:
  """A real initializer with three parameters filled with 70, 71, 72."""

  def __init__(self, utils, part):
    import jax.numpy as jnp
    from flax.core import freeze
    from flax.linen import partitioning as fp

    class M:
      module = None

      def init(self, rng, input_shapes, input_types=None):
        return freeze({
            'params': {'enc': {f'w{i}': jnp.full((2, 3), 70.0 + i) for i in range(3)}},
            'params_axes': {'enc': {f'w{i}_axes': fp.AxisMetadata(names=('a', 'b'))
                                    for i in range(3)}}})
    self.m = M()
    self.tsi = utils.TrainStateInitializer(lc.optimizer_def('adam'), self.m.init, {'x': (1,)}, part)
