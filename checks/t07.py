"""T07: the input pipeline: sharding, evaluation datasets, device placement, resumption."""
import collections
import itertools
import os
import tempfile
import types

import numpy as np

from mc import par
from mc import procs

N_DEVICES = 8
TECHNIQUE = 'hist'
LEVEL = 'model_checking'
RULE = ('every dataset size x batch size x number of shards x epochs within the bound, with and '
        'without shuffling and packing, from the view of every shard; every task and mixture for '
        'the training evaluation; every sequence of next, peek, save, restore and reset up to the '
        'depth; every mesh of eight devices in one process and on two and four real jax processes')
ASSUMPTIONS = ['nothing is saved or restored while a peeked batch is outstanding (T08 covers the training loop)',
               'the order of the examples within one global batch is left open',
               'the underlying dataset is deterministic for a given seed']


def _seqio():
  import seqio
  import tensorflow as tf
  return seqio, tf


_made = {}


def task(name, n, splits=('train',), first=0, feats=('inputs', 'targets'), vocabs=None):
  """A registered seqio task whose example i has inputs [i+1, i+2] and targets [i+1]."""
  seqio, tf = _seqio()
  if name in _made:
    return name

  def data(split, shuffle_files=False, seed=None):
    del shuffle_files, seed
    k = n + (split != splits[0])
    r = np.arange(first, first + k, dtype=np.int32)
    d = {'inputs': np.stack([r + 1, r + 2], 1).reshape(k, 2), 'targets': (r + 1).reshape(k, 1)}
    return tf.data.Dataset.from_tensor_slices({f: d[f] for f in feats})
  voc = vocabs or {f: seqio.PassThroughVocabulary(1000, 0) for f in feats}
  seqio.TaskRegistry.add(
      name, source=seqio.FunctionDataSource(data, splits=splits), preprocessors=[],
      output_features={f: seqio.Feature(voc[f], add_eos=False, dtype=tf.int32) for f in feats},
      metric_fns=[])
  _made[name] = n
  return name


def ident(row):
  """The example a converted row holds (its first target minus one)."""
  return int(row[0]) - 1


def config(name, batch, **kw):
  from t5x import utils
  base = dict(task_feature_lengths={'inputs': 3, 'targets': 2}, split='train', shuffle=False, seed=7)
  base.update(kw)
  return utils.DatasetConfig(mixture_or_task_name=name, batch_size=batch, **base)


def shards(item):
  """Datasets of all shards for one configuration: problems found."""
  seqio, _ = _seqio()
  from t5x import utils
  n, batch, k, epochs, shuffle, conv = item
  cls = dict(lm=seqio.LMFeatureConverter, encdec=seqio.EncDecFeatureConverter)[conv]
  name = task(f't07_n{n}', n) if conv == 'encdec' else task(f't07_lm{n}', n, feats=('targets',))
  lengths = {'inputs': 3, 'targets': 2} if conv == 'encdec' else {'targets': 2}
  bad = []
  orders = {}
  for s in range(k):
    cfg = config(name, batch, shuffle=shuffle, task_feature_lengths=lengths)
    got = [list(utils.get_dataset(cfg, s, k, cls, num_epochs=epochs).as_numpy_iterator())
           for _ in range(2)]
    if repr(got[0]) != repr(got[1]):
      bad.append((s, 'the same seed gives different data', None, None))
    rows = []
    for b in got[0]:
      for f, v in b.items():
        if v.shape != (batch // k, lengths['inputs' if f.startswith('encoder') else 'targets']):
          bad.append((s, f'shape of {f}', (batch // k, lengths), v.shape))
      rows.extend(ident(r) for r in b['decoder_target_tokens'])
      if conv == 'encdec':
        for e, t in zip(b['encoder_input_tokens'], b['decoder_target_tokens']):
          if [int(x) for x in e] != [int(t[0]), int(t[0]) + 1, 0]:
            bad.append((s, 'inputs of another example', [int(x) for x in t], [int(x) for x in e]))
    orders[s] = rows
  # Each epoch of a shard is that shard's part of the data; the parts are disjoint.
  parts = {}
  for s, rows in orders.items():
    full = config(name, k, shuffle=shuffle, task_feature_lengths=lengths)
    mine = [ident(r) for b in utils.get_dataset(full, s, k, cls, num_epochs=1).as_numpy_iterator()
            for r in b['decoder_target_tokens']]
    parts[s] = sorted(mine)
    m = len(mine)
    want = m * epochs // (batch // k) * (batch // k)
    if len(rows) != want:
      bad.append((s, 'number of examples', want, len(rows)))
    counts = collections.Counter(rows)
    if set(counts) - set(mine) or max(counts.values(), default=0) > epochs or (
        len(rows) == m * epochs and any(counts[i] != epochs for i in mine)):
      bad.append((s, 'examples are lost or repeated', (epochs, parts[s]), rows))
    for e in range(epochs if not shuffle or epochs == 1 else 0):  # shuffling mixes epochs
      part = rows[e * m:(e + 1) * m]
      if len(part) == m and sorted(part) != parts[s]:
        bad.append((s, f'epoch {e} of the shard', parts[s], part))
      if len(part) < m and set(part) - set(parts[s]) or len(set(part)) != len(part):
        bad.append((s, f'partial epoch {e} of the shard', parts[s], part))
    if not shuffle and rows != (mine * epochs)[:want]:
      bad.append((s, 'order without shuffling', (mine * epochs)[:want], rows))
    if not shuffle and mine != sorted(mine):
      bad.append((s, 'data order without shuffling', sorted(mine), mine))
  union = sorted(i for v in parts.values() for i in v)
  if union != list(range(n)):
    bad.append((None, 'the shards do not cover the data once', list(range(n)), parts))
  return bad


def spread(item):
  """Feeds two batches through the sharded iterator; what every local device holds."""
  import jax
  import tensorflow as tf
  from t5x import partitioning, utils
  shape, flip, batch = item
  d = np.array(jax.devices())
  d = d.reshape(shape[::-1]).T if flip else d.reshape(shape)
  m = jax.sharding.Mesh(d, ('data', 'model'))

  class P(partitioning.PjitPartitioner):
    mesh = property(lambda self: m)
  part = P(num_partitions=1)
  lay = part.get_data_layout(batch)
  rows = np.arange(2 * batch).reshape(2, batch)[:, lay.shard_id::lay.num_shards].reshape(-1)
  ds = tf.data.Dataset.from_tensor_slices(
      {'x': rows, 'y': np.stack([rows, rows * 3, rows + 1], 1).astype(np.float32)}
  ).batch(batch // lay.num_shards, drop_remainder=True)
  it = utils.prepare_train_iter(ds, partitioner=part, checkpoint_cfg=None, data_layout=lay)
  out = []
  for _ in range(2):
    b = next(it)
    out.append({k: (v.shape, v.sharding.is_equivalent_to(
        jax.sharding.NamedSharding(m, part.data_partition_spec), v.ndim),
                    [(s.device.id, s.index[0].indices(batch)[:2], np.asarray(s.data).tolist())
                     for s in v.addressable_shards]) for k, v in b.items()})
  try:
    next(it)
    out.append('more data than was given')
  except StopIteration:
    pass
  return out


def judge(ck, item, per_process, case):
  """The pieces of all processes form each global batch exactly once."""
  shape, _, batch = item
  for step in range(2):
    cover = {}
    for p in per_process:
      ck.expect(len(p) == 2, 'the iterator does not end with its dataset', case, None, p[2:])
      for f, (sh, same, pieces) in p[step].items():
        ck.expect(sh == ((batch,) if f == 'x' else (batch, 3)) and same,
                  f'shape or placement of "{f}"', dict(case, step=step), batch, (sh, same))
        for dev, (a, b), data in pieces:
          ck.expect(b - a == batch // shape[0] == len(data), 'rows on a device', case, None, (a, b))
          ids = [int(r) if f == 'x' else int(r[0]) for r in data]
          if f == 'y':
            ck.expect(all(r == [r[0], r[0] * 3, r[0] + 1] for r in data), 'content of a row', case,
                      None, data)
          for pos, i in zip(range(a, b), ids):
            cover.setdefault(pos, set()).add(i)
    want = set(range(step * batch, (step + 1) * batch))
    ck.expect(set(cover) == set(range(batch)) and all(len(v) == 1 for v in cover.values()) and
              {next(iter(v)) for v in cover.values()} == want,
              'the devices do not hold the batch exactly once', dict(case, step=step), sorted(want),
              {k: sorted(v) for k, v in sorted(cover.items())})


def check(ck):
  import jax
  seqio, tf = _seqio()
  import clu.data.dataset_iterator as cdi
  from t5x import utils

  groups = []
  for np_, nd in ((2, 4), (4, 2)):
    its = [((d, 8 // d), flip, b) for d in (8, 4, 2, 1) for flip in (False, True)
           for b in ck.pick((8, 24), (8, 16, 24, 40))]
    groups.append((f'{np_} processes', procs.Group('t07', 'spread', its, np_, nd), its))

  # ---- shards of a dataset
  ck.part('shards')
  items = []
  for conv, n, k, per, epochs, shuffle in itertools.product(
      ck.pick(('encdec',), ('encdec', 'lm')), ck.pick((1, 3, 6), range(1, 10)), ck.pick((1, 2, 3), (1, 2, 3, 4)),
      ck.pick((1, 2), (1, 2, 3)), ck.pick((1, 2), (1, 2, 3)), (False, True)):
    items.append((n, per * k, k, epochs, shuffle, conv))
  if not ck.thorough:
    items += [(n, 2 * k, k, 2, s, 'lm') for n in (1, 5) for k in (1, 3) for s in (False, True)]
  for it, r in zip(items, par.pmap('t07', 'guarded_shards', items, jobs=6)):
    case = dict(zip(('examples', 'batch_size', 'shards', 'epochs', 'shuffle', 'converter'), it))
    ck.case(str(case), sample=case)
    ck.state(str(case))
    if r[0] != 'ok':
      ck.violation('making the dataset fails', case, None, r[1])
      continue
    for s, what, w, g in r[1]:
      ck.violation(what, dict(case, shard=s), w, g)
  name = task('t07_n5', 5)
  for batch, k in itertools.product(range(1, 10), range(1, 6)):
    if batch % k:
      case = dict(batch_size=batch, shards=k)
      for s in range(k):
        ck.case(('indivisible', batch, k, s))
        ck.expect_raises('a batch size that cannot be split is accepted', lambda: utils.get_dataset(
            config(name, batch), s, k, seqio.EncDecFeatureConverter), case, ValueError)
        ck.expect_raises('a batch size that cannot be split is accepted for evaluation',
                         lambda: utils.get_training_eval_datasets(
                             config(name, batch), s, k, 2, seqio.EncDecFeatureConverter), case,
                         ValueError)
  ck.expect_raises('continuing from a checkpoint is accepted', lambda: utils.get_dataset(
      config(name, 2), 0, 1, seqio.EncDecFeatureConverter, continue_from_last_checkpoint=True),
                   'continue_from_last_checkpoint', ValueError)

  # packing and feature options reach the converter and the task
  ck.part('options')
  seen = []

  def conv(**kw):
    seen.append(kw)
    return seqio.EncDecFeatureConverter(pack=kw['pack'])
  for pack, ops, seed, trim in itertools.product((False, True), (False, True), (None, 0, 3),
                                                 (True, False)):
    case = dict(pack=pack, custom_ops=ops, seed=seed, trim=trim)
    ck.case(str(case), sample=case)
    seen.clear()
    calls = []
    orig = seqio.get_dataset

    def spy(**kw):
      calls.append(kw)
      return orig(**kw)
    seqio.get_dataset = spy
    try:
      ok, ds = ck.guarded('options', lambda: list(utils.get_dataset(
          config(name, 2, pack=pack, use_custom_packing_ops=ops, seed=seed, shuffle=True,
                 trim_output_features=trim,
                 task_feature_lengths={'inputs': 6, 'targets': 6}), 0, 1, conv,
          num_epochs=1).as_numpy_iterator()), case)
    finally:
      seqio.get_dataset = orig
    if not ok:
      continue
    ck.expect(seen == [dict(pack=pack, use_custom_packing_ops=ops)], 'options of the converter',
              case, dict(pack=pack, use_custom_packing_ops=ops), seen)
    ck.expect(len(calls) == 1 and (calls[0]['seed'] == seed if seed is not None
                                   else calls[0]['seed'] is not None)
              and calls[0]['trim_output_features'] == trim, 'options of the task', case, None,
              [(c['seed'], c['trim_output_features']) for c in calls])
    per_row = 3 if pack else 1
    toks = [t for b in ds for r in b['decoder_target_tokens'] for t in r if t]
    ck.expect(len(ds) >= 1 and max(toks) <= 5 and len(set(toks)) == len(toks) and
              all(np.count_nonzero(r) >= 1 for b in ds for r in b['decoder_target_tokens']) and
              (not pack or any('segment_ids' in k for k in ds[0])), 'data under the options', case,
              per_row, toks)

  # ---- datasets for training evaluation
  ck.part('training evaluation')
  plans = ck.pick(
      [(1, 1, 3, True, False), (1, 2, 1, False, True), (2, 1, 3, False, False),
       (2, 2, 2, True, True), (3, 1, 2, True, False), (3, 2, 1, False, False)],
      list(itertools.product((1, 2, 3, 4), (1, 2), (1, 2, 4), (True, False), (False, True))))
  items = [(sizes, which, split, plan)
           for sizes in ck.pick([(1, 3), (3, 2)], list(itertools.product((1, 2, 3, 5), repeat=2)))
           for which in ('a', 'c', 'mix', 'mixv') for split in ('train', 'validation')
           if (which, split) != ('mix', 'validation')  # the whole mixture has no such split
           for plan in plans]
  for it, r in zip(items, par.pmap('t07', 'guarded_evals', items, jobs=6)):
    case = dict(sizes=it[0], task=it[1], split=it[2],
                **dict(zip(('shards', 'per_shard', 'steps', 'cache', 'by_object'), it[3])))
    ck.case(str(case), sample=case)
    ck.state(str(case))
    if r[0] != 'ok':
      ck.violation('making evaluation datasets fails', case, None, r[1])
      continue
    for t, what, w, g in r[1]:
      ck.violation(what, dict(case, dataset=t), w, g)

  # ---- placement on the devices
  ck.part('one process, eight devices')
  for d, flip, b in itertools.product((8, 4, 2, 1), (False, True), ck.pick((8, 16), (8, 16, 24, 40))):
    it = ((d, 8 // d), flip, b)
    case = dict(mesh=it[0], transposed=flip, batch_size=b)
    ck.case(str(case), sample=case)
    ok, r = ck.guarded('feeding the devices', lambda: spread(it), case)
    if ok:
      judge(ck, it, [r], case)
  histories(ck, jax, tf, utils, cdi)
  vocabularies(ck, seqio, utils)

  # ---- shapes
  ck.part('zero batches')
  for n, per, override in itertools.product((2, 5), (1, 2, 3), (None, 4)):
    ds = tf.data.Dataset.from_tensor_slices(
        {'a': np.ones((6, n), np.int32), 'b': np.ones((6,), np.float32), 'c': np.ones((6, 2, n), bool)}
    ).batch(per, drop_remainder=True)
    case = dict(width=n, batch=per, override=override)
    ck.case(str(case))
    ok, z = ck.guarded('a batch of zeros', lambda: utils.get_zeros_batch_like_dataset(ds, override), case)
    if ok:
      bs = override or per
      want = {'a': ((bs, n), 'int32'), 'b': ((bs,), 'float32'), 'c': ((bs, 2, n), 'bool')}
      got = {k: (v.shape, str(v.dtype)) for k, v in z.items()}
      ck.expect(got == want and not any(np.asarray(v).any() for v in z.values()), 'a batch of zeros',
                case, want, got)

  for where, g, its in groups:
    ck.part(where)
    try:
      res = g.results()
    except procs.Hung as e:
      ck.violation(f'processes wait for each other: {e}', dict(where=where))
      continue
    for i, it in enumerate(its):
      case = dict(where=where, mesh=it[0], transposed=it[1], batch_size=it[2])
      ck.case(str(case), sample=case)
      ck.trace()
      pieces = []
      for p, r in enumerate(res):
        if i >= len(r):
          ck.violation('a process died', dict(case, process=p))
          return
        if r[i][0] != 'ok':
          ck.violation('feeding the devices fails', dict(case, process=p), None, r[i][1])
        else:
          pieces.append(r[i][1])
      if len(pieces) == len(res):
        judge(ck, it, pieces, case)


def evals(item):
  """The evaluation datasets of all shards: problems found."""
  seqio, _ = _seqio()
  from t5x import utils
  sizes, which, split, (k, per, steps, cache, obj) = item
  a = task(f't07_a{sizes[0]}', sizes[0], ('train', 'validation'))
  b = task(f't07_b{sizes[1]}', sizes[1], ('train', 'validation'), first=100)
  c = task('t07_c', 2, ('train',), first=200)
  mix = f't07_mix{sizes[0]}_{sizes[1]}'
  if mix not in _made:
    _made[mix] = 1
    seqio.MixtureRegistry.add(mix, [(a, 1.0), (b, 2.0), (c, 1.0)])
    seqio.MixtureRegistry.add(mix + 'v', [(a, 1.0), (b, 2.0)])
  what = dict(a=a, c=c, mix=mix, mixv=mix + 'v')[which]
  subs = dict(a=[a], c=[c], mix=[a, b, c], mixv=[a, b])[which]
  want = {t for t in subs if split == 'train' or t != c} | ({what} if 'mix' in which else set())
  conv = seqio.EncDecFeatureConverter
  bad, streams = [], {}
  for s in range(k):
    src = seqio.get_mixture_or_task(what) if obj else what
    got = utils.get_training_eval_datasets(
        config(src, per * k, split=split, use_memory_cache=cache), s, k, steps, conv)
    if set(got) != want:
      bad.append((None, 'evaluated tasks', sorted(want), sorted(got)))
    for t, ds in got.items():
      bs = list(ds.as_numpy_iterator())
      if (cache or not t.startswith('t07_mix')) and s == 0 and repr(bs) != repr(
          list(ds.as_numpy_iterator())):
        bad.append((t, 'the second evaluation sees other data', None, None))
      shapes = [x['decoder_target_tokens'].shape for x in bs]
      if shapes != [(per, 2)] * steps:
        bad.append((t, f'batches of shard {s}', [(per, 2)] * steps, shapes))
        return bad
      streams.setdefault(t, {})[s] = [ident(r) for x in bs for r in x['decoder_target_tokens']]
  one = None
  for t, st in streams.items():
    whole = [st[i % k][i // k] for i in range(k * per * steps)]
    if t.startswith('t07_mix'):
      if k == 1:
        continue
      one = one or utils.get_training_eval_datasets(
          config(what, per * k, split=split), 0, 1, steps, conv)
      ref = [ident(r) for x in one[t].as_numpy_iterator() for r in x['decoder_target_tokens']]
    else:
      m = _made[t] + (split != 'train')
      ref = [dict(a=0, b=100, c=200)[t[4]] + i % m for i in range(len(whole))]
    if whole != ref:
      bad.append((t, 'the shards do not split the evaluation data', ref, whole))
  return bad


def guarded_evals(item):
  try:
    return 'ok', evals(item)
  except Exception as e:  # pylint: disable=broad-except
    return 'raised', f'{type(e).__name__}: {e}'


def guarded_shards(item):
  try:
    return 'ok', shards(item)
  except Exception as e:  # pylint: disable=broad-except
    return 'raised', f'{type(e).__name__}: {e}'


def histories(ck, jax, tf, utils, cdi):
  """Sequences of operations on the prepared iterator."""
  import lib_ckpt as lc
  part = lc.mesh_partitioner((4, 2))
  lay = part.get_data_layout(4)
  ck.part('sequences of operations')
  depth = ck.pick(4, 5)
  with tempfile.TemporaryDirectory(prefix='t07') as tmp:
    for kind in ('plain', 'shuffled', 'repeated'):
      ds = tf.data.Dataset.range(12).map(lambda i: {'x': i})
      if kind == 'shuffled':
        ds = ds.shuffle(12, seed=3, reshuffle_each_iteration=False)
      if kind == 'repeated':
        ds = ds.repeat(2)
      ds = ds.batch(4, drop_remainder=True)
      truth = [b['x'].tolist() for b in ds.as_numpy_iterator()]
      make = lambda: utils.prepare_train_iter(
          cdi.TfDatasetIterator(ds, checkpoint=True) if kind == 'plain' else ds, partitioner=part,
          checkpoint_cfg=None, data_layout=lay)
      spec = make().element_spec
      ck.expect(tuple(spec['x'].shape) == (4,) and np.dtype(spec['x'].dtype) == np.int64,
                'element spec', kind, None, str(spec))
      ops = ('next', 'peek', 'peek_async', 'save', 'restore', 'load', 'fresh', 'reset')
      count = 0
      for seq in itertools.product(ops, repeat=depth):
        # Skip histories outside the precondition or without new information.
        if seq[-1] in ('save', 'reset', 'fresh', 'restore', 'load'):
          continue
        if kind != 'plain' and ('peek_async' in seq or 'load' in seq):
          continue
        out, saved, valid = False, False, True
        for o in seq:
          if o in ('peek', 'peek_async'):
            valid &= not (o == 'peek_async' and out)
            out = True
          elif o == 'next':
            out = False
          elif o in ('save', 'restore', 'load', 'fresh'):
            valid &= not out and (o == 'save' or saved)
            saved |= o == 'save'
          elif o == 'reset':
            out = False
        if not valid or ('peek_async' in seq and seq.count('peek_async') + seq.count('peek') > 1):
          continue
        case = dict(dataset=kind, operations=seq)
        ck.case(str(case), sample=case)
        count += 1
        it, pos, at = make(), 0, None
        path = os.path.join(tmp, f'{kind}{count}')
        trail = []

        def play():
          nonlocal it, pos, at
          for o in seq:
            if o in ('next', 'peek', 'peek_async'):
              want = truth[pos] if pos < len(truth) else 'end'
              try:
                v = (next(it) if o == 'next' else it.peek() if o == 'peek' else
                     it.peek_async().result())
                v = np.asarray(v['x']).tolist()
              except StopIteration:
                v = 'end'
              trail.append((o, want, v))
              if o == 'next':
                pos += want != 'end'
              if want == 'end':
                return
            elif o == 'save':
              it.save(path)
              at = pos
            elif o == 'reset':
              it.reset()
              pos = 0
            else:
              if o == 'fresh':
                it = make()
              (it.load if o == 'load' else it.restore)(path)
              pos = at
        ok, _ = ck.guarded('a sequence of operations', play, case)
        for o, w, g in trail:
          ck.transition()
          ck.expect(w == g, f'"{o}" returns another batch', case, [t[1] for t in trail],
                    [t[2] for t in trail])
        ck.trace()
  ck.expect_raises('an unsupported dataset is accepted', lambda: utils.prepare_train_iter(
      [dict(x=1)], partitioner=part, checkpoint_cfg=None, data_layout=lay), 'list', ValueError)


def vocabularies(ck, seqio, utils):
  """The vocabularies of the data are those of the model, or training is refused."""
  ck.part('vocabularies')
  bv = lambda n: seqio.ByteVocabulary(extra_ids=n)
  pt = seqio.PassThroughVocabulary(10)
  vs = {'A': bv(0), 'B': bv(2), 'P': pt, 'A2': bv(0)}
  same = lambda x, y: x.rstrip('2') == y.rstrip('2')
  count = itertools.count()
  for names in (('inputs', 'targets'), ('targets',), ('targets', 'other'), ('a', 'b', 'c')):
    for combo in itertools.product(vs, repeat=len(names)):
      case = dict(features=dict(zip(names, combo)))
      ck.case(str(case), sample=case)
      fake = types.SimpleNamespace  # pylint: disable=unused-variable
      t = seqio.Task(f't07_v{next(count)}', source=seqio.FunctionDataSource(
          lambda split, shuffle_files=False, seed=None: None, splits=('train',)), preprocessors=[],
                     output_features={n: seqio.Feature(vs[v]) for n, v in zip(names, combo)},
                     metric_fns=[])
      cfg = config(t, 2)
      fn = lambda: utils.get_vocabulary(cfg)
      if names == ('inputs', 'targets'):
        want = combo
      else:
        real = [c for c in combo if c != 'P'] or list(combo)
        want = (real[0],) * 2 if all(same(real[0], r) for r in real) else None
      if want is None:
        ck.expect_raises('ambiguous vocabularies are accepted', fn, case, ValueError)
        continue
      ok, got = ck.guarded('finding the vocabularies', fn, case)
      if not ok:
        continue
      ck.expect(tuple(got) == tuple(vs[w] for w in want), 'vocabularies of the data', case, want, got)
      for m in itertools.product(('A', 'B', 'P'), repeat=2):
        model = types.SimpleNamespace(input_vocabulary=vs[m[0]], output_vocabulary=vs[m[1]])
        c = dict(case, model=m)
        ck.case(str(c))
        f2 = lambda: utils.verify_matching_vocabs(cfg, model)
        if same(m[0], want[0]) and same(m[1], want[1]):
          ck.guarded('matching vocabularies are refused', f2, c)
        else:
          ck.expect_raises('vocabularies that do not match are accepted', f2, c, ValueError)
  for size, extra, div in itertools.product((1, 7, 8, 9, 127, 128, 129, 256), (0, 3), (1, 2, 8, 128)):
    v = seqio.PassThroughVocabulary(size + extra)
    ck.case(('round', size, extra, div))
    got = utils.round_vocab_size_to_multiple(v, div)
    n = v.vocab_size
    ck.expect(got % div == 0 and n <= got < n + div, 'rounded vocabulary size', (n, div), None, got)
