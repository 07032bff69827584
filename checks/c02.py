"""C02: retention keeps the newest checkpoints and never removes a pinned one."""
import os
import shutil

import numpy as np

import lib_ckpt as lc
from mc import crashfs

TECHNIQUE = 'hist'
LEVEL = 'model_checking'
RULE = ('breadth-first search over histories of real saves, re-saves, pins and '
        'unpins on a real directory; state = available steps, pinned steps, steps '
        'with iterator state; every transition compared with a set model and every '
        'retained checkpoint byte for byte')
ASSUMPTIONS = ['one host', 'no other program changes the directory']

STEPS = (8, 9, 10, 99, 100, 1000, 1001)


def tree(d):
  out = {}
  for base, _, files in os.walk(d):
    for f in files:
      p = os.path.join(base, f)
      with open(p, 'rb') as fh:
        out[os.path.relpath(p, d)] = fh.read()
  return out


def check(ck):
  from t5x import checkpoints, checkpoint_utils as cu, checkpoints_utils as csu
  part = lc.partitioner()
  states = {s: lc.train_state(s, shapes=((2,),), lib=np) for s in STEPS + (1,)}
  configs = [(None, None, True), (1, None, False), (2, None, True), (1, 1, True),
             (2, 1, True), (None, 1, True), (3, 2, True), (2, 3, True)]
  depth = ck.pick(7, 10)

  with crashfs.Scratch() as scratch:
    for keep, keep_ds, ds in configs:
      ck.part(f'keep={keep} keep_dataset={keep_ds}')
      root = scratch.new()
      start = os.path.join(root, 'n0')
      os.makedirs(start)
      # node: (dir, avail, pinned, ds steps, next index)
      frontier = [(start, frozenset(), frozenset(), frozenset(), 0, ())]
      ck.state((frozenset(), frozenset(), frozenset(), 0))
      serial = 0
      for _ in range(depth):
        nxt = []
        for d, avail, pinned, dss, i, hist in frontier:
          ops = []
          if i < len(STEPS):
            ops.append(('save', STEPS[i]))
          if avail:
            ops.append(('save', max(avail)))  # exists already
          if 1 not in avail and i == 3:
            ops.append(('save', 1))  # older than what is there
          for s in sorted(avail - pinned)[:2] + sorted(avail - pinned)[-1:]:
            ops.append(('pin', s))
          for s in sorted(pinned & avail)[:2]:
            ops.append(('unpin', s))
          for op, s in dict.fromkeys(ops):
            serial += 1
            t = os.path.join(root, f'n{serial}')
            shutil.copytree(d, t)
            case = dict(keep=keep, keep_dataset=keep_ds, history=hist + ((op, s),))
            a2, p2, d2, i2 = set(avail), set(pinned), set(dss), i
            before = tree(t)
            cdir = csu.get_checkpoint_dir(t, s)
            if op == 'save':
              it = lc.Iterator(s * 10) if ds else None
              fresh = s not in avail

              def save():
                c = checkpoints.Checkpointer(states[s], part, t, it, keep=keep,
                                             keep_dataset_checkpoints=keep_ds)
                c.save(states[s])
                return sorted(c.all_steps()), c.all_dataset_checkpoint_steps(), c.latest_step()

              ok, res = ck.guarded('save', save, case)
              if not ok:
                continue
              if fresh:
                a2.add(s)
                if ds:
                  d2.add(s)
                order = sorted(a2)
                a2 = set(order[-keep:] if keep else order) | (p2 & a2)
                d2 &= a2
                order = sorted(d2)
                d2 = set(order[-keep_ds:] if keep_ds else order) | (p2 & d2)
              p2 &= a2
              if s == STEPS[i] if i < len(STEPS) else False:
                i2 = i + 1
              got = (set(res[0]), set(res[1]), res[2])
              ck.expect(got == (a2, d2, max(a2)), 'wrong checkpoints retained', case,
                        dict(steps=sorted(a2), iterators=sorted(d2)),
                        dict(steps=res[0], iterators=res[1], latest=res[2]))
              after = tree(t)
              for p, b in before.items():
                step = int(p.split(os.sep)[0].split('_')[1])
                if step in a2 and (step in d2 or 'train_ds' not in p):
                  if after.get(p) != b:
                    ck.violation('a retained checkpoint was changed', case, p)
              gone = [p for p in after if int(p.split(os.sep)[0].split('_')[1]) not in a2]
              ck.expect(not gone, 'files of a removed checkpoint remain', case, None, gone[:4])
            else:
              f = cu.pin_checkpoint if op == 'pin' else cu.unpin_checkpoint
              ok, _ = ck.guarded(op, lambda: f(cdir), case)
              if not ok:
                continue
              (p2.add if op == 'pin' else p2.discard)(s)
              after = tree(t)
              pf = os.path.relpath(cu.pinned_checkpoint_filepath(cdir), t)
              want = dict(before)
              want.pop(pf, None)
              rest = {k: v for k, v in after.items() if k != pf}
              ck.expect(rest == want, f'{op} changed something else', case,
                        None, sorted(set(rest) ^ set(want)))
            for x in sorted(a2):
              got = cu.is_pinned_checkpoint(csu.get_checkpoint_dir(t, x))
              ck.expect(got == (x in p2), 'wrong pinned status', dict(case, step=x),
                        x in p2, got)
            ck.transition()
            ck.trace()
            ck.case(case['history'], sample=case)
            node = (frozenset(a2), frozenset(p2), frozenset(d2), i2)
            if ck.state(node):
              nxt.append((t,) + node + (case['history'],))
            else:
              shutil.rmtree(t)
          shutil.rmtree(d)
        frontier = nxt
      scratch.clear(root)

    ck.part('direct removal')
    for pinned in (False, True):
      for name in ('remove_checkpoint_dir', 'remove_dataset_checkpoint', 'unpin_checkpoint'):
        d = scratch.new()
        c = checkpoints.Checkpointer(states[9], part, d, lc.Iterator(3))
        c.save(states[9])
        cdir = csu.get_checkpoint_dir(d, 9)
        if pinned:
          cu.pin_checkpoint(cdir, 'why')
        before = tree(d)
        case = dict(pinned=pinned, call=name)
        ok, _ = ck.guarded(name, lambda: getattr(cu, name)(
            *([cdir, 'train_ds'] if name == 'remove_dataset_checkpoint' else [cdir])), case)
        after = tree(d)
        if name == 'unpin_checkpoint':
          want = {k: v for k, v in before.items() if not k.endswith('PINNED')}
        elif pinned:
          want = before
        elif name == 'remove_checkpoint_dir':
          want = {}
        else:
          want = {k: v for k, v in before.items() if 'train_ds' not in k}
        ck.case(str(case))
        ck.expect(after == want, 'removal took away the wrong files', case, sorted(want),
                  sorted(after))
