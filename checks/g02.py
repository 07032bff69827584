"""G02: garbage collection during imports."""
import builtins
import gc
import itertools
import os
import shutil
import sys
import tempfile

TECHNIQUE = 'hist'
LEVEL = 'fault_enumeration'
RULE = ('every tree of imports up to a number of modules (a module imports others one after the '
        'other, may fail at every position, and may or may not contain the failure of those below), '
        'from both collector states, hooked or not, first and repeated, in all four import forms; '
        'every nesting of the context manager with and without failures; distinct = (tree, failing '
        'position, handler, collector state, hook)')
ASSUMPTIONS = ['the imported modules do not switch the collector themselves', 'one importing thread']


def trees(n):
  """All ordered forests with n nodes, as tuples of tuples."""
  if n == 0:
    yield ()
    return
  for k in range(1, n + 1):  # size of the first tree
    for kids in trees(k - 1):
      for rest in trees(n - k):
        yield (kids,) + rest


def check(ck):
  from t5x import disable_gc_during_import as dg

  real_import = builtins.__import__
  state0 = gc.isenabled()
  env0 = os.environ.pop('EXPERIMENTAL_DISABLE_GC_DURING_IMPORT', None)
  tmp = tempfile.mkdtemp(prefix='g02-')
  sys.path.insert(0, tmp)
  sys.dont_write_bytecode, dwb = True, sys.dont_write_bytecode
  log = []
  builtins._g02_log = log  # read by the modules
  serial = 0

  def write(forest, prefix, fails, caught, form, counter):
    """Writes the modules of the forest; returns their names."""
    names = []
    for kids in forest:
      i = counter[0]
      counter[0] += 1
      name = f'{prefix}_{i}'
      below = write(kids, prefix, fails, caught, form, counter)
      lines = ['import gc, builtins', f'builtins._g02_log.append(("in", {i}, gc.isenabled()))']
      for b in below:
        stmt = {'import': f'import {b}', 'from': f'from {b} import done', 'as': f'import {b} as q',
                'call': f'__import__({b!r}, globals(), locals(), ["done"], 0)'}[form]
        if i in caught:
          lines += ['try:', '  ' + stmt, 'except ZeroDivisionError:', '  pass']
        else:
          lines.append(stmt)
        lines.append(f'builtins._g02_log.append(("after", {i}, gc.isenabled()))')
      if i == fails:
        lines.append('1 / 0')
      lines += [f'builtins._g02_log.append(("out", {i}, gc.isenabled()))', 'done = True']
      with open(os.path.join(tmp, name + '.py'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
      names.append(name)
    return names

  def unhook():
    builtins.__import__ = real_import
    os.environ.pop('EXPERIMENTAL_DISABLE_GC_DURING_IMPORT', None)

  def expected(forest, fails, caught):
    """The order in which modules start and end, and whether it fails."""
    out, counter = [], [0]

    def size(f):
      return sum(1 + size(k) for k in f)

    def run(kids):
      i = counter[0]
      counter[0] += 1
      out.append(('in', i))
      start = counter[0]
      total = size(kids)
      try:
        for k in kids:
          first = counter[0]
          try:
            run(k)
          except ZeroDivisionError:
            counter[0] = first + 1 + size(k)
            if i not in caught:
              raise
          out.append(('after', i))
        if i == fails:
          raise ZeroDivisionError()
      finally:
        counter[0] = start + total
      out.append(('out', i))

    results = []
    for t in forest:
      try:
        first = counter[0]
        run(t)
        results.append(True)
      except ZeroDivisionError:
        counter[0] = first + 1 + size(t)
        results.append(False)
    return out, results

  try:
    ck.part('import trees')
    for n in range(1, ck.pick(5, 6)):
      for forest in trees(n):
        for fails in [None] + list(range(n)):
          for caught in ([frozenset()] if fails is None else
                         [frozenset(c) for k in range(0, 2) for c in itertools.combinations(range(n), k)]):
            forms = ('import', 'from', 'as', 'call')
            for form in forms if n < (4 if ck.thorough else 3) else (forms[(n + len(caught) + (fails or 0)) % 4],):
              for enabled, hook in itertools.product((True, False), ('on', 'off', 'empty')):
                case = dict(forest=repr(forest), fails=fails, caught=sorted(caught), form=form, enabled=enabled, hook=hook)
                ck.case(str(case))
                serial += 1
                names = write(forest, f'g02m{serial}', fails, caught, form, [0])
                import importlib
                importlib.invalidate_caches()
                want, results = expected(forest, fails, caught)
                unhook()
                if hook == 'on':
                  os.environ['EXPERIMENTAL_DISABLE_GC_DURING_IMPORT'] = 'true'
                elif hook == 'empty':
                  os.environ['EXPERIMENTAL_DISABLE_GC_DURING_IMPORT'] = ''
                dg.try_disable_gc_during_import()
                ck.expect((builtins.__import__ is not real_import) == (hook == 'on'), 'the hook is installed', case)
                (gc.enable if enabled else gc.disable)()
                log.clear()
                try:
                  for name, good in zip(names, results):
                    for again in (False, True):
                      mark = len(log)
                      try:
                        exec(f'import {name}', {})  # pylint: disable=exec-used
                        got = True
                      except ZeroDivisionError:
                        got = False
                      ck.transition()
                      ck.expect(gc.isenabled() == enabled, 'the collector after an import', dict(case, module=name, again=again), enabled, gc.isenabled())
                      (gc.enable if enabled else gc.disable)()
                      if not again:
                        ck.expect(got == good, 'the outcome of an import', dict(case, module=name), good, got)
                      else:
                        if good:
                          ck.expect(len(log) == mark, 'a module is run again', dict(case, module=name))
                        del log[mark:]
                finally:
                  unhook()
                  (gc.enable if state0 else gc.disable)()
                ck.trace()
                ck.state((repr(log),))
                ck.expect([x[:2] for x in log] == want, 'order of execution', case, want, [x[:2] for x in log])
                inside = hook != 'on' and enabled
                ck.expect(all(x[2] == inside for x in log), 'the collector while a module runs', case, inside, list(log))
                for k in range(len(names) + n):
                  sys.modules.pop(f'g02m{serial}_{k}', None)
                for k in range(n):
                  os.unlink(os.path.join(tmp, f'g02m{serial}_{k}.py'))

    # the caller sees exactly what the plain import returns
    ck.part('results')
    for args in (('os.path',), ('os.path', None, None, ('join',), 0), ('os', {}, {}, (), 0), ('math', None, None, ['pi']),
                 ('xml.dom', None, None, ('minidom',), 0), ('path', {'__package__': 'os'}, None, ('x',), 1)):
      for kw in ({}, ) if len(args) > 1 else ({}, dict(fromlist=('join',)), dict(level=0)):
        ck.case((str(args), str(kw)))
        try:
          want = real_import(*args, **kw)
        except Exception as e:  # pylint: disable=broad-except
          want = type(e)
        for enabled in (True, False):
          (gc.enable if enabled else gc.disable)()
          try:
            got = dg.gc_disabled_import(*args, **kw)
          except Exception as e:  # pylint: disable=broad-except
            got = type(e)
          ck.expect(gc.isenabled() == enabled, 'the collector after an import', (args, kw), enabled, gc.isenabled())
          ck.expect(got is want, 'the result of an import', (args, kw), repr(want), repr(got))

    # ---- the context manager
    ck.part('nesting')

    words = []
    for depth in range(1, ck.pick(7, 9)):
      for tail in itertools.product(('ok', 'raise', 'return', 'again'), repeat=depth):
        words.append(tail)
    for enabled in (True, False):
      for w in words:
        case = dict(enabled=enabled, ends=w)
        ck.case(str(case))
        (gc.enable if enabled else gc.disable)()
        bad = []

        def go(k):
          """Enters level k; leaves it the way w[k] says."""
          before = gc.isenabled()
          try:
            with dg.disabled_gc():
              if gc.isenabled():
                bad.append(('inside', k))
              if k + 1 < len(w):
                go(k + 1)
              if gc.isenabled():
                bad.append(('inside after inner', k))
              if w[k] == 'raise':
                raise KeyError(k)
              if w[k] == 'return':
                return
          except KeyError as e:
            if e.args != (k,):
              bad.append(('exception', k, e.args))
          else:
            if w[k] == 'raise':
              bad.append(('swallowed', k))
          finally:
            if gc.isenabled() != before:
              bad.append(('after', k, before))
          if w[k] == 'again':
            with dg.disabled_gc():
              if gc.isenabled():
                bad.append(('second time', k))
            if gc.isenabled() != before:
              bad.append(('after the second time', k))

        go(0)
        ck.transition(len(w))
        ck.expect(not bad, 'the collector in nested contexts', case, None, bad)
        ck.expect(gc.isenabled() == enabled, 'the collector afterwards', case, enabled, gc.isenabled())
    # as a decorator and with exceptions that are not errors
    for exc in (KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration):
      for enabled in (True, False):
        (gc.enable if enabled else gc.disable)()
        ck.case((exc.__name__, enabled))
        try:
          with dg.disabled_gc():
            raise exc()
        except (exc, RuntimeError):
          pass
        ck.expect(gc.isenabled() == enabled, 'the collector after an exception', (exc.__name__, enabled), enabled, gc.isenabled())
  finally:
    unhook()
    (gc.enable if state0 else gc.disable)()
    if env0 is not None:
      os.environ['EXPERIMENTAL_DISABLE_GC_DURING_IMPORT'] = env0
    sys.dont_write_bytecode = dwb
    sys.path.remove(tmp)
    del builtins._g02_log
    shutil.rmtree(tmp, ignore_errors=True)
