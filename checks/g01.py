"""G01: command-line configuration."""
import copy
import itertools
import os
import shutil
import sys
import tempfile
from unittest import mock

TECHNIQUE = 'enum'
LEVEL = 'exploration'
RULE = ('every argument list up to a length over an alphabet of argument shapes, and every value '
        'string up to a length over a special-character alphabet, rewritten and compared with an '
        'independent definition; every list also given to the entry point of the programs, with '
        'the flags it leaves read back; every product of configuration sources, launchers and '
        'overrides; every history of bindings parsed, summarised and read back; '
        'distinct = the argument list, value or configuration')
ASSUMPTIONS = ['gin, absl and fiddle behave as installed']


def reference(args):
  out = []
  for a in args:
    if a[:6] == '--gin.':
      i = a.find('=')
      if i < 0:
        raise ValueError(a)
      out.append('--gin_bindings=' + a[6:i] + ' = ' + a[i + 1:])
    else:
      out.append(a)
  return out


def check(ck):
  import gin
  import fiddle as fdl
  from absl import flags
  from etils import epath
  from absl.testing import flagsaver
  import jax
  from fiddle.experimental import serialization
  from t5x import main as t5x_main
  from t5x import config_utils
  from t5x import gin_utils
  import lib_fdl

  tmp = tempfile.mkdtemp(prefix='g01-')

  def rewritten(args, case):
    before = list(args)
    try:
      want = reference(args)
    except ValueError:
      ck.expect_raises('an assignment without an equals sign', lambda: list(gin_utils.rewrite_gin_args(args)), case, ValueError)
      return None
    ok, got = ck.guarded('rewriting', lambda: list(gin_utils.rewrite_gin_args(args)), case)
    if ok:
      ck.expect(got == want, 'rewritten arguments', case, want, got)
      ck.expect(list(args) == before, 'the argument list was changed in place', case, before, list(args))
      ck.expect(list(gin_utils.rewrite_gin_args(tuple(got))) == want, 'rewriting twice', case)
    return want

  # ---- rewriting
  ck.part('argument lists')
  shapes = ['--gin.a=1', "--gin.s/m.f.p='x=y'", '--gin.bad', '--gin.=', '--gin', '--gin_file=f=g', '--gin_bindings=a = 1',
            'gin.a=1', '-gin.a=1', '--ginx.a=1', '--x=--gin.a=2', '', '--', '--gin.a=--gin.b=1', ' --gin.a=1', '--gin.a =1']
  for n in range(ck.pick(4, 6)):
    for args in itertools.product(shapes, repeat=n):
      ck.case(args)
      rewritten(list(args), dict(args=args))

  ck.part('values')
  alphabet = 'a= \'"\n-.,[%@#\\$'
  for n in range(ck.pick(4, 6)):
    for v in itertools.product(alphabet, repeat=n):
      v = ''.join(v)
      ck.case(v)
      for name in ('p', 'a.b', 's/t.p', 'm', ' p', '.', 'p-q', 'gin.x') if n < 3 else ('a.p',):
        rewritten([f'--gin.{name}={v}'], dict(name=name, value=v))
        if n < 3 and '=' not in v:
          rewritten([f'--gin.{name}{v}'], dict(name=name + v))

  # ---- the entry point
  ck.part('entry point')
  FLAGS = flags.FLAGS
  seen = {}

  def fake_main(argv):
    seen.update(argv=list(argv[1:]), gin=list(FLAGS.gin_bindings), files=list(FLAGS.gin_file or []),
                fdl=list(FLAGS.fdl_set), config=FLAGS.fdl_config, dry=FLAGS.dry_run, using=config_utils.using_fdl())

  def enter(run, args):
    seen.clear()
    with flagsaver.flagsaver(), mock.patch.object(sys, 'argv', ['prog'] + list(args)), \
        mock.patch.object(sys, 'stderr', open(os.devnull, 'w')), mock.patch.object(sys, 'stdout', open(os.devnull, 'w')):
      FLAGS(['prog'])  # as jax.config.parse_flags_with_absl() leaves it in a new process
      try:
        run(fake_main)
      except SystemExit as e:
        return e.code
      finally:
        sys.stdout.close()
        sys.stderr.close()
    return None

  tokens = {
      '--gin.a.b="x = y"': ('gin', 'a.b = "x = y"'), '--gin.s/p=1=2': ('gin', 's/p = 1=2'),
      '--gin_bindings=q = 3': ('gin', 'q = 3'), '--gin_file=f.gin': ('files', 'f.gin'),
      'word': ('argv', 'word'), '--dry_run': ('dry', True),
      '--fdl.a=5': ('fdl', 'a=5'), '--fdl_set=b=6': ('fdl', 'b=6'), '--fdl_config=lib_fdl.base': ('config', 'lib_fdl.base')}
  for n in range(ck.pick(3, 4)):
    for args in itertools.permutations(tokens, n):
      case = dict(args=args)
      want = dict(argv=[], gin=[], files=[], fdl=[], config=None, dry=False)
      for a in args:
        k, v = tokens[a]
        if isinstance(want[k], list):
          want[k].append(v)
        else:
          want[k] = v
      want['using'] = want['config'] is not None
      runs = [('config_utils.run', config_utils.run)]
      if not any(a.startswith('--fdl.') for a in args):
        runs.append(('gin_utils.run', gin_utils.run))
      for name, run in runs:
        ck.case((args, name))
        code = enter(run, args)
        ck.expect(not code and seen == want, f'flags as seen by the program under {name}', case, want, dict(seen, exit=code))
  for bad in ('--gin.a', '--gin.a.b'):
    ck.case(bad)
    ck.expect_raises('an assignment without a value', lambda: (enter(config_utils.run, [bad]), seen.get('gin') and None), dict(arg=bad), ValueError)

  # ---- helper functions
  ck.part('helpers')
  values = [0, 1, -1, '', 'a', None, [], [0], 0.0, 1.5, (), {}, True, False]
  for v in values:
    ck.case(('bool', repr(v)))
    got = gin_utils.bool_fn(v)
    ck.expect(got is bool(v), 'bool_fn', v, bool(v), got)
  for a, b in itertools.product((0, 1, -2, 2.5, 'x', [1], [], (2,), 'yz'), repeat=2):
    try:
      want = a + b
    except TypeError:
      ck.expect_raises('sum_fn', lambda: gin_utils.sum_fn(a, b), (a, b), TypeError)
      continue
    ck.case(('sum', repr((a, b))))
    got = gin_utils.sum_fn(a, b)
    ck.expect(got == want and type(got) is type(want), 'sum_fn', (a, b), want, got)

  def split(t, sep, k):
    out = []
    while k:
      i = t.find(sep)
      if i < 0:
        break
      out.append(t[:i])
      t, k = t[i + len(sep):], k - 1
    return out + [t]

  for n in range(ck.pick(5, 6)):
    for t in itertools.product('a:/', repeat=n):
      t = ''.join(t)
      for sep, k in itertools.product((':', '/', '::', 'a/'), (-1, 0, 1, 2)):
        want = split(t, sep, k)
        ck.case(('split', t, sep, k))
        got = gin_utils.string_split_fn(t, sep, k)
        ck.expect(got == want, 'string_split_fn', (t, sep, k), want, got)
        for i in (0, 1, -1, -2, 2):
          if -len(want) <= i < len(want):
            got = gin_utils.string_split_fn(t, sep, k, i)
            ck.expect(got == want[i], 'string_split_fn with an index', (t, sep, k, i), want[i], got)
          else:
            ck.expect_raises('string_split_fn', lambda: gin_utils.string_split_fn(t, sep, k, i), (t, sep, k, i), IndexError)

  # ---- parsing: files, search paths, bindings, and the summary
  ck.part('parsing')

  class Writer:

    def __init__(self):
      self.log = []

    def write_texts(self, step, texts):
      self.log.append((step, dict(texts)))

    def flush(self):
      self.log.append('flush')

  @gin.configurable(module='g01')
  def target(x=None, y=None, z=None):
    return x, y, z

  try:
    d1, d2 = os.path.join(tmp, 'd1'), os.path.join(tmp, 'd2')
    for d in (d1, d2):
      os.makedirs(d)

    def put(d, name, text):
      with open(os.path.join(d, name), 'w') as f:
        f.write(text)

    put(d1, 'g01_both.gin', "target.x = 'first'\n")
    put(d2, 'g01_both.gin', "target.x = 'second'\n")
    put(d2, 'g01_only.gin', "target.x = 'only'\ntarget.y = 2\n")
    put(d1, 'g01_inc.gin', "include 'g01_only.gin'\ntarget.y = 3\n")
    files = {'g01_both.gin': [('x', None)], 'g01_only.gin': [('x', 'only'), ('y', 2)],
             'g01_inc.gin': [('x', 'only'), ('y', 3)], os.path.join(d2, 'g01_both.gin'): [('x', 'second')]}
    binds = {"target.x = 'bound'": ('x', 'bound'), 'target.y = [1, 2]': ('y', [1, 2]),
             'target.z = @gin_utils.sum_fn()': ('z', None), "target.x = 'again'": ('x', 'again')}
    saved_paths = list(gin.config._LOCATION_PREFIXES) if hasattr(gin.config, '_LOCATION_PREFIXES') else None
    k = 0
    for paths in ((d1, d2), (d2, d1)):
      for fs in [()] + list(itertools.permutations(files, 1)) + list(itertools.permutations(files, 2)):
        for bs in itertools.chain.from_iterable(itertools.permutations(binds, n) for n in range(ck.pick(3, 5))):
          case = dict(paths=[os.path.basename(p) for p in paths], files=fs, bindings=bs)
          ck.case(str(case))
          gin.clear_config()
          if saved_paths is not None:
            gin.config._LOCATION_PREFIXES[:] = saved_paths
          elif paths[0] != d1:
            continue
          want = dict(x=None, y=None, z=None)
          for f in fs:
            for a, v in files[f]:
              want[a] = v if v is not None else ('first' if paths[0] == d1 else 'second')
          for b in bs:
            want[binds[b][0]] = binds[b][1]
          extra = ['gin_utils.sum_fn.var1 = 4', 'gin_utils.sum_fn.var2 = 5'] if any('sum_fn' in b for b in bs) else []
          k += 1
          finalize = k % 2 == 0
          sp, ff, bb = list(paths), list(fs), list(bs) + extra
          ok, _ = ck.guarded('parsing', lambda: gin_utils.parse_gin_flags(sp, ff, bb, finalize_config=finalize), case)
          if not ok:
            continue
          ck.expect((sp, ff, bb) == (list(paths), list(fs), list(bs) + extra), 'arguments were changed in place', case)

          def read():
            x, y, z = target()
            return dict(x=x, y=y, z=z)

          if any('sum_fn' in b for b in bs):
            want['z'] = 9
          want['z'] = want['z']

          def called(v):
            return {n: (q() if callable(q) else q) for n, q in v.items()}

          got = called(read())
          ck.expect(got == want, 'parameters after parsing', case, want, got)
          ck.expect(gin.config_is_locked() == finalize, 'finalised configuration', case, finalize, gin.config_is_locked())
          # what is recorded reproduces the run
          for process in (0, 1):
            dest = os.path.join(tmp, f'model{k}-{process}')
            w = Writer() if k % 3 else None
            with mock.patch.object(jax, 'process_index', lambda *a, **kw: process):
              ck.guarded('summary', lambda: gin_utils.summarize_gin_config(dest, w, 7), case)
            path = os.path.join(dest, 'config.gin')
            if process:
              ck.expect(not os.path.exists(dest) and not (w and w.log), 'a process other than the first writes', case)
              continue
            if not ck.expect(os.path.exists(path), 'the configuration is not recorded', case):
              continue
            text = open(path).read()
            if w:
              ck.expect(len(w.log) == 2 and w.log[0][0] == 7 and set(w.log[0][1]) == {'config'} and w.log[1] == 'flush'
                        and w.log[0][1]['config'] == gin.markdown(text), 'summary written', case, None, w.log)
            gin.clear_config()
            ck.guarded('parsing the record', lambda: gin.parse_config(text, skip_unknown=False), case)
            again = called(read())
            ck.expect(again == want, 'the recorded configuration differs', case, want, again)
            shutil.rmtree(dest)
    for skip, ok in ((False, False), (True, True), (['g01_unknown'], True), (['other'], False)):
      gin.clear_config()
      call = lambda: gin_utils.parse_gin_flags([], [], ['g01_unknown.x = 1', 'target.x = 3'], skip_unknown=skip)
      ck.case(('unknown', str(skip)))
      if ok:
        ck.guarded('unknown names', call, skip)
        ck.expect(target()[0] == 3, 'a binding next to an unknown one', skip, 3, target()[0])
      else:
        ck.expect_raises('an unknown name', call, skip, Exception)
    gin.clear_config()

    # ---- fiddle
    ck.part('fiddle')
    cfgs = {'base': (lib_fdl.base, 'launch', dict(a=3, b='two')), 'nested': (lib_fdl.nested, 'launch', dict(a=4, b=[1, 2])),
            'partial': (lib_fdl.partial, 'launch', dict(a=5, b='two')), 'wrong': (lib_fdl.wrong, 'other', dict(a=6, b='two'))}
    for n, (fn, _, _) in cfgs.items():
      try:
        put(tmp, n + '.json', serialization.dump_json(fn()))
      except Exception as e:  # pylint: disable=broad-except
        raise RuntimeError(f'cannot serialise {n}') from e
    for name, file, gfile, gbind, over, target_fn in itertools.product(
        [None] + list(cfgs), [None] + list(cfgs), ([], ['x.gin']), ([], ['q = 1']), ([], ['a=50'], ['a=50', "b='z'"]), ('launch', 'other')):
      if name is None and file is None:
        continue
      if name and file and (over or target_fn == 'other'):
        continue
      case = dict(config=name, file=file, gin_file=gfile, gin_bindings=gbind, set=over, function=target_fn)
      ck.case(str(case))
      with flagsaver.flagsaver(fdl_config=f'lib_fdl.{name}' if name else None,
                               fdl_config_file=epath.Path(tmp) / (file + '.json') if file else None,
                               gin_file=gfile, gin_bindings=gbind, fdl_set=over):
        fn = getattr(lib_fdl, target_fn)
        call = lambda: config_utils.config_with_fiddle(fn)
        lib_fdl.CALLS.clear()
        if gfile or gbind or (name and file) or cfgs[name or file][1] != target_fn:
          ck.expect_raises('conflicting sources or the wrong function', call, case, ValueError)
          ck.expect(not lib_fdl.CALLS, 'the launcher ran', case)
          continue
        ok, config = ck.guarded('configuring', call, case)
        if not ok:
          continue
        text = str(config_utils.sanitize_summary_getter(config))
        ok, run = ck.guarded('building', lambda: fdl.build(config), case)
        if not ok:
          continue
        ck.expect(not lib_fdl.CALLS, 'building runs the launcher', case)
        ck.guarded('running', run, case)
        want = dict(cfgs[name or file][2])
        for o in over:
          want['ab'.index(o[0]) and 'b' or 'a'] = 50 if o[0] == 'a' else 'z'
        got = [(c[0], c[1], c[2]) for c in lib_fdl.CALLS]
        ck.expect(got == [(target_fn, want['a'], want['b'])], 'the call', case, want, got)
        if lib_fdl.CALLS:
          summ = lib_fdl.CALLS[0][3] or (lib_fdl.CALLS[0][4] and lib_fdl.CALLS[0][4].summarize)
          if (name or file) in ('base', 'nested'):
            for process in (0, 1):
              dest = os.path.join(tmp, 'f', f'out{process}')
              w = Writer()
              with mock.patch.object(jax, 'process_index', lambda *a, **kw: process):
                ok, _ = ck.guarded('summary', lambda: summ(dest, w, 3), case)
              if not ok:
                continue
              if process:
                ck.expect(not os.path.exists(dest) and not w.log, 'a process other than the first writes', case)
                continue
              rec = open(os.path.join(dest, 'fiddle_config.txt')).read()
              ck.expect(rec == text, 'recorded configuration', case, text, rec)
              ck.expect(w.log == [(3, {'fiddle_config': text}), 'flush'], 'summary written', case, None, w.log)
              js = os.path.join(dest, 'fiddle_config.json')
              if ck.expect(os.path.exists(js), 'no machine-readable configuration', case):
                again = serialization.load_json(open(js).read())
                lib_fdl.CALLS.clear()
                fdl.build(fdl.cast(fdl.Partial, again))()
                ck.expect([(c[0], c[1], c[2]) for c in lib_fdl.CALLS] == [(target_fn, want['a'], want['b'])],
                          'the recorded configuration makes another call', case, want, lib_fdl.CALLS)
              shutil.rmtree(os.path.join(tmp, 'f'))

    # preparing leaves the given configuration alone
    for n in ('base', 'nested'):
      c = cfgs[n][0]()
      ref = copy.deepcopy(c)
      prep = config_utils.prepare_to_summarize(c)
      ck.case(('prepare', n))
      ck.expect(c == ref, 'prepare_to_summarize changes its argument', n)
      clean = config_utils.sanitize_summary_getter(prep)
      ck.expect(prep != clean and 'lambda' not in str(clean), 'the getter is still there', n)
      raw = fdl.build(c)
    ck.expect_raises('summarising without a configuration',
                     lambda: config_utils.direct_summarize_fiddle_config(os.path.join(tmp, 'no'), None, 0), None, ValueError)
    for a, b, h in itertools.product((None, 'x'), (None, 'y'), (False, True)):
      with flagsaver.flagsaver(fdl_config=a, fdl_config_file=b, fdl_help=h):
        ck.case(('using', a, b, h))
        ck.expect(bool(config_utils.using_fdl()) == bool(a or b or h), 'using_fdl', (a, b, h))

    # ---- dispatch of the programs
    ck.part('dispatch')
    import types
    serial = 0
    entry = {'train': 'train', 'eval': 'evaluate', 'infer': 'infer', 'precompile': 'precompile', 'export': 'save'}
    for mode, fn_name in entry.items():
      for dry, use_fdl, extra_args in itertools.product((False, True), (False, True), (False, True)):
        case = dict(mode=mode, dry_run=dry, fiddle=use_fdl, extra=extra_args)
        ck.case(str(case))
        calls = []
        serial += 1
        uniq = f'{fn_name}_g01_{serial}'
        stub = types.ModuleType('t5x.' + mode)

        def target_of(mode):
          def f(x=1):
            calls.append((mode, x))
          f.__name__ = f.__qualname__ = uniq
          f.__module__ = 'lib_fdl'
          return f

        for m, f in entry.items():
          setattr(stub, f, target_of(m) if m == mode else None)
        stub.create_task_from_tfexample_file = lambda: None
        gin.clear_config()
        with flagsaver.flagsaver(), mock.patch.dict(sys.modules, {'t5x.' + mode: stub}):
          import importlib
          real = importlib.import_module
          fake = lambda n, *a: stub if n == 't5x.' + mode else real(n, *a)
          FLAGS.run_mode = t5x_main.RunMode[mode.upper()]
          FLAGS.dry_run = dry
          FLAGS.gin_file = []
          FLAGS.gin_bindings = [f'{uniq}.x = 5']
          with mock.patch.object(importlib, 'import_module', fake), \
              mock.patch.object(config_utils, 'using_fdl', lambda: use_fdl), \
              mock.patch.object(config_utils, 'config_with_fiddle', lambda f: fdl.Partial(f, x=6)):
            argv = ['prog'] + (['word'] if extra_args else [])
            if extra_args:
              ck.expect_raises('surplus words on the command line', lambda: t5x_main.main(argv), case, Exception)
            else:
              ck.guarded('main', lambda: t5x_main.main(argv), case)
        want = [] if dry or extra_args else [(mode, 6 if use_fdl else 5)]
        ck.expect(calls == want, 'what was started', case, want, calls)
    with flagsaver.flagsaver():
      FLAGS.run_mode = None
      ck.expect_raises('no run mode', lambda: t5x_main.main(['prog']), None, ValueError)
  finally:
    gin.clear_config()
    shutil.rmtree(tmp, ignore_errors=True)
