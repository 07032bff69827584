"""Crash-point enumeration: records a directory after every mutating call.

`run.sh` preloads build/crashfs.so into checks that declare CRASHFS. Each
mutating libc call below the recorded root yields one image of the tree; images
of half-done writes are derived from consecutive ones. Recovery then runs on
every distinct image.
"""
import ctypes
import os
import shutil
import struct
import tempfile

_lib = None


def lib():
  global _lib
  if _lib is None:
    _lib = ctypes.CDLL(None)
    _lib.crashfs_start  # AttributeError if not preloaded
    _lib.crashfs_mark.argtypes = [ctypes.c_int64]
  return _lib


class Image:
  """One directory state: files {path: bytes}, dirs set, op label, mark."""

  def __init__(self, files, dirs, op, mark, torn=False):
    self.files, self.dirs, self.op, self.mark = files, dirs, op, mark
    self.torn = torn

  def key(self, rename=None):
    f = tuple(sorted(self.files.items()))
    d = tuple(sorted(self.dirs))
    return (f, d)

  def write(self, root):
    for d in sorted(self.dirs):
      os.makedirs(os.path.join(root, d), exist_ok=True)
    for p, b in self.files.items():
      q = os.path.join(root, p)
      os.makedirs(os.path.dirname(q), exist_ok=True)
      with open(q, 'wb') as f:
        f.write(b)


class Recorder:
  """with Recorder(root) as r: ...; r.mark(n); afterwards r.images."""

  def __init__(self, root):
    self.root = os.path.realpath(root)
    fd, self.log = tempfile.mkstemp(prefix='crashlog')
    os.close(fd)
    self.images = []

  def __enter__(self):
    if lib().crashfs_start(self.root.encode(), self.log.encode()) < 0:
      raise OSError('crashfs_start')
    return self

  def mark(self, n):
    lib().crashfs_mark(n)

  def __exit__(self, *a):
    lib().crashfs_stop()
    self._parse()
    os.unlink(self.log)

  def _parse(self):
    b = open(self.log, 'rb').read()
    i, mark = 0, 0
    u32 = lambda: struct.unpack_from('<I', b, i)[0]
    while i < len(b):
      t = b[i:i + 1]
      i += 1
      if t == b'M':
        mark = struct.unpack_from('<q', b, i)[0]
        i += 8
        continue
      assert t == b'S', t
      n = u32(); i += 4
      op = b[i:i + n].decode(); i += n
      files, dirs = {}, set()
      while True:
        t = b[i:i + 1]
        i += 1
        if t == b'E':
          break
        n = u32(); i += 4
        p = b[i:i + n].decode(); i += n
        if t == b'D':
          dirs.add(p)
        else:
          (m,) = struct.unpack_from('<Q', b, i)
          i += 8
          files[p] = b[i:i + m]
          i += m
      self.images.append(Image(files, frozenset(dirs), op, mark))

  def crash_points(self):
    """Every recorded image plus half-done versions of each file write."""
    out, prev = [], None
    for im in self.images:
      # Renaming is atomic; everything else that grows a file is a write.
      if prev is not None and not im.op.startswith(('rename', 'link')):
        for p, new in im.files.items():
          old = prev.files.get(p, b'')
          if p in prev.files and new != old and len(new) > len(old) + 1:
            for k in {len(old) + (len(new) - len(old)) // 2, len(new) - 1}:
              f = dict(prev.files)
              f[p] = new[:k]
              out.append(Image(f, prev.dirs, f'half of: {im.op}', im.mark, True))
      out.append(im)
      prev = im
    seen, res = set(), []
    for im in out:
      k = (im.mark, hash(im.key()))
      if k not in seen:
        seen.add(k)
        res.append(im)
    return res


class Scratch:
  """A scratch directory tree removed at exit."""

  def __init__(self):
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    try:
      self.path = tempfile.mkdtemp(prefix='verif', dir=base)
    except OSError:
      self.path = tempfile.mkdtemp(prefix='verif')
    self.n = 0

  def new(self, name=None):
    self.n += 1
    p = os.path.join(self.path, name or f'd{self.n}')
    os.makedirs(p)
    return p

  def clear(self, p):
    assert p.startswith(self.path + os.sep)
    shutil.rmtree(p, ignore_errors=True)

  def __enter__(self):
    return self

  def __exit__(self, *a):
    shutil.rmtree(self.path, ignore_errors=True)
