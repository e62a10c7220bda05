"""Simulated file system.

Files live in a scratch directory.  Everything opened for writing below it goes
through a SimFile: text is collected in a user-space buffer of a decided size
and reaches the (real, scratch) file only when that buffer is flushed, so that a
simulated kill loses exactly what a real one would lose.  Every operation that
reaches the system (truncating open, flush of a chunk, close, replace, remove,
read) is a fault point.
"""
import builtins
import errno
import io
import os
import weakref

from . import core
from .core import SimCrash

real_open = builtins.open
real_replace, real_rename, real_remove, real_fsync = os.replace, os.rename, os.remove, os.fsync


def _err(e, path):
	return OSError(e, os.strerror(e)+' (simulated)', path)


class SimFS:
	def __init__(self, world, root):
		self.w = world
		self.root = os.path.abspath(root)
		self.ops = 0
		self.open_files = weakref.WeakSet()
		self.crash_at = None       # index of the operation that kills the program
		self.fail_at = None        # (index, errno name, sticky)
		self.failing = False
		self.bufsize = 8192
		self.armed = False
		self.oplog = []

	def inside(self, path):
		try:
			p = os.path.abspath(os.fspath(path))
		except TypeError:
			return False
		if isinstance(p, bytes):
			p = os.fsdecode(p)
		return p.startswith(self.root+os.sep)

	def arm(self, crash_at=None, fail_at=None, bufsize=8192, interrupt_at=None):
		self.armed = True
		self.ops = 0
		self.oplog = []
		self.failing = False
		self.crash_at, self.fail_at, self.bufsize, self.interrupt_at = crash_at, fail_at, bufsize, interrupt_at

	def disarm(self):
		self.armed = False
		self.failing = False
		self.bufsize = 8192

	def op(self, kind, path):
		"""called before every operation that reaches the system"""
		w = self.w
		w.step()
		name = os.path.basename(str(path))
		if not self.armed:
			return None
		i = self.ops
		self.ops += 1
		self.oplog.append(kind)
		w.event('fs', i, kind, name)
		if self.crash_at is not None and i == self.crash_at:
			w.note_fault('crash', kind)
			self.kill()
			raise SimCrash()
		if self.interrupt_at is not None and i == self.interrupt_at:
			w.note_fault('interrupt', kind)
			raise KeyboardInterrupt()
		if self.fail_at is not None:
			k, e, sticky = self.fail_at
			if i == k or (self.failing and sticky):
				self.failing = True
				w.note_fault('io_'+e, kind)
				return e
		return None

	def kill(self):
		for f in list(self.open_files):
			f.abandon()


class SimFile:
	def __init__(self, fs, path, mode, binary):
		self._fs, self._path, self._binary = fs, os.fspath(path), binary
		self._abandoned = True
		self.closed = True
		self.mode = mode
		self.name = self._path
		self.encoding = 'utf-8'
		e = fs.op('open', path)
		if e:
			raise _err(getattr(errno, e), self._path)
		m = mode.replace('t', '').replace('b', '')
		self._raw = real_open(self._path, m+'b', buffering=0)
		self._buf = b''
		self._abandoned = False
		self.closed = False
		self._in_write = False
		fs.open_files.add(self)

	def abandon(self):
		self._abandoned = True
		self.closed = True
		self._buf = b''
		try:
			self._raw.close()
		except Exception:
			pass
		self._fs.open_files.discard(self)

	def writable(self):
		return True

	def readable(self):
		return False

	def write(self, s):
		if self.closed:
			if self._abandoned:
				raise SimCrash()
			raise ValueError('I/O operation on closed file.')
		if self._binary:
			b = bytes(s)
		else:
			if not isinstance(s, str):
				raise TypeError('write() argument must be str, not '+type(s).__name__)
			b = s.encode('utf-8')
		self._buf += b
		while len(self._buf) >= self._fs.bufsize:
			self._push(self._fs.bufsize)
		return len(s)

	def writelines(self, ls):
		for l in ls:
			self.write(l)

	def _push(self, n):
		chunk = self._buf[:n]
		e = self._fs.op('write', self._path)
		if e:
			if len(chunk) > 1:     # short write, then the error
				self._raw.write(chunk[:len(chunk)//2])
				self._buf = self._buf[len(chunk)//2:]
			raise _err(getattr(errno, e), self._path)
		self._raw.write(chunk)
		self._buf = self._buf[n:]

	def flush(self):
		while self._buf:
			self._push(max(1, self._fs.bufsize))

	def close(self):
		if self.closed:
			return
		try:
			self.flush()
			if self._fs.op('close', self._path):
				raise _err(errno.EIO, self._path)
		finally:
			if not self.closed:
				self.closed = True
				self._raw.close()
				self._fs.open_files.discard(self)

	def fileno(self):
		return self._raw.fileno()

	def tell(self):
		return self._raw.tell()+len(self._buf)

	def isatty(self):
		return False

	def __enter__(self):
		return self

	def __exit__(self, *a):
		self.close()

	def __del__(self):
		# what the interpreter does with a file object that is garbage
		if not self.closed and not self._abandoned:
			try:
				self.close()
			except BaseException:
				pass


class SimReader:
	"""a real reading file with read errors"""

	def __init__(self, fs, f, path):
		self._fs, self._f, self._path = fs, f, path

	def _op(self):
		e = self._fs.op('read', self._path)
		if e:
			raise _err(errno.EIO, self._path)

	def read(self, *a):
		self._op()
		return self._f.read(*a)

	def readline(self, *a):
		self._op()
		return self._f.readline(*a)

	def readlines(self, *a):
		self._op()
		return self._f.readlines(*a)

	def __iter__(self):
		return self

	def __next__(self):
		self._op()
		l = self._f.readline()
		if not l:
			raise StopIteration
		return l

	def __enter__(self):
		return self

	def __exit__(self, *a):
		self._f.close()

	def __getattr__(self, n):
		return getattr(self._f, n)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
	w = core.CURRENT
	if w is None or w.fs is None or isinstance(file, int) or not w.fs.inside(file):
		return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
	if 'r' in mode and '+' not in mode:
		e = w.fs.op('open-read', file)
		if e:
			raise _err(getattr(errno, e), os.fspath(file))
		return SimReader(w.fs, real_open(file, mode, buffering, encoding, errors, newline), file)
	if '+' in mode:
		return real_open(file, mode, buffering, encoding, errors, newline)
	return SimFile(w.fs, file, mode, 'b' in mode)


def _two(real, kind):
	def f(a, b, *args, **kw):
		w = core.CURRENT
		if w is not None and w.fs is not None and w.fs.inside(b):
			e = w.fs.op(kind, b)
			if e:
				raise _err(errno.EIO, os.fspath(b))
		return real(a, b, *args, **kw)
	return f


def _one(real, kind):
	def f(a, *args, **kw):
		w = core.CURRENT
		if w is not None and w.fs is not None and not isinstance(a, int) and w.fs.inside(a):
			e = w.fs.op(kind, a)
			if e:
				raise _err(errno.EIO, os.fspath(a))
		return real(a, *args, **kw)
	return f


def sim_fsync(fd):
	w = core.CURRENT
	if w is not None and w.fs is not None:
		w.fs.op('fsync', 'fd')
		return None
	return real_fsync(fd)


def install():
	builtins.open = sim_open
	io.open = sim_open
	os.replace = _two(real_replace, 'replace')
	os.rename = _two(real_rename, 'replace')
	os.remove = _one(real_remove, 'remove')
	os.unlink = os.remove
	os.fsync = sim_fsync
