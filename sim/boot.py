"""Installs the seams, then imports jajapy from the repository's working tree."""
import gc
import io
import os
import random
import signal
import sys
import time

from . import core
from .core import SimHang

REPO = os.environ.get('JAJAPY_REPO', '/repo')
_real = {}
jajapy = None
STORMPY = True


class _Bar:
	"""stub of alive_progress' bar (the real one runs a thread)"""
	def __init__(self):
		self.text = ''
		self.n = 0

	def __call__(self, *a, **k):
		self.n += 1


class _AliveBar:
	def __init__(self, total=None, *a, **k):
		self.bar = _Bar()
		if core.CURRENT is not None and not core.CURRENT.in_task:
			core.CURRENT.bars.append((self.bar, total, k))

	def __enter__(self):
		return self.bar

	def __exit__(self, *a):
		return False


class _NoStormpy:
	"""hides stormpy"""
	def find_spec(self, name, path=None, target=None):
		if name == 'stormpy' or name.startswith('stormpy.'):
			raise ModuleNotFoundError("No module named 'stormpy'", name='stormpy')
		return None


def _rand_wrap(f, extremes=None):
	def g(*a, **k):
		w = core.CURRENT
		if w is None:
			return f(*a, **k)
		w.draw()
		if extremes is not None and w.fault('extreme_draw'):
			r = extremes(w, f, *a, **k)
			if r is not None:
				return r
		return f(*a, **k)
	g.__name__ = getattr(f, '__name__', 'draw')
	return g


def _many(size, *params):
	"""a vectorised draw: several values at once"""
	import numpy
	return size is not None or any(numpy.ndim(p) > 0 for p in params)


def _ex_random(w, f):
	return (0.0, 1.0-2.0**-53, 2.0**-53, 0.5)[w.choose(4)]


def _ex_expo(w, f, scale=1.0, size=None):
	if _many(size, scale):
		return None
	return (float(scale)*1e-12, float(scale)*40.0)[w.choose(2)]


def _ex_rand(w, f, *shape):
	if shape:
		return None
	return (0.0, 1.0-2.0**-53)[w.choose(2)]


def _ex_geom(w, f, p, size=None):
	if _many(size, p):
		return None
	return (1, 40)[w.choose(2)]


def _ex_normal(w, f, loc=0.0, scale=1.0, size=None):
	if _many(size, loc, scale):
		return None
	return (float(loc)+8.0*float(scale), float(loc)-8.0*float(scale))[w.choose(2)]


def install(stormpy=True):
	"""once per process, before jajapy is imported"""
	global STORMPY
	STORMPY = stormpy
	sys.dont_write_bytecode = True
	import numpy
	import numpy.random as npr
	import scipy.stats       # noqa: F401  (heavy third-party imports first)
	import sympy             # noqa: F401
	import multiprocessing
	import multiprocessing.pool
	import concurrent.futures
	import concurrent.futures.process
	import concurrent.futures.thread
	import alive_progress
	if stormpy:
		import stormpy as _s  # noqa: F401
	else:
		sys.meta_path.insert(0, _NoStormpy())
	from . import pool, fs

	# pools
	multiprocessing.Pool = pool.SimPool
	multiprocessing.pool.Pool = pool.SimPool
	multiprocessing.pool.ThreadPool = pool.SimThreadPool
	concurrent.futures.ProcessPoolExecutor = pool.SimExecutor
	concurrent.futures.process.ProcessPoolExecutor = pool.SimExecutor
	concurrent.futures.ThreadPoolExecutor = pool.SimThreadExecutor
	concurrent.futures.thread.ThreadPoolExecutor = pool.SimThreadExecutor
	concurrent.futures.as_completed = pool.sim_as_completed
	concurrent.futures.wait = pool.sim_wait

	class _Ctx:
		Pool = pool.SimPool

		def __init__(self, base):
			self._b = base

		def cpu_count(self):
			return multiprocessing.cpu_count()

		def __getattr__(self, n):
			return getattr(self._b, n)
	rgc = multiprocessing.get_context
	multiprocessing.get_context = lambda m=None: _Ctx(rgc(m))

	# CPU count
	rc = os.cpu_count

	def cpu_count():
		w = core.CURRENT
		return w.cpus if w is not None else rc()
	os.cpu_count = cpu_count
	multiprocessing.cpu_count = cpu_count
	if hasattr(os, 'sched_getaffinity'):
		ra = os.sched_getaffinity
		os.sched_getaffinity = lambda pid: set(range(core.CURRENT.cpus)) if core.CURRENT is not None else ra(pid)
	if hasattr(os, 'process_cpu_count'):
		os.process_cpu_count = cpu_count

	# clocks
	for n in ('perf_counter', 'time', 'monotonic', 'process_time'):
		def mk(real):
			def clock():
				w = core.CURRENT
				return w.clock() if w is not None else real()
			return clock
		_real[n] = getattr(time, n)
		setattr(time, n, mk(_real[n]))
	rs = time.sleep

	def sleep(s):
		w = core.CURRENT
		if w is None:
			return rs(s)
		w.step(s)
	time.sleep = sleep

	# randomness
	_real['seed'] = random.seed
	_real['npseed'] = npr.seed

	def seed(a=None, version=2):
		w = core.CURRENT
		if a is None and w is not None:
			a = w.draw_entropy()
		return _real['seed'](a, version)

	def npseed(a=None):
		w = core.CURRENT
		if a is None and w is not None:
			a = w.draw_entropy()
		return _real['npseed'](a)
	random.seed = seed
	npr.seed = npseed
	random.random = _rand_wrap(random.random, _ex_random)
	for n in ('choices', 'choice', 'randint', 'randrange', 'shuffle', 'sample', 'uniform', 'gauss', 'expovariate', 'normalvariate'):
		setattr(random, n, _rand_wrap(getattr(random, n)))
	npr.exponential = _rand_wrap(npr.exponential, _ex_expo)
	npr.rand = _rand_wrap(npr.rand, _ex_rand)
	npr.random = _rand_wrap(npr.random)
	npr.geometric = _rand_wrap(npr.geometric, _ex_geom)
	npr.normal = _rand_wrap(npr.normal, _ex_normal)
	for n in ('randint', 'choice', 'uniform', 'shuffle', 'permutation', 'randn', 'dirichlet', 'random_sample'):
		setattr(npr, n, _rand_wrap(getattr(npr, n)))
	_real['default_rng'] = npr.default_rng

	def default_rng(seed=None):
		w = core.CURRENT
		if seed is None and w is not None:
			seed = w.draw_entropy()
		return _real['default_rng'](seed)
	npr.default_rng = default_rng

	# progress bar, keyboard, files
	alive_progress.alive_bar = _AliveBar
	import builtins
	rin = builtins.input

	def sim_input(*a):
		if core.CURRENT is not None:
			raise SimHang('waits for the keyboard')
		return rin(*a)
	builtins.input = sim_input
	fs.install()
	rsys = os.system

	def system(c):
		w = core.CURRENT
		if w is None:
			return rsys(c)
		w.event('system', str(c))
		return 0
	os.system = system


def load():
	"""import jajapy from REPO, never from stale bytecode"""
	global jajapy
	sys.path.insert(0, REPO)
	prefix = sys.pycache_prefix
	sys.pycache_prefix = '/nonexistent-pycache'
	out = sys.stdout
	sys.stdout = io.StringIO()
	try:
		import jajapy as ja
	finally:
		sys.stdout = out
		sys.pycache_prefix = prefix
	where = os.path.realpath(ja.__file__)
	if not where.startswith(os.path.realpath(REPO)+os.sep):
		raise RuntimeError('jajapy was imported from '+where)
	jajapy = ja
	return ja


class _Null(io.TextIOBase):
	def __init__(self, w):
		self.w = w

	def writable(self):
		return True

	def write(self, s):
		if s.strip() and 'WARNING' not in s:	# warnings are no progress report
			self.w.stdout_chars += len(s)
		if self.w.stdout_keep is not None:
			self.w.stdout_keep.append(s)
		return len(s)


def _alarm(sig, frame):
	raise SimHang('CPU time exhausted')


class run_in:
	"""context manager: executes the body inside a World"""
	CPU_LIMIT = 45

	def __init__(self, world, root=None):
		self.w = world
		self.root = root

	def __enter__(self):
		from . import fs
		w = self.w
		core.CURRENT = w
		if self.root is not None:
			w.fs = fs.SimFS(w, self.root)
		_real['seed'](w.draw_entropy())
		_real['npseed'](w.draw_entropy())
		self.out = sys.stdout
		sys.stdout = _Null(w)
		self.setplat(w.platform)
		signal.signal(signal.SIGVTALRM, _alarm)
		signal.setitimer(signal.ITIMER_VIRTUAL, self.CPU_LIMIT)
		return w

	def setplat(self, p):
		for n, m in list(sys.modules.items()):
			if n.startswith('jajapy') and isinstance(getattr(m, 'platform', None), str):
				m.platform = p

	def __exit__(self, *a):
		signal.setitimer(signal.ITIMER_VIRTUAL, 0)
		sys.stdout = self.out
		self.setplat(sys.platform)
		if self.w.fs is not None:
			self.w.fs.kill()
		core.CURRENT = None
		return False


def collect():
	gc.collect()
