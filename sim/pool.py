"""Simulated process and thread pools.

Stands in for multiprocessing.Pool, multiprocessing.pool.ThreadPool,
concurrent.futures.ProcessPoolExecutor and ThreadPoolExecutor.  Tasks of a
process pool are really pickled when the simulated feeder thread picks them up
(any time between the submission and the moment the main thread blocks), really
executed on the unpickled copy with the worker's own random states, and their
results are really pickled back.  The order in which tasks are picked up,
finished and reported, and the faults, are decisions of the World.
"""
import concurrent.futures as cf
import concurrent.futures.process as cfp
import errno
import pickle
import random as _random

import numpy as _np

from . import core
from .core import SimHang

_getstate, _setstate = _random.getstate, _random.setstate
_npget, _npset = _np.random.get_state, _np.random.set_state
RealFuture = cf.Future


class Task:
	__slots__ = ('id', 'fn', 'args', 'kw', 'state', 'blob', 'value', 'exc', 'worker', 'cb', 'ecb', 'future', 'stall')

	def __init__(self, id, fn, args, kw):
		self.id, self.fn, self.args, self.kw = id, fn, args, kw
		self.state = 'queued'
		self.blob = self.value = self.exc = self.worker = self.future = None
		self.cb = self.ecb = None
		self.stall = 0


class Engine:
	"""n workers, one FIFO of tasks."""

	def __init__(self, n, threads, style, initializer=None, initargs=()):
		self.w = core.CURRENT
		self.n = n
		self.threads = threads
		self.style = style          # 'pool' or 'executor'
		self.tasks = []
		self.running = {}           # worker -> task
		self.waiting = []           # queued, not pickled
		self.ready = []             # pickled, not started
		self.broken = False
		self.closed = False
		self.started = False
		self.finished_order = []
		self.init = (initializer, initargs)
		self.wid = list(range(n))
		self.initialised = set()
		self.next_wid = n
		w = self.w
		w.pools.append(self)
		w.event('pool', 'create', style, n, threads)
		if style == 'pool':
			self.spawn()

	def spawn(self):
		self.started = True
		if not self.threads and self.w.fault('fork_fail'):
			self.closed = True
			raise BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable (simulated fork failure)')

	def submit(self, fn, args, kw, cb=None, ecb=None):
		w = self.w
		if self.style == 'executor':
			if self.broken:
				raise cfp.BrokenProcessPool('A child process terminated abruptly, the process pool is not usable anymore')
			if self.closed:
				raise RuntimeError('cannot schedule new futures after shutdown')
			if not self.started:
				self.spawn()
		elif self.closed:
			raise ValueError('Pool not running')
		t = Task(len(self.tasks), fn, args, kw)
		t.cb, t.ecb = cb, ecb
		self.tasks.append(t)
		self.waiting.append(t)
		w.event('task', 'submit', t.id)
		w.step()
		# the feeder thread and the workers may run meanwhile
		k = w.choose(4, 'overlap') if w.env.get('overlap', True) else 0
		for _ in range(k):
			if not self.one():
				break
		return t

	def enabled(self):
		ev = []
		for wk, t in self.running.items():
			if t.stall > 0:
				t.stall -= 1
			else:
				ev.append(('finish', wk))
		if self.ready and len(self.running) < self.n:
			ev.append(('start', None))
		if self.waiting:
			ev.append(('pickle', None))
		if not ev and self.running:
			ev = [('finish', wk) for wk in self.running]
		return ev

	def one(self):
		"""one step of the pool; False if nothing can happen"""
		w = self.w
		if self.broken:
			return False
		ev = self.enabled()
		if not ev:
			return False
		w.step()
		kind, wk = ev[w.choose(len(ev), 'sched')]
		if kind == 'pickle':
			t = self.waiting.pop(0)
			if not self.threads:
				try:
					t.blob = pickle.dumps((t.fn, t.args, t.kw))
				except Exception as e:
					w.event('task', 'unpicklable', t.id)
					self.done(t, None, e)
					return True
			t.state = 'ready'
			self.ready.append(t)
		elif kind == 'start':
			t = self.ready.pop(0)
			idle = [i for i in self.wid if i not in self.running]
			wk = idle[w.choose(len(idle), 'worker')]
			t.worker = wk
			t.state = 'running'
			self.running[wk] = t
			w.event('task', 'start', t.id, wk)
			if w.fault('worker_stall', t.id):
				t.stall = 1+w.choose(40)
				w.now += t.stall
		else:
			t = self.running.pop(wk)
			if not self.threads and w.fault('worker_crash', t.id):
				self.crash(t, wk)
				return True
			self.execute(t, wk)
		return True

	def crash(self, t, wk):
		w = self.w
		w.event('task', 'lost', t.id, wk)
		t.state = 'lost'
		if self.style == 'executor':
			self.broken = True
			e = cfp.BrokenProcessPool('A process in the process pool was terminated abruptly while the future was running or pending.')
			for x in self.tasks:
				if x.state != 'done':
					x.state = 'broken'
					x.exc = e
					if x.future is not None and not x.future.done():
						x.future.set_exception(e)
			self.waiting, self.ready, self.running = [], [], {}
		else:
			# multiprocessing.Pool replaces the worker and forgets the task
			self.wid[self.wid.index(wk)] = self.next_wid
			self.next_wid += 1

	def execute(self, t, wk):
		w = self.w
		value = exc = None
		st, nst = _getstate(), _npget()
		w.in_task += 1
		try:
			if w.fault('worker_memory', t.id):
				raise MemoryError('simulated allocation failure in a worker')
			if w.fault('worker_error', t.id):
				raise OSError(errno.EIO, 'simulated error in a worker')
			if self.threads:
				fn, args, kw = t.fn, t.args, t.kw
			else:
				fn, args, kw = pickle.loads(t.blob)
			if self.init[0] is not None and wk not in self.initialised:
				self.initialised.add(wk)
				self.init[0](*self.init[1])
			value = fn(*args, **kw)
			if not self.threads:
				value = pickle.loads(pickle.dumps(value))
		except Exception as e:
			exc = e
		finally:
			w.in_task -= 1
			if not self.threads:
				_setstate(st)
				_npset(nst)
		self.done(t, value, exc)

	def done(self, t, value, exc):
		self.w.event('task', 'done', t.id)
		t.value, t.exc = value, exc
		t.state = 'done'
		self.finished_order.append(t)
		if t.future is not None and not t.future.done():
			if exc is not None:
				t.future.set_exception(exc)
			else:
				t.future.set_result(value)
		if exc is None and t.cb:
			t.cb(value)
		if exc is not None and t.ecb:
			t.ecb(exc)

	def wait_for(self, cond, what):
		w = self.w
		while not cond():
			if w.fault('interrupt'):
				raise KeyboardInterrupt()
			if not self.one():
				if cond():
					return
				w.event('hang', what)
				raise SimHang('waits forever for '+what)

	def drain(self):
		while self.one():
			pass

	def idle(self):
		return self.closed or not self.started or not (self.running or self.ready or self.waiting)


def drive_all(cond, what):
	"""advance every pool of the world until cond()"""
	w = core.CURRENT
	while not cond():
		if w.fault('interrupt'):
			raise KeyboardInterrupt()
		live = [e for e in w.pools if not e.broken and (e.running or e.ready or e.waiting)]
		if not live:
			raise SimHang('waits forever for '+what)
		live[w.choose(len(live), 'pool')].one()


# ---------------------------------------------------------------- mp.Pool ---
class SimAsyncResult:
	def __init__(self, engine, tasks, single=True, post=None):
		self.e, self.t, self.single, self.post = engine, tasks, single, post

	def ready(self):
		self.e.w.step()
		self.e.one()
		return all(t.state == 'done' for t in self.t)

	def successful(self):
		if not all(t.state == 'done' for t in self.t):
			raise ValueError('not ready')
		return all(t.exc is None for t in self.t)

	def wait(self, timeout=None):
		try:
			self.e.wait_for(lambda: all(t.state == 'done' for t in self.t), 'the result of a lost task')
		except SimHang:
			if timeout is None:
				raise
			self.e.w.now += timeout

	def get(self, timeout=None):
		import multiprocessing
		self.wait(timeout)
		if not all(t.state == 'done' for t in self.t):
			raise multiprocessing.TimeoutError()
		for t in self.t:
			if t.exc is not None:
				raise t.exc
		if self.single:
			return self.t[0].value
		r = [t.value for t in self.t]
		return self.post(r) if self.post else r


class _Star:
	def __init__(self, fn, star):
		self.fn, self.star = fn, star

	def __call__(self, chunk):
		return [self.fn(*a) if self.star else self.fn(a) for a in chunk]


class SimPool:
	THREADS = False

	def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
		w = core.CURRENT
		if w is None:
			raise RuntimeError('pool created outside of the simulation')
		if processes is None:
			processes = w.cpus
		if processes < 1:
			raise ValueError('Number of processes must be at least 1')
		self._e = Engine(processes, self.THREADS, 'pool', initializer, initargs)

	def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
		return SimAsyncResult(self._e, [self._e.submit(func, tuple(args), dict(kwds), callback, error_callback)])

	def apply(self, func, args=(), kwds={}):
		return self.apply_async(func, args, kwds).get()

	def _map(self, func, it, chunksize, star, cb=None, ecb=None):
		it = list(it)
		if chunksize is None:
			chunksize, extra = divmod(len(it), self._e.n*4)
			if extra:
				chunksize += 1
		chunksize = max(1, chunksize)
		ts = [self._e.submit(_Star(func, star), (it[i:i+chunksize],), {}) for i in range(0, len(it), chunksize)]
		return SimAsyncResult(self._e, ts, False, lambda r: [x for c in r for x in c])

	def map(self, func, iterable, chunksize=None):
		return self._map(func, iterable, chunksize, False).get()

	def starmap(self, func, iterable, chunksize=None):
		return self._map(func, iterable, chunksize, True).get()

	def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
		return self._map(func, iterable, chunksize, False)

	def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
		return self._map(func, iterable, chunksize, True)

	def imap(self, func, iterable, chunksize=1):
		ts = [self._e.submit(func, (a,), {}) for a in iterable]
		for t in ts:
			yield SimAsyncResult(self._e, [t]).get()

	def imap_unordered(self, func, iterable, chunksize=1):
		ts = [self._e.submit(func, (a,), {}) for a in iterable]
		seen = 0
		while seen < len(ts):
			self._e.wait_for(lambda: len(self._e.finished_order) > seen, 'the next result')
			t = self._e.finished_order[seen]
			seen += 1
			if t.exc is not None:
				raise t.exc
			yield t.value

	def close(self):
		self._e.closed = True

	def terminate(self):
		e = self._e
		e.closed = True
		e.waiting, e.ready, e.running = [], [], {}

	def join(self):
		if not self._e.closed:
			raise ValueError('Pool is still running')
		self._e.drain()

	def __enter__(self):
		return self

	def __exit__(self, *a):
		self.terminate()

	def __del__(self):
		# an unreachable pool is terminated
		try:
			self.terminate()
		except Exception:
			pass


class SimThreadPool(SimPool):
	THREADS = True

	def __init__(self, processes=None, initializer=None, initargs=()):
		super().__init__(processes, initializer, initargs)


# ------------------------------------------------------------- executors ---
class SimFuture(RealFuture):
	def __init__(self, engine, task):
		super().__init__()
		self._e, self._t = engine, task

	def _wait(self, timeout):
		try:
			self._e.wait_for(self.done, 'a future')
		except SimHang:
			if timeout is None:
				raise
			self._e.w.now += timeout
			raise cf.TimeoutError()

	def result(self, timeout=None):
		if not self.done():
			self._wait(timeout)
		return super().result(0)

	def exception(self, timeout=None):
		if not self.done():
			self._wait(timeout)
		return super().exception(0)

	def cancel(self):
		e = self._e
		if self._t in e.waiting:
			e.waiting.remove(self._t)
			return super().cancel()
		return False


class SimExecutor(cf.Executor):
	THREADS = False

	def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None):
		w = core.CURRENT
		if w is None:
			raise RuntimeError('executor created outside of the simulation')
		if max_workers is None:
			max_workers = w.cpus
		if max_workers <= 0:
			raise ValueError('max_workers must be greater than 0')
		self._e = Engine(max_workers, self.THREADS, 'executor', initializer, initargs)

	def submit(self, fn, /, *args, **kw):
		e = self._e
		k = e.w.env.get('overlap', True)
		e.w.env['overlap'] = False
		try:
			t = e.submit(fn, args, kw)
		finally:
			e.w.env['overlap'] = k
		t.future = SimFuture(e, t)
		if k:
			for _ in range(e.w.choose(4, 'overlap')):
				if not e.one():
					break
		return t.future

	def map(self, fn, *iterables, timeout=None, chunksize=1):
		fs = [self.submit(fn, *a) for a in zip(*iterables)]

		def it():
			for f in fs:
				yield f.result(timeout)
		return it()

	def shutdown(self, wait=True, *, cancel_futures=False):
		e = self._e
		if cancel_futures:
			for t in list(e.waiting):
				t.future.cancel()
		e.drain()
		e.closed = True

	def __del__(self):
		try:
			self._e.closed = True
		except Exception:
			pass


class SimThreadExecutor(SimExecutor):
	THREADS = True

	def __init__(self, max_workers=None, thread_name_prefix='', initializer=None, initargs=()):
		super().__init__(max_workers, None, initializer, initargs)


def sim_as_completed(fs, timeout=None):
	pend = set(fs)
	engines = []
	for f in pend:
		if f._e not in engines:
			engines.append(f._e)
	while pend:
		fin = [f for e in engines for t in e.finished_order for f in [t.future] if f in pend]
		fin += [f for f in sorted(pend, key=lambda f: f._t.id) if f.done() and f not in fin]
		if not fin:
			drive_all(lambda: any(f.done() for f in pend), 'a future')
			continue
		f = fin[0]
		pend.discard(f)
		yield f


def sim_wait(fs, timeout=None, return_when='ALL_COMPLETED'):
	fs = set(fs)
	if return_when == 'ALL_COMPLETED':
		drive_all(lambda: all(f.done() for f in fs), 'futures')
	else:
		drive_all(lambda: any(f.done() for f in fs), 'a future')
	done = {f for f in fs if f.done()}
	return cf._base.DoneAndNotDoneFutures(done, fs-done)
