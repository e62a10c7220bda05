"""Helpers shared by the property modules."""
import contextlib
import os
import sys

from . import boot, core
from .core import SimCrash, SimHang, Violation


class Outcome:
	"""what a library call did: .ok, .value / .error (text), .kind"""
	def __init__(self, ok, value=None, kind=None, error=None):
		self.ok, self.value, self.kind, self.error = ok, value, kind, error

	def __repr__(self):
		return 'Outcome(%s)' % ('ok' if self.ok else self.kind+': '+str(self.error)[:200])


def call(fn, *a, **k):
	"""Run a library call; exceptions become an Outcome. SimHang, SimCrash and
	KeyboardInterrupt are outcomes too (kinds 'hang', 'crash', 'interrupt')."""
	try:
		return Outcome(True, fn(*a, **k))
	except SimHang as e:
		return Outcome(False, None, 'hang', str(e))
	except SimCrash:
		return Outcome(False, None, 'crash', 'killed')
	except KeyboardInterrupt:
		return Outcome(False, None, 'interrupt', '')
	except Exception as e:
		import traceback
		tb = traceback.extract_tb(e.__traceback__)
		where = ''
		for f in tb:
			if f.filename.startswith(boot.REPO):
				where = ' at %s:%s' % (f.filename[len(boot.REPO)+1:], f.name)
		e.__traceback__ = None
		return Outcome(False, None, type(e).__name__, '%s%s' % (str(e)[:300], where))


def unexpected(o, what):
	"""the violation for a call that should have succeeded"""
	if o.ok:
		return None
	if o.kind == 'hang':
		return Violation('hang:'+what, o.error)
	return Violation('error:'+what+':'+o.kind, o.error)


@contextlib.contextmanager
def interrupt_after(w, n, memory=False):
	"""Ctrl-C after the main program has executed n lines of the library (lines
	executed by simulated workers do not count). With memory: the allocation made
	by the n-th line fails, wherever that line runs. n=None: never."""
	if n is None:
		yield
		return
	left = [n]
	prefix = os.path.realpath(boot.REPO)+os.sep

	def local(frame, event, arg):
		if event == 'line' and (memory or not w.in_task):
			left[0] -= 1
			if left[0] == 0:
				where = '%s:%s' % (frame.f_code.co_filename[len(prefix):], frame.f_code.co_name)
				if not memory:
					w.note_fault('interrupt_line', where)
					raise KeyboardInterrupt()
				w.note_fault('memory_task' if w.in_task else 'memory_line', where)
				raise MemoryError('simulated allocation failure')
		return local

	def glob(frame, event, arg):
		if frame.f_code.co_filename.startswith(prefix):
			return local
		return None
	old = sys.gettrace()
	sys.settrace(glob)
	try:
		yield
	finally:
		sys.settrace(old)


@contextlib.contextmanager
def quiet(w):
	"""no fault injection inside"""
	q = w.quiet
	w.quiet = True
	try:
		yield
	finally:
		w.quiet = q


@contextlib.contextmanager
def platform(w, p, cpus=None):
	old, oc = w.platform, w.cpus
	boot.run_in.setplat(None, p)
	w.platform = p
	if cpus:
		w.cpus = cpus
	try:
		yield
	finally:
		boot.run_in.setplat(None, old)
		w.platform, w.cpus = old, oc


# ------------------------------------------------------------- snapshots ---
ATTRS = ('name', 'labelling', 'alphabet', 'actions', 'matrix', 'output', 'initial_state', 'nb_states', 'nb_distributions', 'synchronous_transitions',
		 'parameter_values', 'parameter_str', 'parameter_indexes', 'transition_expr', 'nb_parameters', 'model_type')


def plain(x, key=''):
	import numpy as np
	if isinstance(x, np.ndarray):
		return plain(x.tolist())
	if isinstance(x, dict):
		return sorted((str(k), plain(v)) for k, v in x.items())
	if isinstance(x, (list, tuple)):
		y = [plain(v) for v in x]
		return sorted(y, key=repr) if key in ('alphabet', 'parameter_indexes+') else y
	if isinstance(x, (bool, np.bool_)):
		return bool(x)
	if isinstance(x, (int, np.integer)):
		return int(x)
	if isinstance(x, (float, np.floating)):
		return float(x)
	return x if x is None or isinstance(x, str) else str(x)


def state(h):
	"""everything a user can see of a model"""
	return {k: plain(getattr(h, k), k) for k in ATTRS if hasattr(h, k)}


def changed(before, after):
	for k in before:
		a, b = before[k], after.get(k, 'nothing')
		if a != b and repr(a) != repr(b):       # repr: nan
			return '%s was %s, is %s' % (k, str(a)[:300], str(b)[:300])
	return None
