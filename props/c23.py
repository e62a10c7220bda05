"""C23: threads that use different objects, or only read the same ones, do not notice each other."""
import numpy as np

from sim import gen, ref
from sim.core import Violation, _Random
from sim.lib import call, changed, plain, state
from sim.threads import Threads
from . import common
from .c08 import check_trace
from .c16 import QUERIES, answer, arguments, content, query

RUNS = {'quick': 5000, 'thorough': 100000}
LEVEL = 'exploration'
REAL = common.REAL+['threads of the program (real threads, one at a time)', 'stormpy 1.10.1', 'files in a scratch directory']
STUB = common.STUB+['the switch from one thread to another (at any executed line of jajapy, decided by the simulator)']
ASSUMPTIONS = ['threads share models and sets they only read, descriptions and files nobody writes; learners, sets that are learned from, changed models and written files belong to one thread', 'the random generators of Python and numpy are shared by the threads of a process: what is drawn is checked to be possible, not to be the same', 'threads are switched at lines of jajapy, not inside numpy']
RULE = 'two to four threads with two to six operations each (creation from a shared description, questions, sampling, likelihoods, learning on one or several processes, state merging, compositions, untimed versions, instantiation, saving and loading, Prism files, stormpy conversions, set operations) executed under a seeded interleaving, with dying workers in some runs, and compared operation by operation with the same programs executed one thread after the other. Non-trivial: threads were switched inside operations at least ten times.'
OPS = ['make', 'ask', 'ask', 'ask', 'loglik', 'loglik', 'fit', 'fit', 'sample', 'generate', 'file', 'prism', 'merge', 'derive', 'compose', 'storm', 'change', 'set', 'params', 'relabel']
ONLY = {'prism': ['MC', 'MDP', 'CTMC'], 'merge': ['MC', 'MDP'], 'derive': ['CTMC', 'PCTMC'], 'compose': ['CTMC', 'PCTMC'], 'storm': ['MC', 'MDP', 'CTMC', 'PCTMC'], 'params': ['PCTMC'], 'relabel': ['MC', 'MDP', 'CTMC', 'PCTMC']}


def generate(rng, i, tier):
	specs, data = [], []
	for _ in range(rng.choice([1, 1, 2])):
		t = rng.choice(['MC', 'MDP', 'HMM', 'GoHMM', 'CTMC', 'CTMC', 'PCTMC'])
		while True:
			s = gen.trainable(rng, t, smax=3, plain=rng.random() < 0.7)
			if len(s.get('labels', '12345')) > 6:
				continue
			d, timed = gen.dataset(rng, s, rng.randint(1, 4), 4, impossible=0.1)
			if any(float(ref.forward(s, x, ref.learn_full(s, x, ref.timed_data(d)))[3]) > 1e-60 for x, _ in d):
				break
		specs.append(s)
		data.append(d)
	progs = []
	few = OPS if rng.random() < 0.5 else rng.sample(OPS, 2)+['ask']
	for _ in range(rng.choice([2, 2, 2, 3, 4])):
		prog = []
		for _ in range(rng.randint(2, 6)):
			k = rng.randrange(len(specs))
			ops = [x for x in few if specs[k]['t'] in ONLY.get(x, gen.ALL)] or ['ask']
			prog.append([rng.choice(ops), k, rng.randrange(1 << 20)])
		progs.append(prog)
	if rng.random() < 0.3:
		# the same in all threads
		progs = [progs[0]]*len(progs)
	f = gen.benign(rng)
	if rng.random() < 0.2:
		f[rng.choice(['worker_crash', 'worker_error', 'worker_memory', 'fork_fail'])] = 0.2
	e = gen.env(rng, f)
	e['max_faults'] = 3 if len(f) else 1000
	return {'env': e, 'quanta': rng.choice([[700, 150, 40, 10, 3, 1], [60, 20, 5, 1], [60, 20, 5, 1], [9, 4, 2, 1], [1]]), 'specs': specs, 'data': data, 'progs': progs}


def shrink(wl):
	for k in range(len(wl['progs'])):
		if len(wl['progs']) > 2:
			yield dict(wl, progs=wl['progs'][:k]+wl['progs'][k+1:])
		for j in range(len(wl['progs'][k])):
			yield dict(wl, progs=wl['progs'][:k]+[wl['progs'][k][:j]+wl['progs'][k][j+1:]]+wl['progs'][k+1:])


class Program:
	"""what one thread does; shared: [(class, arguments, model, set)]"""

	def __init__(self, ja, w, wl, me, shared):
		self.ja, self.w, self.wl, self.me, self.shared = ja, w, wl, me, shared
		self.results = []
		self.fired = [0]
		self.learner = ja.BW()
		self.merger = {0: ja.Alergia(), 1: ja.IOAlergia()}
		self.own = ja.Set([], [])
		self.bad = None

	def __call__(self):
		for j, (op, k, seed) in enumerate(self.wl['progs'][self.me]):
			f0 = self.w.failed.get(self.me, 0)
			o = call(self.one, op, k, _Random(seed), j)
			if not o.ok and o.kind == 'hang' and 'aborted' in str(o.error):
				return
			self.results.append((o.ok, plain(o.value) if o.ok else o.kind, o.error, self.w.failed.get(self.me, 0) > f0))

	def one(self, op, k, rng, j):
		ja, wl = self.ja, self.wl
		spec, data = wl['specs'][k], wl['data'][k]
		cls, args, h, s = self.shared[k]
		t = spec['t']
		path = 't%d-%d.txt' % (self.me, j % 2)
		if op == 'make':
			return state(cls(*args))
		if op == 'ask':
			out = []
			for _ in range(rng.randint(2, 6)):
				what = rng.choice(QUERIES)
				q = query(h, what, rng, spec)
				if q:
					out.append((what, answer(what, call(q))))
			return out
		if op == 'loglik':
			return float(h.logLikelihood(s))
		if op == 'fit':
			m = cls(*args)
			kw = {'max_it': rng.choice([1, 1, 2]), 'epsilon': 0.0, 'processes': rng.choice([1, 1, 2, 3, None]), 'stormpy_output': False, 'verbose': 0}
			r, info = self.learner.fit(gen.to_set(ja, data, spec), initial_model=m, return_data=True, **kw)
			return [state(r), info.get('learning_rounds'), info.get('training_set_loglikelihood')]
		if op == 'params':
			if t != 'PCTMC' or not h.isInstantiated():
				return None
			m = cls(*args)
			r = self.learner.fit_parameters(gen.to_set(ja, data, spec), m, list(m.parameter_str)[:1+rng.randrange(2)], max_it=1, verbose=0)
			return state(m), str(type(r))
		if op in ('sample', 'generate'):
			timed = t in ('CTMC', 'PCTMC') and rng.random() < 0.6
			n = rng.randint(1, 5)
			a = [ja.UniformScheduler(list(h.actions))] if t == 'MDP' else []
			kw = {'timed': True} if timed else {}
			if op == 'sample':
				traces = [h.run(n, *a, **kw) for _ in range(3)]
			else:
				x = h.generateSet(4, n, *a, **kw)
				traces = x.to_list()
				if len(traces) != 4:
					self.bad = '%d traces instead of 4' % len(traces)
			for x in traces:
				m = check_trace(spec, x, n, timed)
				if m:
					self.bad = m
			return None
		if op == 'file':
			h.save(path)
			return state(getattr(ja, 'load'+t)(path))
		if op == 'prism':
			if not hasattr(h, 'savePrism') or list(spec['labels']).count('init') != 1:
				return None
			h.savePrism(path+'.sm')
			with open(path+'.sm') as f:
				return f.read()
		if op == 'merge':
			x = s.type
			return state(self.merger[x].fit(s, rng.choice([0.05, 0.5, 2.0]), stormpy_output=False)) if x in (0, 1) else None
		if op == 'derive':
			if t == 'CTMC':
				return state(h.toMC())
			if t == 'PCTMC':
				return state(ja.PCTMCtoCTMC(h))
			return None
		if op == 'compose':
			if t not in ('CTMC', 'PCTMC') or list(spec['labels']).count('init') != 1 or len(spec['labels']) > 4:
				return None
			return state(ja.synchronousCompositionCTMCs(h, h) if t == 'CTMC' else ja.synchronousCompositionPCTMCs([h, h]))
		if op == 'storm':
			if not hasattr(h, 'labelling') or list(spec['labels']).count('init') != 1:
				return None
			x = ja.jajapyModeltoStormpy(h)
			return state(ja.stormpyModeltoJajapy(x, list(h.actions)) if t == 'MDP' else ja.stormpyModeltoJajapy(x))
		if op == 'change':
			m = cls(*args)
			m.rename('thread %d' % rng.randrange(9))
			out = [state(m)]
			if t == 'PCTMC':
				ps = [p for p in m.parameter_str if rng.random() < 0.7]
				m.instantiate(ps, [round(0.2+2*rng.random(), 3) for _ in ps])
				out.append(state(m))
				out.append([float(m.transitionValue(a, b)) for a in range(len(m.matrix)) for b in range(len(m.matrix))] if m.isInstantiated() else None)
			return out
		if op == 'relabel':
			m = cls(*args)
			if hasattr(m, 'updateLabelling'):
				lab = ['L%d' % rng.randrange(3) for _ in m.labelling]
				lab[rng.randrange(len(lab))] = 'init'
				m.updateLabelling(lab)
			return state(m)
		if op == 'set':
			if self.own.type != s.type and len(self.own.sequences):
				self.own = ja.Set([], [])
			self.own.addSet(s)
			self.own.save(path)
			x = ja.loadSet(path)
			return [content(self.own), content(x), sorted(s.getAlphabet()) if t != 'GoHMM' else None, s.isEqual(self.own), len(s.to_list())]


def differ(a, b):
	"""None when two results are the same up to rounding"""
	if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
		if len(a) != len(b):
			return '%d / %d elements' % (len(a), len(b))
		for x, y in zip(a, b):
			m = differ(x, y)
			if m:
				return m
		return None
	if isinstance(a, float) and isinstance(b, float):
		if a == b or a != a and b != b or abs(a-b) <= 1e-6*max(1e-3, abs(a), abs(b)):
			return None
		return '%r / %r' % (a, b)
	if isinstance(a, str) and isinstance(b, str) and a != b:
		return '%s / %s' % (a[:200], b[:200])
	return None if a == b else '%s / %s' % (str(a)[:200], str(b)[:200])


def world(ja, w, wl):
	shared = []
	for s, d in zip(wl['specs'], wl['data']):
		cls, args = arguments(ja, s)
		shared.append((cls, args, cls(*args), gen.to_set(ja, d, s)))
	return shared, [Program(ja, w, wl, k, shared) for k in range(len(wl['progs']))]


def execute(ja, wl, w):
	w.thread, w.failed = 0, {}
	fault = w.fault

	def counting(kind, detail=''):
		r = fault(kind, detail)
		if r and kind not in gen.BENIGN:
			w.failed[w.thread] = w.failed.get(w.thread, 0)+1
		return r
	# one after the other, without faults
	w.quiet = True
	_, alone = world(ja, w, wl)
	for p in alone:
		p()
	w.quiet = False
	w.failed = {}
	w.fault = counting
	shared, progs = world(ja, w, wl)
	before = [(state(h), content(s), plain(args)) for _, args, h, s in shared]
	t = Threads(w, progs, wl['quanta'])
	try:
		t.run()
	finally:
		del w.fault
	w.nontrivial = t.switches >= 10
	w.tags['switches'] = t.switches
	for k in sorted(t.where):
		w.tags['switch in '+k] = w.tags.get('switch in '+k, 0)+1
	for p, q in zip(progs, alone):
		for (op, k, seed), a, b in zip(wl['progs'][p.me], q.results, p.results):
			w.ops += 1
			w.tags[op] = w.tags.get(op, 0)+1
			if b[3] and not b[0]:
				continue
			if b[0] != a[0] or not b[0] and a[1] != b[1]:
				return [Violation('outcome', '%s in thread %d: %s, alone %s' % (op, p.me, b[:3], str(a[:3])[:300]))]
			m = differ(a[1], b[1])
			if m and b[0]:
				return [Violation('result', '%s in thread %d (alone / with other threads): %s' % (op, p.me, m))]
		if p.bad or q.bad:
			return [Violation('trace', p.bad or q.bad)]
		if len(p.results) != len(q.results):
			return [Violation('result', 'thread %d did %d of %d operations' % (p.me, len(p.results), len(q.results)))]
	for (st, c, a), (_, args, h, s) in zip(before, shared):
		m = changed(st, state(h))
		if m:
			return [Violation('shared', 'a shared model changed: '+m)]
		if content(s) != c or repr(plain(args)) != repr(a):
			return [Violation('shared', 'a shared set or description changed')]
	return []
