"""C16: asking is not changing, and a model only changes when it is told to."""
import copy

import numpy as np

from sim import gen, ref
from sim.core import Violation, _Random
from sim.lib import call, changed, interrupt_after, plain, platform, state
from . import common

RUNS = {'quick': 5000, 'thorough': 150000}
LEVEL = 'exploration'
REAL = common.REAL+['stormpy 1.10.1', 'files in a scratch directory']
STUB = common.STUB+['disk errors inside saves', 'Ctrl-C at a chosen executed line', 'os.system (clearing the terminal)']
ASSUMPTIONS = ['a learning run may change the model it starts from and put the initial label in front of the traces it is given', 'nobody writes into the labelling list of a model directly']
RULE = 'a history over up to five models (built from the same arrays, lists and dictionaries; copies, untimed versions, instantiations, compositions, conversions, loaded files of one another) and two sets: queries, printing, runs, likelihoods on three platforms with dying workers, saves with disk errors, conversions, interruptions; and changes of one of them (renaming, new labels, instantiation, learning). Non-trivial: the history changed a model that shares its origin with another one.'

QUERIES = ['pi', 'tau', 'a', 'b', 'e', 'l', 'lkl', 'expected_time', 'label', 'alphabet', 'actions', 'str', 'mu', 'b_n', 'inst', 'value', 'expr', 'pval', 'pidx', 'involved', 'evaluate', 'bad']
ACTS = ['run', 'generate', 'loglik', 'save', 'prism', 'storm', 'convert']
NEW = ['args', 'attributes', 'toMC', 'toCTMC', 'compose', 'load', 'loadprism', 'back', 'again']
CHANGE = ['rename', 'labels', 'instantiate', 'random', 'fit', 'numbers', 'params']


def generate(rng, i, tier):
	t = rng.choice(['MC', 'MDP', 'HMM', 'GoHMM', 'CTMC', 'CTMC', 'PCTMC', 'PCTMC'])
	spec = gen.trainable(rng, t, smax=4, plain=rng.random() < 0.5)
	while len(spec.get('labels', '12345')) > 7:
		spec = gen.trainable(rng, t, smax=4, plain=True)
	data, timed = gen.dataset(rng, spec, rng.randint(1, 4), 4, impossible=0.1)
	if t == 'PCTMC' and rng.random() < 0.4:
		spec['missing'] = rng.sample(spec['params'], rng.randint(0, len(spec['params'])))
		spec['nan'] = rng.random() < 0.5
	if t == 'CTMC' and rng.random() < 0.5:
		n = len(spec['labels'])
		spec['sync'] = [[rng.randrange(n-1), rng.choice('xy'), rng.randrange(n-1), 1.5] for _ in range(rng.randint(1, 2))]
	ops = []
	for _ in range(rng.randint(4, 16)):
		x = rng.random()
		k, j = rng.randrange(5), rng.randrange(5)
		seed = rng.randrange(1 << 20)
		cut = None if rng.random() < 0.85 else int(10**rng.uniform(0, 2.8))
		if x < 0.4:
			ops.append(['ask', k, rng.choice(QUERIES), seed, cut])
		elif x < 0.6:
			ops.append(['act', k, rng.choice(ACTS), seed, cut])
		elif x < 0.75:
			ops.append(['new', k, rng.choice(NEW), seed, cut, j])
		elif x < 0.93:
			ops.append(['change', k, rng.choice(CHANGE), seed, cut])
		else:
			ops.append(['set', k, rng.choice(['alphabet', 'actions', 'list', 'equal', 'save', 'add', 'merge']), seed, cut])
	f = gen.benign(rng)
	if rng.random() < 0.3:
		f[rng.choice(['worker_crash', 'worker_error', 'worker_memory', 'fork_fail'])] = 0.1
	e = gen.env(rng, f)
	e['max_faults'] = 2
	return {'env': e, 'spec': spec, 'data': data, 'ops': ops}


def arguments(ja, spec):
	"""(class, positional arguments): the very objects the caller holds"""
	s = {k: v for k, v in spec.items() if k not in ('missing', 'nan', 'sync')}
	h = ref.build(ja, s)
	t = spec['t']
	if t in ('MC', 'CTMC'):
		a = [np.array(spec['A'], dtype=float), list(spec['labels']), 'm']
		if spec.get('sync'):
			a.append([tuple(x) for x in spec['sync']])
	elif t == 'MDP':
		a = [np.array(spec['A'], dtype=float), list(spec['labels']), list(spec['actions']), 'm']
	elif t == 'HMM':
		a = [np.array(spec['A'], dtype=float), np.array(spec['O'], dtype=float), list(spec['alphabet']), list(spec['init']), 'm']
	elif t == 'GoHMM':
		a = [np.array(spec['A'], dtype=float), np.array(spec['O'], dtype=float), list(spec['init']), 'm']
	else:
		v = dict(spec['values'])
		for p in spec.get('missing', []):
			if spec['nan']:
				v[p] = float('nan')
			else:
				del v[p]
		a = [h.matrix, list(spec['labels']), list(h.transition_expr), v, [list(x) for x in h.parameter_indexes], list(spec['params']), 'm']
	return getattr(ja, t), a


def content(s):
	return [(repr(plain(x)), int(n)) for x, n in zip(s.sequences, s.times)], s.type


def with_init(c):
	return [(x if x.startswith("['init'") else "['init', "+x[1:], n) for x, n in c[0]], c[1]


def query(h, what, rng, spec):
	"""a function that asks, or None when the model knows no such question"""
	n = len(h.matrix)
	s, d = rng.randrange(n), rng.randrange(n)
	t = ref.TYPES[h.model_type]
	lab = list(h.labelling)[d] if hasattr(h, 'labelling') else (h.alphabet[rng.randrange(len(h.alphabet))] if t == 'HMM' else [0.5]*int(np.shape(h.output)[1]))
	act = h.actions[rng.randrange(len(h.actions))] if t == 'MDP' else None
	p = h.parameter_str[rng.randrange(len(h.parameter_str))] if t == 'PCTMC' and h.parameter_str else None
	timed = t in ('CTMC', 'PCTMC')
	q = {'pi': lambda: h.pi(s), 'label': hasattr(h, 'getLabel') and (lambda: h.getLabel(s)), 'str': lambda: str(h), 'b': lambda: h.b(s, lab),
		 'tau': (lambda: h.tau(s, act, d, lab)) if t == 'MDP' else (lambda: h.tau(s, d, lab)),
		 'a': None if timed else (lambda: h.a(s, d, act)) if t == 'MDP' else (lambda: h.a(s, d)),
		 'e': timed and (lambda: h.e(s)), 'l': timed and (lambda: h.l(s, d, lab)), 'lkl': timed and (lambda: h.lkl(s, 0.7)), 'expected_time': timed and (lambda: h.expected_time(s)),
		 'alphabet': t != 'GoHMM' and (lambda: h.getAlphabet()), 'actions': t == 'MDP' and (lambda: h.getActions(rng.choice([-1, s]))),
		 'mu': t == 'GoHMM' and (lambda: h.mu(s)), 'b_n': t == 'GoHMM' and (lambda: h.b_n(s, 0, 0.3)),
		 'bad': lambda: h.pi(n+3)}
	if t == 'PCTMC':
		q.update({'inst': lambda: [h.isInstantiated(), h.isInstantiated(s), h.isInstantiated(s, d)], 'value': lambda: h.transitionValue(s, d), 'expr': lambda: str(h.transitionExpression(s, d)),
				  'pval': p and (lambda: h.parameterValue(p)), 'pidx': p and (lambda: h.parameterIndexes(p)), 'involved': lambda: h.involvedParameters(s, d),
				  'evaluate': lambda: h.evaluateTransition(s, d, {x: 1.5 for x in h.parameter_str})})
	return q.get(what) or None


def answer(what, o):
	if not o.ok:
		return o.kind
	x = plain(o.value)
	return sorted(x, key=repr) if what in ('alphabet', 'involved') else x


def spoil(x):
	"""the caller does what it wants with what it got"""
	if isinstance(x, list):
		x.append('spoiled')
	elif isinstance(x, np.ndarray) and x.flags.writeable:
		x *= 0.0


def merging(ja, s, rng):
	if s.type not in (0, 1):
		return None
	return (ja.Alergia() if s.type == 0 else ja.IOAlergia()).fit(s, rng.choice([0.05, 0.5]), stormpy_output=False)


class History:
	def __init__(self, ja, wl, w):
		self.ja, self.wl, self.w = ja, wl, w
		cls, args = arguments(ja, wl['spec'])
		self.cls, self.args = cls, args
		self.models = [cls(*args)]
		self.bw = ja.BW()
		self.family = [0]
		self.sets = [gen.to_set(ja, wl['data'], wl['spec']), gen.to_set(ja, wl['data'][::-1][:2], wl['spec'])]
		self.args0 = plain(args)
		self.snap()
		self.asked = {}

	def snap(self):
		self.before = [state(h) for h in self.models]
		self.sets0 = [content(s) for s in self.sets]

	def verify(self, op, target=None, learned=False, sset=None):
		if plain(self.args) != self.args0 and repr(plain(self.args)) != repr(self.args0):
			i = [k for k, (a, b) in enumerate(zip(plain(self.args), self.args0)) if repr(a) != repr(b)]
			return Violation('arguments', '%s altered argument %s of the constructor: %s' % (op, i, str(plain(self.args)[i[0]])[:200]))
		for k, h in enumerate(self.models):
			if k == target or k >= len(self.before):
				continue
			m = changed(self.before[k], state(h))
			if m:
				return Violation('model', '%s changed %s model: %s' % (op, 'the' if target is None else 'another', m))
		for k, s in enumerate(self.sets):
			c = content(s)
			if k == sset or c == self.sets0[k] or learned and c == with_init(self.sets0[k]):
				continue
			return Violation('set', '%s changed a set: %s / %s' % (op, str(c)[:200], str(self.sets0[k])[:200]))
		return None

	# ------------------------------------------------------------------ acts
	def sampler(self, h, n):
		t = ref.TYPES[h.model_type]
		if t == 'MDP':
			sch = self.ja.UniformScheduler(h.getActions())
			return lambda: h.run(n, sch)
		if t in ('CTMC', 'PCTMC'):
			return lambda: h.run(n, True)
		return lambda: h.run(n)

	def act(self, h, what, rng):
		ja = self.ja
		t = ref.TYPES[h.model_type]
		if what == 'run':
			return call(self.sampler(h, rng.randint(0, 4)))
		if what == 'generate':
			d = rng.choice(['list', 'int', 'geo', 'fixed'])
			param, kw = {'list': ([2, 3, 2], {}), 'int': (3, {}), 'geo': (0.5, {'distribution': 'geo', 'min_size': 2}), 'fixed': ([2, 5], {'distribution': 'unif'})}[d]
			p0 = copy.deepcopy(param)
			if t == 'MDP':
				sch = ja.UniformScheduler(list(h.actions))
				o = call(h.generateSet, 3, param, sch, **kw)
			elif t in ('CTMC', 'PCTMC'):
				o = call(h.generateSet, 3, param, timed=True, **kw)
			else:
				o = call(h.generateSet, 3, param, **kw)
			if param != p0:
				self.bad = 'the list of sizes is altered'
			return o
		if what == 'loglik':
			return call(h.logLikelihood, self.sets[rng.randrange(2)])
		if what == 'save':
			return call(h.save, 'h%d.txt' % rng.randrange(2))
		if what == 'prism':
			return call(h.savePrism, 'h%d.sm' % rng.randrange(2)) if hasattr(h, 'savePrism') else None
		if what == 'storm':
			return call(rng.choice([ja.jajapyModeltoStormpy, lambda x: x.toStormpy() if hasattr(x, 'toStormpy') else None]), h)
		if what == 'convert':
			if t == 'CTMC':
				return call(h.toMC)
			if t == 'PCTMC':
				return call(ja.PCTMCtoCTMC, h)
		return None

	def new(self, h, other, what, rng):
		"""a model made from this one: (outcome, related)"""
		ja = self.ja
		t = ref.TYPES[h.model_type]
		if what == 'args':
			return call(self.cls, *self.args)
		if what == 'attributes':
			if t in ('MC', 'CTMC'):
				return call(getattr(ja, t), h.matrix, h.labelling, h.name)
			if t == 'MDP':
				return call(ja.MDP, h.matrix, h.labelling, h.actions, h.name)
			if t == 'HMM':
				return call(ja.HMM, h.matrix, h.output, h.alphabet, h.initial_state, h.name)
			if t == 'GoHMM':
				return call(ja.GoHMM, h.matrix, h.output, h.initial_state, h.name)
			return call(ja.PCTMC, h.matrix, h.labelling, h.transition_expr, h.parameter_values, h.parameter_indexes, h.parameter_str, h.name)
		if what == 'toMC' and t == 'CTMC':
			return call(h.toMC)
		if what == 'toCTMC' and t == 'PCTMC':
			return call(ja.PCTMCtoCTMC, h)
		if what == 'compose' and t in ('CTMC', 'PCTMC') and ref.TYPES[other.model_type] == t and max(len(h.matrix), len(other.matrix)) < 6:
			if list(h.labelling).count('init') != 1 or list(other.labelling).count('init') != 1:
				return None
			if t == 'CTMC':
				return call(ja.synchronousCompositionCTMCs, h, other)
			if t == 'PCTMC':
				ms = [h, other]
				o = call(ja.synchronousCompositionPCTMCs, ms)
				if len(ms) != 2 or ms[0] is not h or ms[1] is not other:
					self.bad = 'the list of components is altered'
				return o
		if what == 'load':
			o = call(h.save, 'l.txt')
			return call(getattr(ja, 'load'+t), 'l.txt') if o.ok else o
		if what == 'loadprism' and hasattr(h, 'savePrism') and list(h.labelling).count('init') == 1:
			o = call(h.savePrism, 'l.sm')
			return call(ja.loadPrism, 'l.sm') if o.ok else o
		if what == 'back' and hasattr(h, 'labelling') and list(h.labelling).count('init') == 1:
			o = call(ja.jajapyModeltoStormpy, h)
			if not o.ok:
				return o
			names = list(h.actions) if t == 'MDP' else []
			return call(ja.stormpyModeltoJajapy, o.value, h.actions) if names else call(ja.stormpyModeltoJajapy, o.value)
		if what == 'again':
			return call(copy.deepcopy, h)
		return None

	def change(self, k, what, rng):
		h = self.models[k]
		t = ref.TYPES[h.model_type]
		if what == 'rename':
			return call(h.rename, 'renamed %d' % rng.randrange(9))
		if what == 'labels' and hasattr(h, 'updateLabelling'):
			lab = ['L%d' % rng.randrange(3) for _ in h.labelling]
			lab[rng.randrange(len(lab))] = 'init'
			keep = list(lab)
			o = call(h.updateLabelling, lab)
			if lab != keep:
				self.bad = 'the list of labels is altered'
			if o.ok and list(h.labelling) == lab and sorted(h.getAlphabet()) != sorted(set(lab)):
				self.bad = 'the alphabet is %s' % h.getAlphabet()
			return o
		if what == 'instantiate' and t == 'PCTMC':
			ps = [p for p in h.parameter_str if rng.random() < 0.7]
			vs = [round(0.2+2*rng.random(), 3) for _ in ps]
			a, b = list(ps), list(vs)
			o = call(h.instantiate, ps, vs)
			if a != ps or b != vs:
				self.bad = 'the lists of parameters are altered'
			return o
		if what == 'random' and t == 'PCTMC':
			return call(h.randomInstantiation, min_val=0.1, max_val=2.0)
		if what == 'fit':
			# the set fits the models of the first family only
			own = ref.TYPES[h.model_type] == self.wl['spec']['t']
			if not own or (t == 'PCTMC' and not h.isInstantiated()):
				return None
			kw = {'max_it': 1, 'stormpy_output': False, 'verbose': 0}
			if t == 'CTMC' and rng.random() < 0.5:
				fx = np.zeros(h.matrix.shape, dtype=bool)
				fx[0] = True
				kw['fixed_parameters'] = fx
			if t == 'PCTMC' and h.parameter_str and rng.random() < 0.5:
				kw['fixed_parameters'] = [h.parameter_str[0]]
			keep = plain(kw)
			o = call((self.bw if rng.random() < 0.5 else self.ja.BW()).fit, self.sets[rng.randrange(2)], initial_model=h, **kw)
			if plain(kw) != keep:
				self.bad = 'the fixed parameters are altered'
			return o
		if what == 'params' and t == 'PCTMC' and h.isInstantiated() and self.wl['spec']['t'] == t:
			ps = [p for p in h.parameter_str if rng.random() < 0.7]
			keep = list(ps)
			o = call(self.bw.fit_parameters, self.sets[rng.randrange(2)], h, ps, max_it=1, verbose=0)
			if ps != keep:
				self.bad = 'the list of parameters is altered'
			return o
		if what == 'numbers':
			# writing into a model that was derived by the library (own numbers)
			if self.own[k]:
				if t != 'PCTMC':
					h.matrix *= 0.5
				return call(lambda: None)
		return None


def execute(ja, wl, w):
	h = History(ja, wl, w)
	h.own = [False]
	h.bad = None
	m = h.verify('the constructor')
	if m:
		return [m]
	shared = False
	for op in wl['ops']:
		k = op[1] % len(h.models)
		rng = _Random(op[3])
		model = h.models[k]
		w.ops += 1
		w.tags[op[0]+' '+op[2]] = w.tags.get(op[0]+' '+op[2], 0)+1
		target, learned, sset = k if op[0] == 'change' else None, op[2] in ('fit', 'params'), None
		where = rng.choice(['linux', 'linux', 'darwin', 'win32']) if op[2] == 'loglik' else None
		if op[2] == 'save' and op[0] == 'act' and rng.random() < 0.3:
			w.fs.arm(fail_at=(rng.randint(0, 5), 'ENOSPC', True), bufsize=32)
		try:
			with interrupt_after(w, op[4]):
				if op[0] == 'ask':
					q = query(model, op[2], rng, wl['spec'])
					if q is None:
						continue
					o = call(q)
				elif op[0] == 'act':
					if where:
						with platform(w, where):
							o = h.act(model, op[2], rng)
					else:
						o = h.act(model, op[2], rng)
				elif op[0] == 'new':
					if len(h.models) >= 5:
						continue
					o = h.new(model, h.models[op[5] % len(h.models)], op[2], rng)
				elif op[0] == 'change':
					o = h.change(k, op[2], rng)
				else:
					s = h.sets[k % 2]
					if op[2] == 'add':
						sset = k % 2
					o = call({'alphabet': s.getAlphabet, 'actions': s.getActionsObservations, 'list': s.to_list, 'equal': lambda: s.isEqual(h.sets[1-k % 2]), 'save': lambda: s.save('s.txt'), 'add': lambda: s.addSet(h.sets[1-k % 2]),
							  'merge': lambda: merging(ja, s, rng)}[op[2]])
		except KeyboardInterrupt:
			o = None
		finally:
			w.fs.kill()
			w.fs.disarm()
		if o is not None and o.kind == 'hang':
			return [Violation('hang', '%s: %s' % (op, o.error))]
		if h.bad:
			return [Violation('arguments', '%s: %s' % (op[:3], h.bad))]
		v = h.verify(op[:3], target, learned, sset)
		if v:
			return [v]
		if o is None:
			h.snap()
			continue
		if target is not None and len(h.models) > 1:
			w.nontrivial = True
		if op[0] == 'new' and o.ok:
			n = o.value
			h.models.append(n)
			h.own.append(op[2] not in ('args', 'attributes'))
			if op[2] == 'attributes':
				h.own[k] = False
		elif op[0] == 'ask' and o.kind != 'interrupt':
			a = answer(op[2], o)
			key = (k, op[2], op[3])
			spoil(o.value)
			v = h.verify('writing into the answer of %s' % op[2])
			if v:
				return [v]
			h.asked.setdefault(k, []).append((op[2], op[3], a))
		elif op[0] == 'set' and o.ok and op[2] != 'add':
			spoil(o.value)
			v = h.verify('writing into the answer of %s' % op[2])
			if v:
				return [v]
		if target is not None:
			h.asked.pop(target, None)
		h.snap()
		# a question gets the same answer as before
		for j in sorted(h.asked):
			what, seed, a = h.asked[j][-1]
			b = answer(what, call(query(h.models[j], what, _Random(seed), wl['spec'])))
			if repr(a) != repr(b):
				return [Violation('answer', 'after %s, %s answers %s instead of %s' % (op[:3], what, str(b)[:200], str(a)[:200]))]
	return []
