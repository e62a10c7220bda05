"""C24: meaningless requests are refused and leave no trace."""
import os

import numpy as np

from sim import gen, ref
from sim.core import Violation, _Random
from sim.lib import call, changed, plain, state, unexpected
from . import c22, common, fitlib

RUNS = {'quick': 2500, 'thorough': 80000}
LEVEL = 'exploration'
REAL = common.REAL
STUB = common.STUB+['the file system below the scratch folder']
ASSUMPTIONS = ['the reference implementations (sim/ref.py), relative tolerance 1e-6 for learned models and 1e-8 for loglikelihoods', 'an observation that a state does not know has probability 0; asking for it is not meaningless']
RULE = 'a history over up to three models, their training sets, one shared learner and files, in which requests naming states, distributions, parameters, files or models that do not exist, and learnings whose arguments cannot be used together, are mixed with proper questions, learnings, loglikelihoods, traces and saves; some are made while workers are slow or the clock jumps. Non-trivial: a proper request followed a refused one.'

NONSENSE = ['state', 'state', 'state', 'negative', 'number', 'nothing', 'rates', 'mismatch', 'mismatch', 'unknown parameter', 'not parametric', 'no values', 'no file', 'other file', 'random', 'random', 'merge', 'compose', 'convert', 'lengths', 'hidden']
SENSE = ['ask', 'ask', 'ask', 'fit', 'loglik', 'loglik', 'run', 'store', 'merge ok']


def generate(rng, i, tier):
	ps = [fitlib.gen_problem(rng, max_rounds=2, nseq=rng.choice([1, 2, 3]), maxlen=4, smax=3, impossible=0.0) for _ in range(rng.choice([2, 2, 3]))]
	ops = []
	for _ in range(rng.randint(4, 14)):
		ops.append([rng.choice(NONSENSE) if rng.random() < 0.6 else rng.choice(SENSE), rng.randrange(len(ps)), rng.randrange(len(ps)), rng.randrange(1 << 20)])
	for k in range(len(ps)):
		ops.append([rng.choice(SENSE), k, k, rng.randrange(1 << 20)])
	e = gen.env(rng, gen.benign(rng), linux=0.8)
	return {'env': e, 'ps': ps, 'ops': ops, 'processes': rng.choice([None, 1, 2, 3])}


def shrink(wl):
	for i in range(len(wl['ops'])-1, -1, -1):
		yield dict(wl, ops=wl['ops'][:i]+wl['ops'][i+1:])


class Live:
	def __init__(self, ja, p):
		self.p = p
		self.spec = p['spec']
		self.t = self.spec['t']
		self.h = ref.build(ja, self.spec)
		self.ts = gen.to_set(ja, p['data'], self.spec)

	def look(self):
		return {'model': state(self.h), 'set': plain([self.ts.sequences, self.ts.times, self.ts.type])}


def observation(l, rng):
	if l.t == 'GoHMM':
		return [0.3]*len(l.spec['O'][0])
	return rng.choice(l.spec['alphabet'] if l.t == 'HMM' else l.spec['labels'])


def questions(l, bad, rng, strict):
	"""requests about the state bad. strict: those which refuse every wrong ID"""
	h, t = l.h, l.t
	n = ref.nstates(l.spec)
	s, ob = rng.randrange(n), observation(l, rng)
	q = []
	if t == 'MDP':
		a = rng.choice(l.spec['actions'])
		q += [('tau', lambda: h.tau(bad, a, s, ob)), ('tau', lambda: h.tau(s, a, bad, ob)), ('a', lambda: h.a(bad, s, a)), ('a', lambda: h.a(s, bad, a))]
	else:
		q += [('tau', lambda: h.tau(bad, s, ob)), ('tau', lambda: h.tau(s, bad, ob))]
	if t in ('MC', 'HMM', 'GoHMM'):
		q += [('a', lambda: h.a(bad, s)), ('a', lambda: h.a(s, bad))]
	if t in ('CTMC', 'PCTMC'):
		q += [('l', lambda: h.l(bad, s, ob)), ('l', lambda: h.l(s, bad, ob)), ('e', lambda: h.e(bad)), ('expected_time', lambda: h.expected_time(bad)), ('lkl', lambda: h.lkl(bad, 0.5))]
	if t not in ('HMM', 'GoHMM'):
		q += [('getLabel', lambda: h.getLabel(bad)), ('b', lambda: h.b(bad, ob))]
	if not strict:
		q.append(('pi', lambda: h.pi(bad)))
		if t in ('MC', 'HMM', 'GoHMM'):
			q.append(('run', lambda: h.run(2, bad)))
		if t == 'MDP':
			import jajapy as ja
			q += [('getActions', lambda: h.getActions(bad)), ('run', lambda: h.run(2, ja.UniformScheduler(list(l.spec['actions'])), bad))]
		if t == 'HMM':
			q += [('b', lambda: h.b(bad, ob)), ('getAlphabet', lambda: h.getAlphabet(bad))]
		if t == 'GoHMM':
			k = len(l.spec['O'][0])+rng.randrange(2)
			q += [('b', lambda: h.b(bad, ob)), ('mu', lambda: h.mu(bad)), ('mu_n', lambda: h.mu_n(bad, 0)), ('b_n', lambda: h.b_n(bad, 0, 0.1)), ('mu_n', lambda: h.mu_n(s, k)), ('b_n', lambda: h.b_n(s, k, 0.1))]
		if t == 'PCTMC':
			q += [('transitionValue', lambda: h.transitionValue(bad, s)), ('transitionValue', lambda: h.transitionValue(s, bad)), ('transitionExpression', lambda: h.transitionExpression(bad, s)),
				  ('evaluateTransition', lambda: h.evaluateTransition(s, bad)), ('isInstantiated', lambda: h.isInstantiated(bad)), ('involvedParameters', lambda: h.involvedParameters(bad))]
	return rng.choice(q)


def inits(l):
	return all(len(x) and x[0] == 'init' for x in l.ts.sequences)


def usable(l, m):
	"""may the set of m be given to a model like l?"""
	a, b = l.t, m.t
	return a == b or {a, b} <= {'MC', 'HMM', 'CTMC', 'PCTMC'} or a == 'MDP' and b in ('MC', 'HMM', 'CTMC', 'PCTMC')


def nonsense(ja, kind, l, m, learner, rng, wl, tmp):
	"""(text, callable) or None"""
	n = ref.nstates(l.spec)
	h = l.h
	k = dict(verbose=0, stormpy_output=False, max_it=1, processes=wl['processes'])
	if kind == 'state':
		bad = n+rng.choice([0, 0, 1, 7])
		q = questions(l, bad, rng, False)
		return '%s about state %d of %d' % (q[0], bad, n), q[1]
	if kind == 'negative':
		q = questions(l, -rng.randint(1, n+1), rng, True)
		return '%s about a negative state' % q[0], q[1]
	if kind == 'number':
		bad = rng.choice([None, 'x', '0', [0], (1,)])
		q = questions(l, bad, rng, True)
		if l.t == 'PCTMC' and isinstance(bad, str):
			return None
		return '%s about the state %r' % (q[0], bad), q[1]
	if kind == 'nothing':
		return 'a learning from nothing', lambda: learner.fit(l.ts, **k)
	if kind == 'rates':
		if l.t != 'CTMC' or not l.p['timed']:
			return None
		f = rng.choice([{}, {'min_exit_rate_time': 1}, {'max_exit_rate_time': 3}])
		return 'a timed learning from a number of states without bounds for the rates', lambda: learner.fit(l.ts, nb_states=2, self_loop=True, **f, **k)
	if kind == 'mismatch':
		# one observation alone may come from anything
		d = [x for x in m.p['data'] if len(x[0]) > 1]
		if usable(l, m) or m.t == 'HMM' or not d or not (m.t == 'GoHMM' or inits(m)):
			return None
		g = ref.build(ja, l.spec)
		ts = gen.to_set(ja, d, m.spec)
		return 'a %s learned from a set of a %s' % (l.t, m.t), lambda: learner.fit(ts, initial_model=g, **k)
	if kind == 'unknown parameter':
		if l.t != 'PCTMC' or not inits(l):
			return None
		ps = list(l.spec['params'])
		return 'a fit of an unknown parameter', lambda: learner.fit_parameters(l.ts, h, (ps+['no_such'] if rng.random() < 0.5 else ['no_such']), verbose=0)
	if kind == 'not parametric':
		if l.t == 'PCTMC':
			return None
		if rng.random() < 0.5:
			return 'a fit of the missing parameters of a '+l.t, lambda: learner.fit_nonInstantiatedParameters(l.ts, h, verbose=0)
		return 'a fit of parameters of a '+l.t, lambda: learner.fit_parameters(l.ts, h, ['p'], verbose=0)
	if kind == 'no values':
		if l.t != 'PCTMC' or not l.spec['params']:
			return None
		# everything needs a value of some parameter
		s = next((x for x, d, c, pw in l.spec['trans'] if pw), None)
		if s is None:
			return None
		g = ref.build(ja, dict(l.spec, values={p: np.nan for p in l.spec['params']}))
		q = [('loglikelihood', lambda: g.logLikelihood(l.ts)), ('exit rate', lambda: g.e(s)), ('next', lambda: g.next(s))]
		if boot_stormpy():
			q.append(('conversion', lambda: ja.jajapyModeltoStormpy(g)))
		q = rng.choice(q)
		return q[0]+' of a PCTMC without values', q[1]
	if kind == 'no file':
		t = rng.choice(['MC', 'MDP', 'HMM', 'GoHMM', 'CTMC', 'PCTMC', 'Set'])
		return 'load%s of a missing file' % t, lambda: getattr(ja, 'load'+t)('missing.txt')
	if kind == 'other file':
		h.save('other.txt')
		tmp.append('other.txt')
		t = rng.choice([x for x in ('MC', 'MDP', 'HMM', 'GoHMM', 'CTMC', 'PCTMC') if x != l.t])
		return 'load%s of a file of a %s' % (t, l.t), lambda: getattr(ja, 'load'+t)('other.txt')
	if kind == 'random':
		bad = rng.choice([0, -1, -2, 'x', None, 1.5])
		lab = ['a', 'b']
		f = [('MC_random', lambda: ja.MC_random(bad, lab)), ('MDP_random', lambda: ja.MDP_random(bad, lab, ['x', 'y'])), ('HMM_random', lambda: ja.HMM_random(bad, lab)), ('GoHMM_random', lambda: ja.GoHMM_random(bad, 2)),
			 ('CTMC_random', lambda: ja.CTMC_random(bad, lab, 1, 3))]
		if rng.random() < 0.3:
			bad = 3
			lab = ['a', 'init'] if rng.random() < 0.6 else []
			if not lab:
				f = [f[0], f[2]]
			else:
				f = [f[0], f[1], f[4]]
		f = rng.choice(f)
		return '%s with %r states over %r' % (f[0], bad, lab), f[1]
	if kind == 'merge':
		if l.ts.type == m.ts.type or not m.ts.sequences or not l.ts.sequences:
			return None
		return 'a merge of sets of different kinds', lambda: l.ts.addSet(m.ts)
	if kind == 'compose':
		return 'a composition of nothing', lambda: ja.synchronousCompositionPCTMCs([])
	if kind == 'convert':
		if not boot_stormpy():
			return None
		if l.t in ('HMM', 'GoHMM'):
			return 'a conversion of a '+l.t, lambda: ja.jajapyModeltoStormpy(h)
		return 'a conversion of a training set', lambda: (ja.stormpyModeltoJajapy if rng.random() < 0.5 else ja.jajapyModeltoStormpy)(l.ts)
	if kind == 'lengths':
		sch = ja.UniformScheduler(list(l.spec['actions'])) if l.t == 'MDP' else None
		a = rng.choice([(3, [1, 2], {}), (3, 0.0, {'distribution': 'geo', 'min_size': 1}), (3, 1.5, {'distribution': 'geo', 'min_size': 1}), (2, 'x', {}), (4, [2], {})])
		if l.t == 'PCTMC' and a[1] == 'x':
			return None
		args = [a[0], a[1]]+([sch] if sch else [])
		return 'traces of lengths %r' % (a[1],), lambda: h.generateSet(*args, **a[2])
	if kind == 'hidden':
		if l.t in ('HMM', 'GoHMM'):
			return 'labels of hidden states', lambda: h.getLabel(0)
		return None


def boot_stormpy():
	from sim import boot
	return boot.STORMPY


def execute(ja, wl, w):
	lives = [Live(ja, p) for p in wl['ps']]
	learner = ja.BW()
	refused = 0
	tmp = []
	stored = {}
	for kind, i, j, seed in wl['ops']:
		w.ops += 1
		rng = _Random(seed)
		l, m = lives[i % len(lives)], lives[j % len(lives)]
		if kind in NONSENSE:
			r = nonsense(ja, kind, l, m, learner, rng, wl, tmp)
			if r is None:
				continue
			before = [x.look() for x in lives]
			files = contents()
			o = call(r[1])
			w.event('nonsense', kind, o.kind)
			w.tags[kind] = w.tags.get(kind, 0)+1
			if o.kind == 'hang':
				return [unexpected(o, r[0])]
			if o.ok and not (r[0].startswith('b about') and isinstance(o.value, (int, float)) and o.value == 0.0):
				return [Violation('answered:'+kind, '%s (%s) is answered: %s' % (r[0], l.t, str(plain(o.value))[:200]))]
			refused += 1
			for x, b in zip(lives, before):
				d = changed(b['model'], x.look()['model']) or changed({'set': b['set']}, {'set': x.look()['set']})
				if d:
					return [Violation('trace:'+kind, '%s changed a %s: %s' % (r[0], x.t, d))]
			f = contents()
			if f != files:
				return [Violation('trace:'+kind, '%s left the files %r (before: %r)' % (r[0], sorted(f), sorted(files)))]
			if any(not e.idle() for e in w.pools):
				return [Violation('trace:'+kind, '%s left working processes' % r[0])]
			continue
		if refused:
			w.nontrivial = True
		v = sense(ja, kind, l, m, learner, rng, wl, w, stored)
		if v:
			return v
	for l in lives:
		d = ref.differ(ref.view(l.h), ref.spec_view(l.spec), 1e-9, 1e-12)
		if d:
			return [Violation('model', d)]
	return []


def contents():
	out = {}
	for f in sorted(os.listdir('.')):
		if os.path.isfile(f):
			with open(f, 'rb') as g:
				out[f] = g.read()
	return out


def sense(ja, kind, l, m, learner, rng, wl, w, stored):
	if kind == 'ask':
		for _ in range(4):
			txt, f, want = c22.question(l.h, l.spec, rng)
			o = call(f)
			if not o.ok or not c22.equal(o.value, want):
				return [Violation('answer', '%s of a %s: %r instead of %r' % (txt, l.t, o if not o.ok else o.value, want))]
	elif kind == 'loglik':
		want = ref.loglik(l.spec, l.p['data'])
		o = call(l.h.logLikelihood, l.ts)
		if not o.ok:
			return [unexpected(o, 'logLikelihood')]
		if not ref.close(float(o.value), want, 1e-8, 1e-8):
			return [Violation('loglikelihood', '%s: %.12g instead of %.12g' % (l.t, o.value, want))]
	elif kind == 'fit':
		r = fitlib.reference(l.p)
		if r is None or r[3] < 1e-6:
			w.tags['degenerate'] = 1
			return []
		o = fitlib.fit(ja, l.p, learner=learner, processes=wl['processes'])
		if not o.ok:
			return [unexpected(o, 'fit')]
		d = ref.differ(ref.view(o.value[0]), ref.spec_view(r[0]), 1e-6, 1e-9)
		if d:
			return [Violation('learned', '%s: %s' % (l.t, d))]
	elif kind == 'run':
		sch = ja.UniformScheduler(list(l.spec['actions'])) if l.t == 'MDP' else None
		o = call(l.h.run, 3, sch) if sch else call(l.h.run, 3)
		if not o.ok and l.t == 'MC' and not all(map(any, l.spec['A'])):
			return [] # a state nothing leaves was reached
		if not o.ok:
			return [unexpected(o, 'run')]
		if not ref.prob(l.spec, o.value) > 0:
			return [Violation('trace', 'impossible trace %r of a %s' % (o.value, l.t))]
	elif kind == 'store':
		o = call(l.h.save, 'm.txt')
		if not o.ok:
			return [unexpected(o, 'save')]
		o = call(getattr(ja, 'load'+l.t), 'm.txt')
		if not o.ok:
			return [unexpected(o, 'load')]
		d = ref.differ(ref.view(o.value), ref.view(l.h), 1e-12, 0)
		if d:
			return [Violation('stored', d)]
	elif kind == 'merge ok':
		a, b = gen.to_set(ja, l.p['data'], l.spec), gen.to_set(ja, l.p['data'], l.spec)
		n = int(sum(a.times))
		o = call(a.addSet, b)
		if not o.ok:
			return [unexpected(o, 'addSet')]
		if int(sum(a.times)) != 2*n:
			return [Violation('merged', 'the merge of a set of %d traces with itself has %d' % (n, int(sum(a.times))))]
	return []
