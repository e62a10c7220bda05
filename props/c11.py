"""C11: active learning of decision processes."""
import copy

import numpy as np

from sim import gen, ref
from sim.core import Violation
from sim.lib import call, quiet, unexpected
from . import common, fitlib
from .c04 import well_formed
from .c06 import faulted, outcome

RUNS = {'quick': 4000, 'thorough': 60000}
LEVEL = 'exploration'
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = ['the reference Baum-Welch (sim/ref.py), relative tolerance 1e-6', 'judged when the hypothesis can explain each batch and the stop decisions are not within 1e-6 of their threshold',
			   'sampling preference: statistical, two-sided error below 1e-9']
RULE = 'an active learning with a recorded system under learning (every trace it hands out is logged), any learning rate, epsilon-greedy value, machine, and worker faults; the result is compared with a replay of the documented algorithm on the recorded traces. Non-trivial: at least one batch with two different traces was used.'


def generate(rng, i, tier):
	while True:
		sul = gen.trainable(rng, 'MDP', smax=4)
		hyp = gen.perturb(rng, sul)
		data, _ = gen.dataset(rng, sul, rng.choice([1, 2, 3, 5]), 4, impossible=0.1)
		if any(float(ref.forward(hyp, s, False)[3]) > 1e-60 for s, _ in data):
			break
	f = gen.benign(rng)
	x = rng.random()
	kind = 'strategy' if x < 0.11 else 'mixture' if x < 0.14 else 'fit'
	if rng.random() < 0.2 and kind == 'fit':
		f[rng.choice(['worker_crash', 'worker_memory', 'fork_fail', 'interrupt'])] = rng.choice([0.02, 0.1])
	e = gen.env(rng, f, linux=0.85)
	e['max_faults'] = rng.choice([1, 3]) if any(k not in gen.BENIGN for k in f) else 100000
	form = rng.choice(['set', 'set', 'list'])
	return {'env': e, 'kind': kind, 'spec': hyp, 'sul': sul, 'data': data, 'form': form, 'lr': rng.choice([0, 0, 'dynamic', 'dynamic', 0.1, 0.5, 0.9, 1.0, 1]),
			'iterations': rng.choice([0, 1, 1, 2, 3]), 'n': rng.choice([1, 2, 3, 6]), 'length': rng.choice([None, 1, 2, 4]), 'greedy': rng.choice([0.0, 0.5, 0.9, 1.0, None]), 'share': rng.choice([None, None, 0.25, 0.5, 0.75]),
			'epsilon': rng.choice([0.01, 0.5]), 'max_it': rng.randint(1, 3), 'processes': rng.choice(fitlib.PROCS), 'tail': rng.randint(0, 3)}


class Recorder:
	"""stands in for the method `run` of the system under learning"""
	def __init__(self, sul, log, who=None):
		self.sul, self.log, self.who = sul, log, who

	def __call__(self, *a, **k):
		tr = type(self.sul).run(self.sul, *a, **k)
		self.log.append(copy.deepcopy(tr))
		if self.who is not None:
			self.who.append([x for x in list(a)+list(k.values()) if hasattr(x, 'getAction')])
		return tr

	def __getstate__(self):
		return {'sul': self.sul, 'log': []}


def execute(ja, wl, w):
	if wl['kind'] == 'strategy':
		return strategy(ja, wl, w)
	if wl['kind'] == 'mixture':
		return mixture(ja, wl, w)
	sul = ref.build(ja, wl['sul'])
	before = ref.view(sul)
	hyp = ref.build(ja, wl['spec'])
	data = wl['data']
	handed = []
	sul.run = Recorder(sul, handed)
	ts = gen.to_set(ja, data, wl['spec']) if wl['form'] == 'set' else [gen._copy(s) for s, n in data for _ in range(min(int(n), 30))]
	if wl['form'] != 'set':
		data = [[s, min(int(n), 30)] for s, n in data]
	learner = ja.Active_BW_MDP()
	kw = dict(epsilon=wl['epsilon'], max_it=wl['max_it'], verbose=0, stormpy_output=False, processes=wl['processes'], return_data=True)
	if wl['greedy'] is not None:
		kw['epsilon_greedy'] = wl['greedy']
	if wl['length'] is not None:
		kw['sequence_length'] = wl['length']
	o = call(learner.fit, ts, sul, wl['lr'], wl['iterations'], wl['n'], initial_model=hyp, **kw)
	w.ops += 1
	w.tags['lr %s' % wl['lr']] = 1
	del sul.__dict__['run']
	d = ref.differ(before, ref.view(sul), 0, 0)
	if d:
		return [Violation('system', 'the system under learning changed: '+d)]
	L = wl['length'] if wl['length'] is not None else int(len(data[0][0])/2)
	for tr in handed:
		if len(tr) != 2*L+1:
			return [Violation('sampling', 'traces of %d steps were asked instead of %d' % (len(tr)//2, L))]
	expect = wl['iterations']*wl['n']
	if len(handed) > expect:
		return [Violation('sampling', '%d traces were asked instead of %d' % (len(handed), expect))]
	if faulted(w) or o.kind == 'hang':
		v = outcome(w, o, 'fit')
		if v:
			return v
	if not o.ok:
		if faulted(w):
			return retry(ja, wl, w, learner, sul, data)
		r = replicate(wl, data, handed)
		if r == 'unexplained' or r is None:
			w.tags['a batch is not explained'] = 1
			return []
		return [unexpected(o, 'fit')]
	if len(handed) != expect:
		return [Violation('sampling', '%d traces were asked instead of %d' % (len(handed), expect))]
	h, info = o.value
	m = well_formed(ref.view(h))
	if m:
		return [Violation('malformed', m)]
	r = replicate(wl, data, handed)
	if not isinstance(r, tuple):
		w.tags['degenerate'] = 1
		return []
	spec, rounds, total = r
	d = ref.differ(ref.view(h), ref.spec_view(spec), 1e-6, 1e-9)
	if d:
		return [Violation('not-the-algorithm', 'learning rate %r: %s' % (wl['lr'], d))]
	if info['learning_rounds'] != rounds:
		return [Violation('reported', '%r rounds instead of %d' % (info['learning_rounds'], rounds))]
	want = ref.loglik(spec, total)
	if not ref.close(float(info['training_set_loglikelihood']), want, 1e-6, 1e-6):
		return [Violation('reported', 'loglikelihood %.12g, all the traces have %.12g' % (info['training_set_loglikelihood'], want))]
	w.nontrivial = wl['iterations'] > 0 and len(set(map(repr, handed))) > 1
	return []


def count(trs):
	out = []
	for t in trs:
		for x in out:
			if x[0] == t:
				x[1] += 1
				break
		else:
			out.append([t, 1])
	return out


def replicate(wl, data, handed):
	"""the documented algorithm on the recorded traces: (spec, rounds, all the
	traces) or None (degenerate) or 'unexplained'"""
	spec = wl['spec']
	total = [[s, int(n)] for s, n in data]
	rounds = 0
	batches = [handed[k*wl['n']:(k+1)*wl['n']] for k in range(wl['iterations'])]

	def learn(spec, d):
		r = fitlib.reference({'spec': spec, 'data': d, 'epsilon': wl['epsilon'], 'max_it': wl['max_it']})
		if r is None or r[3] < 1e-6:
			return None
		return r
	r = learn(spec, total)
	if r is None:
		return None
	spec, rounds = r[0], r[1]
	for b in batches:
		if len(b) < wl['n']:
			return None
		b = count(b)
		n0 = sum(k for _, k in total)
		for s, k in b:
			for x in total:
				if x[0] == s:
					x[1] += k
					break
			else:
				total.append([s, k])
		if wl['lr'] == 0:
			r = learn(spec, total)
			if r is None:
				return None
			spec = r[0]
		else:
			if not any(float(ref.forward(spec, s, False)[3]) > 0 for s, _ in b):
				return 'unexplained'
			lr = min(1.0, wl['n']/n0) if wl['lr'] == 'dynamic' else wl['lr']
			r = learn(spec, b)
			if r is None:
				return None
			spec = dict(spec, A=lr*np.array(r[0]['A'])+(1-lr)*np.array(spec['A']))
		rounds += r[1]
	return spec, rounds, total


def retry(ja, wl, w, learner, sul, data):
	"""the same learner, system and machine, without faults"""
	with quiet(w):
		o = call(learner.fit, gen.to_set(ja, data, wl['spec']), sul, 0, 1, 2, initial_model=ref.build(ja, wl['spec']), epsilon=wl['epsilon'], max_it=1, verbose=0, stormpy_output=False, sequence_length=2)
	if not o.ok:
		return [unexpected(o, 'retry')]
	w.tags['retried'] = 1
	return []


def strategy(ja, wl, w):
	"""which actions are taken: every trace handed out with epsilon_greedy=1 is
	compared with the documented preference for the actions tried least"""
	import math
	spec = copy.deepcopy(wl['sul'])
	n, acts = len(spec['labels']), spec['actions']
	if len(acts) < 2 or spec['labels'].count('init') != 1:
		return []
	# every action is available everywhere
	for s in spec['A']:
		ok = [r for r in s if sum(r) > 0]
		for k in range(len(s)):
			if sum(s[k]) == 0:
				s[k] = list(ok[0])
	data = [[s, min(int(k), 50)] for s, k in wl['data'] if float(ref.forward(spec, s, False)[3]) > 1e-60]
	if not data:
		return []
	sul, hyp = ref.build(ja, spec), ref.build(ja, spec)
	handed = []
	sul.run = Recorder(sul, handed)
	N = 150
	learner = ja.Active_BW_MDP()
	o = call(learner.fit, gen.to_set(ja, data, spec), sul, 0, 1, N, initial_model=hyp, epsilon_greedy=1.0, sequence_length=2, max_it=1, verbose=0, stormpy_output=False, processes=wl['processes'])
	w.ops += 1
	if not o.ok:
		return [unexpected(o, 'fit')]
	if len(handed) != N:
		return [Violation('sampling', '%d traces were asked instead of %d' % (len(handed), N))]
	# the hypothesis after the initial learning, the expected numbers of trials
	h, _, _ = ref.em_step(spec, data)
	h['A'] = np.array(h['A'], dtype=float)
	mat = np.zeros((n, len(acts)))
	for s, k in data:
		W, al, be, p = ref.forward(h, s, False)
		if p > 0:
			for t, a in enumerate(s[1::2]):
				mat[:, acts.index(a)] += np.array(al[t]*be[t]*k/p, dtype=float)
	dev = [0.0]*len(acts)
	var = [0.0]*len(acts)
	lab = np.array(spec['labels'])
	for tr in handed:
		al = np.array(ref.pi(spec), dtype=float)
		for t in range(2):
			tot = al.sum()
			b = al/tot if tot > 0 else np.ones(n)/n
			P = np.zeros(len(acts))
			for s in range(n):
				if b[s] > 0:
					q = mat[s].sum()-mat[s]
					q = q/q.sum() if q.sum() > 0 else np.ones(len(acts))/len(acts)
					P += b[s]*q
			a = acts.index(tr[2*t+1])
			if P[a] <= 1e-12:
				return [Violation('strategy', 'the action %r was taken although its alternatives had never been tried (trace %r)' % (acts[a], tr))]
			for k in range(len(acts)):
				dev[k] += (1.0 if k == a else 0.0)-P[k]
				var[k] += P[k]*(1-P[k])
			if tot > 0:
				mat[:, a] += al/tot
				al = (al*(lab == tr[2*t])) @ h['A'][:, a, :]
	for k in range(len(acts)):
		# Freedman's inequality, 1e-9
		L = math.log(2e9)
		bound = math.sqrt(2*var[k]*L+(L/3)**2)+L/3
		if abs(dev[k]) > bound:
			return [Violation('strategy', 'the action %r was taken %.1f times more than the strategy says (%d steps, bound %.1f)' % (acts[k], dev[k], 2*N, bound))]
	w.tags['strategy'] = 1
	w.nontrivial = True
	return []


def mixture(ja, wl, w):
	"""how often the active learning scheduler is used"""
	import math
	spec = wl['sul']
	data = [[s, min(int(k), 50)] for s, k in wl['data'] if float(ref.forward(spec, s, False)[3]) > 1e-60]
	if not data:
		return []
	sul, hyp = ref.build(ja, spec), ref.build(ja, spec)
	handed, who = [], []
	sul.run = Recorder(sul, handed, who)
	N = 300
	kw = {} if wl['share'] is None else {'epsilon_greedy': wl['share']}
	o = call(ja.Active_BW_MDP().fit, gen.to_set(ja, data, spec), sul, 0, 1, N, initial_model=hyp, sequence_length=1, max_it=1, verbose=0, stormpy_output=False, processes=wl['processes'], **kw)
	w.ops += 1
	if not o.ok:
		return [unexpected(o, 'fit')]
	mod = __import__('jajapy.mdp.Active_BW_MDP', fromlist=['x'])
	kinds = [next((k for k in ('ActiveLearningScheduler', 'UniformScheduler') if len(x) == 1 and type(x[0]) is getattr(mod, k, None)), None) for x in who]
	if None in kinds or len(kinds) != N:
		return [] # other schedulers: nothing to tell them apart
	share = 0.9 if wl['share'] is None else wl['share']
	got = kinds.count('ActiveLearningScheduler')/N
	bound = math.sqrt(math.log(2e9)/(2*N))
	if abs(got-share) > bound:
		return [Violation('mixture', 'the active learning scheduler was used for %.3f of the traces, epsilon_greedy is %s (bound %.3f)' % (got, wl['share'] or 'the default 0.9', bound))]
	w.tags['mixture'] = 1
	return []
