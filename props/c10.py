"""C10: the protocol between models and schedulers."""
import numpy as np

from sim import gen, ref
from sim.core import Violation
from sim.lib import call, unexpected
from . import common

RUNS = {'quick': 4000, 'thorough': 150000}
LEVEL = 'exploration'
REAL = common.REAL
STUB = ['the random stream (seeded, with extreme values injected)', 'clocks', 'one scheduler is an adversary written by the harness']
ASSUMPTIONS = ['a scheduler that proposes an available action after finitely many refusals']
RULE = 'one random decision process and one scheduler (an adversary that proposes unavailable and unknown actions, uniform, memoryless, finite-memory, active learning) interacting for several traces; every call is recorded and checked against the protocol. Non-trivial: at least one proposed action was refused or the memory changed.'


def generate(rng, i, tier):
	spec = gen.model(rng, 'MDP')
	n = len(spec['labels'])
	if rng.random() < 0.6:
		# one label per state: the current state is visible
		ini = [k for k, l in enumerate(spec['labels']) if l == 'init'][0]
		spec['labels'] = ['init' if k == ini else 'L%d' % k for k in range(n)]
		spec['A'] = [[[0.0 if j == -1 else x for j, x in enumerate(r)] for r in s] for s in spec['A']]
	acts = spec['actions']
	if len(acts) > 1:
		for s in spec['A']:
			if rng.random() < 0.5:
				for a in rng.sample(range(len(acts)), rng.randint(1, len(acts)-1)):
					if sum(1 for r in s if sum(r) > 0) > 1:
						s[a] = [0.0]*n
	kind = rng.choice(['adversary', 'adversary', 'uniform', 'active', 'active', 'finite', 'memoryless', 'dead'])
	nm = rng.randint(1, 4)
	labs = sorted(set(spec['labels']))
	f = {'extreme_draw': rng.choice([0.05, 0.4, 1.0])} if rng.random() < 0.5 and kind != 'uniform' else {}
	e = gen.env(rng, f)
	e['draw_limit'] = 60000
	wl = {'env': e, 'spec': spec, 'kind': kind, 'runs': [rng.randint(1, 8) for _ in range(rng.randint(1, 4))], 'script': [rng.randrange(100) for _ in range(30)],
		  'memory': [[[gen.dist(rng, len(c), 0.3), c] for c in (rng.sample(acts, rng.randint(1, len(acts))) if rng.random() < 0.3 else acts for _ in range(nm))], {l: [rng.randrange(nm) for _ in range(nm)] for l in labs if rng.random() < 0.8}],
		  'hyp': gen.perturb(rng, spec), 'mat': [[rng.choice([0.0, 0.0, rng.random()*5]) for _ in acts] for _ in range(n)], 'as_set': rng.random() < 0.3,
		  'obs': [rng.choice(labs+['unknown']) for _ in range(8)]}
	if kind == 'memoryless':
		wl['choice'] = [rng.randrange(len(acts)) for _ in range(n)]
	if kind == 'active' and rng.random() < 0.3:
		# a hypothesis that cannot explain what it sees
		wl['hyp'] = gen.perturb(rng, spec)
		wl['hyp']['labels'] = [l if l == 'init' else rng.choice([x for x in labs if x != 'init'] or ['z']) for l in wl['hyp']['labels']]
	return wl


class Recorder:
	"""wraps a scheduler's three calls"""

	def __init__(self, inner, events):
		self._i, self._ev = inner, events

	def reset(self):
		self._ev.append(('reset', None))
		return self._i.reset()

	def getAction(self):
		a = self._i.getAction()
		self._ev.append(('ask', a))
		return a

	def addObservation(self, o):
		self._ev.append(('obs', o))
		return self._i.addObservation(o)


class Adversary:
	def __init__(self, acts, script):
		self.acts, self.script, self.i, self.k = acts, script, 0, 0

	def reset(self):
		self.k = 0

	def getAction(self):
		x = self.script[self.i % len(self.script)]
		self.i += 1
		self.k += 1
		if x < 15:
			return 'unknown'
		if self.k > 6:
			return self.acts[self.k % len(self.acts)]
		return self.acts[x % len(self.acts)]

	def addObservation(self, o):
		self.k = 0


def execute(ja, wl, w):
	spec = wl['spec']
	acts = spec['actions']
	A = np.array(spec['A'], dtype=float)
	avail = [[a for k, a in enumerate(acts) if A[s, k].sum() > 0] for s in range(len(A))]
	h = ref.build(ja, spec)
	before = ref.view(h)
	w.tags[wl['kind']] = 1
	unique = len(set(spec['labels'])) == len(spec['labels'])
	kind = wl['kind']
	for s in range(len(A)):
		o = call(h.getActions, s)
		if not o.ok or sorted(o.value) != sorted(avail[s]):
			return [Violation('available', 'state %d: %r instead of %r' % (s, o.value, avail[s]))]
	if kind == 'memoryless':
		return memoryless(ja, wl, w, h, avail)
	if kind == 'dead':
		return dead(ja, wl, w)
	if kind == 'finite':
		v = finite(ja, wl, w)
		if v:
			return v
		am, tm = wl['memory']
		if any(not any(p > 0 and a in av for p, a in zip(am[m][0], am[m][1])) for m in range(len(am)) for av in avail):
			return []
		inner = ja.FiniteMemoryScheduler({i: [list(p), list(a)] for i, (p, a) in enumerate(am)}, {o: list(x) for o, x in tm.items()})
	elif kind == 'adversary':
		inner = Adversary(acts, wl['script'])
	elif kind == 'uniform':
		inner = ja.UniformScheduler(list(acts))
	else:
		hyp = ref.build(ja, wl['hyp'])
		mod = __import__('jajapy.mdp.Active_BW_MDP', fromlist=['x'])
		inner = mod.ActiveLearningScheduler(np.array(wl['mat'], dtype=float), hyp)
	events = []
	rec = Recorder(inner, events)
	for k in wl['runs']:
		del events[:]
		if wl['as_set']:
			o = call(h.generateSet, 1, k, rec)
		else:
			o = call(h.run, k, rec)
		w.ops += 1
		if not o.ok:
			return [unexpected(o, 'run')]
		tr = o.value.sequences[0] if wl['as_set'] else o.value
		m = protocol(spec, tr, k, events, unique, avail, kind, len(acts))
		if m:
			return [Violation(m[0], m[1])]
		if any(e[0] == 'ask' for e in events) and sum(1 for e in events if e[0] == 'ask') > k:
			w.nontrivial = True
		if kind == 'finite' and len(set(inner.getSequenceStates(tr[0:-1:2]))) > 1:
			w.nontrivial = True
	d = ref.differ(before, ref.view(h), 0, 0)
	if d:
		return [Violation('model', d)]
	return []


def protocol(spec, tr, k, events, unique, avail, kind, nacts):
	if not isinstance(tr, list) or len(tr) != 2*k+1:
		return 'trace', '%r for %d steps' % (tr, k)
	if not ref.prob(spec, tr) > 0:
		return 'trace', 'impossible trace %r' % tr
	resets = [i for i, e in enumerate(events) if e[0] == 'reset']
	if not resets:
		return 'protocol', 'the scheduler was not reset'
	if any(e[0] == 'ask' or e[0] == 'obs' for e in events[:resets[-1]]):
		return 'protocol', 'the scheduler was reset in the middle of a trace: %r' % events[:20]
	ev = events[resets[-1]+1:]
	i = 0
	for step in range(k):
		asks = []
		while i < len(ev) and ev[i][0] == 'ask':
			asks.append(ev[i][1])
			i += 1
		if not asks:
			return 'protocol', 'step %d: no action was asked: %r' % (step, ev[:20])
		if i >= len(ev) or ev[i][0] != 'obs':
			return 'protocol', 'step %d: the scheduler was not told what happened: %r' % (step, ev[:20])
		if ev[i][1] != tr[2*step]:
			return 'protocol', 'step %d: the scheduler was told %r, the trace has %r' % (step, ev[i][1], tr[2*step])
		i += 1
		if asks[-1] != tr[2*step+1]:
			return 'protocol', 'step %d: the scheduler chose %r, the trace has %r' % (step, asks[-1], tr[2*step+1])
		if unique:
			s = spec['labels'].index(tr[2*step])
			if asks[-1] not in avail[s] or any(a in avail[s] for a in asks[:-1]):
				return 'protocol', 'step %d: available %r, proposed %r' % (step, avail[s], asks)
		if kind == 'active' and len(asks) > nacts:
			return 'refusals', 'step %d: %d proposals for %d actions: %r' % (step, len(asks), nacts, asks[:20])
	if i != len(ev):
		return 'protocol', 'after the last step: %r' % ev[i:i+10]
	return None


def memoryless(ja, wl, w, h, avail):
	spec = wl['spec']
	acts = [spec['actions'][c] for c in wl['choice']]
	sch = ja.MemorylessScheduler(list(acts))
	for k in wl['runs']:
		o = call(h.run, k, sch)
		w.ops += 1
		if o.ok:
			tr = o.value
			W, last = ref.steps(spec, tr, False)
			al = ref.pi(spec)
			for step, M in enumerate(W):
				ok = np.array([1.0 if acts[s] == tr[2*step+1] else 0.0 for s in range(len(acts))])
				al = (al*ok) @ M
			if len(tr) != 2*k+1 or not (al*last).sum() > 0:
				return [Violation('memoryless', 'the trace %r does not follow the scheduler %r' % (tr, acts))]
			w.nontrivial = True
		elif o.kind != 'ValueError' or all(acts[s] in avail[s] for s in range(len(acts))):
			return [unexpected(o, 'run')]
	return []


def dead(ja, wl, w):
	"""a state without any action: an error, not an endless loop"""
	import copy
	spec = copy.deepcopy(wl['spec'])
	n = len(spec['labels'])
	d = wl['script'][0] % n
	spec['A'][d] = [[0.0]*n for _ in spec['actions']]
	o = call(ref.build, ja, spec)
	if not o.ok:
		return []
	h = o.value
	for k in wl['runs']:
		o = call(h.run, k, ja.UniformScheduler(list(spec['actions'])))
		w.ops += 1
		if o.ok:
			if len(o.value) != 2*k+1 or not ref.prob(spec, o.value) > 0:
				return [Violation('trace', 'impossible trace %r' % o.value)]
		elif o.kind == 'hang':
			return [unexpected(o, 'run')]
		else:
			w.nontrivial = True
	return []


def asked(s, am, cur):
	"""what the scheduler says about its states"""
	for m in [None]+list(range(len(am))):
		c = cur if m is None else m
		o = call(s.getActions, m) if m is not None else call(s.getActions)
		if not o.ok:
			return [unexpected(o, 'getActions')]
		if [list(x) for x in o.value] != [list(am[c][0]), list(am[c][1])]:
			return [Violation('memory', 'getActions(%r) in state %d: %r instead of %r' % (m, cur, o.value, am[c]))]
		for a in list(am[c][1])+['no such action']:
			p = am[c][0][am[c][1].index(a)] if a in am[c][1] else 0
			o = call(s.getProbability, a, m) if m is not None else call(s.getProbability, a)
			if not o.ok or abs(o.value-p) > 1e-12:
				return [Violation('memory', 'probability of %r in %r while in state %d: %r instead of %r' % (a, m, cur, o.value, p))]
	return []


def finite(ja, wl, w):
	am, tm = wl['memory']
	s = ja.FiniteMemoryScheduler({i: [list(p), list(a)] for i, (p, a) in enumerate(am)}, {o: list(x) for o, x in tm.items()})
	want, cur = [0], 0
	for x in wl['obs']:
		cur = tm[x][cur] if x in tm else cur
		want.append(cur)
	o = call(s.getSequenceStates, list(wl['obs']))
	if not o.ok:
		return [unexpected(o, 'getSequenceStates')]
	if list(o.value) != want:
		return [Violation('memory', 'states %r instead of %r' % (o.value, want))]
	v = asked(s, am, want[-1])
	if v:
		return v
	s.reset()
	cur = 0
	for x in wl['obs']:
		o = call(s.getAction)
		if not o.ok:
			return [unexpected(o, 'getAction')]
		if not am[cur][0][am[cur][1].index(o.value)] > 0:
			return [Violation('memory', 'in memory state %d the action %r was chosen' % (cur, o.value))]
		s.addObservation(x)
		cur = tm[x][cur] if x in tm else cur
		v = asked(s, am, cur)
		if v:
			return v
	# the states of a sequence do not depend on what the scheduler saw before
	for m in {len(wl['obs'])-wl['script'][1] % 4, len(wl['obs'])}:
		o = call(s.getSequenceStates, wl['obs'][:m])
		if not o.ok:
			return [unexpected(o, 'getSequenceStates')]
		if list(o.value) != want[:m+1]:
			return [Violation('memory', 'states %r instead of %r, after other uses' % (o.value, want[:m+1]))]
	return []
