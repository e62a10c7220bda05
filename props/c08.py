"""C08: whatever the random stream, only possible traces are generated."""
import numpy as np

from sim import gen, ref
from sim.core import Violation
from sim.lib import call, unexpected
from . import common

RUNS = {'quick': 8000, 'thorough': 150000}
LEVEL = 'exploration'
REAL = common.REAL
STUB = ['the random stream (seeded, with extreme values injected)', 'clocks']
ASSUMPTIONS = ['a trace is possible if its probability (density) computed by the reference forward algorithm is positive']
RULE = 'runs and sets generated by random models of the 6 types under random streams with injected extreme draws (0, the largest float below 1, very small and very large delays, 8-sigma values). Non-trivial: at least two different traces were generated.'


def generate(rng, i, tier):
	spec = gen.rare(rng, gen.model(rng))
	t = spec['t']
	timed = t in ('CTMC', 'PCTMC') and rng.random() < 0.6
	f = {}
	if rng.random() < 0.7:
		f['extreme_draw'] = rng.choice([0.01, 0.1, 0.5, 1.0])
	e = gen.env(rng, f)
	e['draw_limit'] = 300000
	size = rng.choice([1, 2, 5, 12])
	k = rng.random()
	if k < 0.4:
		param = rng.randint(1, 6)
	elif k < 0.7:
		param = [rng.randint(1, 6) for _ in range(size)]
	else:
		param = rng.choice([1.0, 0.5, 0.25])
	wl = {'env': e, 'spec': spec, 'timed': timed, 'size': size, 'param': param, 'min_size': rng.randint(0, 4), 'runs': [rng.randint(1, 7) for _ in range(rng.randint(0, 3))],
		  'nexts': [rng.randrange(10**6) for _ in range(rng.choice([0, 0, 2, 5]))]}
	if t == 'MDP':
		wl['sched'] = rng.choice(['uniform', 'memoryless', 'finite'])
		ok = [[a for a, r in zip(spec['actions'], s) if sum(r) > 0] for s in spec['A']]
		wl['memoryless'] = [rng.choice(a) for a in ok]
		nm = rng.randint(1, 3)
		labs = sorted(set(spec['labels']))
		wl['finite'] = [[[gen.dist(rng, len(spec['actions']), 0.0), spec['actions']] for _ in range(nm)], {l: [rng.randrange(nm) for _ in range(nm)] for l in labs if rng.random() < 0.8}]
		for p, _ in wl['finite'][0]:
			for j in range(len(p)):
				p[j] = max(p[j], 0.1)
			tot = sum(p)
			for j in range(len(p)):
				p[j] /= tot
	return wl


def scheduler(ja, wl):
	k = wl['sched']
	if k == 'uniform':
		return ja.UniformScheduler(list(wl['spec']['actions']))
	if k == 'memoryless':
		return ja.MemorylessScheduler(list(wl['memoryless']))
	am, tm = wl['finite']
	return ja.FiniteMemoryScheduler({i: [list(p), list(a)] for i, (p, a) in enumerate(am)}, {o: list(x) for o, x in tm.items()})


def check_trace(spec, tr, length, timed, start=None):
	t = spec['t']
	if not isinstance(tr, list):
		return 'a trace is a %s' % type(tr).__name__
	n = {'MC': length+1, 'HMM': length, 'GoHMM': length, 'MDP': 2*length+1}.get(t, 2*length+1 if timed else length+1)
	if len(tr) != n:
		return 'length %d instead of %d' % (len(tr), n)
	if t == 'MC' or t == 'HMM' or (t in ('CTMC', 'PCTMC') and not timed):
		if not all(isinstance(x, str) for x in tr):
			return 'not a list of labels: %r' % tr
	if t == 'MDP' and not all(isinstance(x, str) for x in tr):
		return 'not labels and actions: %r' % tr
	if t in ('CTMC', 'PCTMC') and timed:
		for i, x in enumerate(tr):
			if i % 2 == 0 and not isinstance(x, str) or i % 2 == 1 and not (isinstance(x, float) and 0 <= x < np.inf):
				return 'not labels and dwell times: %r' % tr
	if t == 'GoHMM':
		d = len(spec['O'][0])
		for x in tr:
			if len(x) != d or not all(np.isfinite(float(v)) for v in x):
				return 'not vectors of %d numbers: %r' % (d, tr)
	s = spec
	if start is not None:
		s = dict(spec)
		s['init'] = [1.0 if i == start else 0.0 for i in range(ref.nstates(spec))]
	p = prob_from(s, tr, start)
	if not p > 0:
		return 'the trace %r has probability 0' % tr
	return None


def prob_from(spec, tr, start):
	W, last = ref.steps(spec, tr, False)
	a = ref.pi(spec)
	if start is not None:
		a = np.zeros(len(a), dtype=ref.F)
		a[start] = 1
	for M in W:
		a = a @ M
	return (a*last).sum()


def step(w, h, spec, k):
	"""one step from a state: `next` answers with a successor, the label or an observation of the state"""
	t = spec['t']
	s = k % ref.nstates(spec)
	if t in ('CTMC', 'PCTMC'):
		A = ref.matrix(spec)
		if not A[s].sum() > 0:
			return None
		o = call(h.next, s)
		if not o.ok:
			return unexpected(o, 'next')
		lab, c, d = o.value
		if lab != spec['labels'][s] or not A[s, c] > 0 or not 0 <= float(d) < np.inf:
			return Violation('next', 'from state %d (rates %s): %r' % (s, A[s].tolist(), o.value))
		return None
	if t == 'MDP':
		ok = [i for i, r in enumerate(spec['A'][s]) if sum(r) > 0]
		if not ok:
			return None
		a = ok[k//97 % len(ok)]
		row, o = spec['A'][s][a], call(h.next, s, spec['actions'][a])
	else:
		row = spec['A'][s]
		if not sum(row) > 0:
			return None
		o = call(h.next, s)
	if not o.ok:
		return unexpected(o, 'next')
	c, ob = o.value
	good = row[c] > 0
	if t == 'HMM':
		good = good and ob in spec['alphabet'] and spec['O'][s][spec['alphabet'].index(ob)] > 0
	elif t == 'GoHMM':
		good = good and len(ob) == len(spec['O'][s]) and all(np.isfinite(float(x)) for x in ob)
	else:
		good = good and ob == spec['labels'][s]
	w.tags['next'] = 1
	if not good:
		return Violation('next', 'from state %d: %r' % (s, o.value))
	return None


def execute(ja, wl, w):
	spec, timed, t = wl['spec'], wl['timed'], wl['spec']['t']
	h = ref.build(ja, spec)
	before = ref.view(h)
	w.tags[t+('-timed' if timed else '')] = 1
	sch = scheduler(ja, wl) if t == 'MDP' else None
	seen = set()
	n = ref.nstates(spec)
	for j, k in enumerate(wl['runs']):
		start = None
		if t in ('CTMC', 'PCTMC'):
			o = call(h.run, k, timed)
		elif t == 'MDP':
			if j % 2:
				start = (k*7+j) % n
			o = call(h.run, k, sch) if start is None else call(h.run, k, sch, start)
		elif j % 2:
			start = (k*7+j) % n
			o = call(h.run, k, start)
		else:
			o = call(h.run, k)
		w.ops += 1
		if not o.ok:
			return [unexpected(o, 'run')]
		m = check_trace(spec, o.value, k, timed, start)
		if m:
			return [Violation('run', m)]
		seen.add(repr(o.value))
	for k in wl['nexts']:
		m = step(w, h, spec, k)
		if m:
			return [m]
	kw = {}
	if isinstance(wl['param'], float):
		kw = dict(distribution='geo', min_size=wl['min_size'])
	args = (wl['size'], wl['param']) if t != 'MDP' else (wl['size'], wl['param'], sch)
	if timed:
		kw['timed'] = True
	o = call(h.generateSet, *args, **kw)
	w.ops += 1
	if not o.ok:
		return [unexpected(o, 'generateSet')]
	s = o.value
	times = [int(x) for x in s.times]
	if len(times) != len(s.sequences) or any(x < 1 for x in times):
		return [Violation('set', 'multiplicities %r of %d traces' % (times, len(s.sequences)))]
	if sum(times) != wl['size']:
		return [Violation('set', '%d traces asked, %d generated' % (wl['size'], sum(times)))]
	want = {'MC': 0, 'HMM': 0, 'MDP': 1, 'GoHMM': 3}.get(t, 4 if timed else 0)
	if s.type != want:
		return [Violation('set', 'a set of type %r' % s.type)]
	if len(set(repr(x) for x in s.sequences)) != len(s.sequences):
		return [Violation('set', 'the same trace is there twice')]
	lens = []
	for x, k in zip(s.sequences, times):
		L = len(x)
		L = {'MC': L-1, 'HMM': L, 'GoHMM': L, 'MDP': (L-1)//2}.get(t, (L-1)//2 if timed else L-1)
		m = check_trace(spec, x, L, timed)
		if m:
			return [Violation('set', m)]
		lens += [L]*k
		seen.add(repr(x))
	if isinstance(wl['param'], int) and any(L != wl['param'] for L in lens):
		return [Violation('length', 'lengths %r, %r asked' % (lens, wl['param']))]
	if isinstance(wl['param'], list) and sorted(lens) != sorted(wl['param']):
		return [Violation('length', 'lengths %r, %r asked' % (sorted(lens), sorted(wl['param'])))]
	if isinstance(wl['param'], float) and any(L < wl['min_size']+1 for L in lens):
		return [Violation('length', 'lengths %r, at least %d asked' % (lens, wl['min_size']+1))]
	d = ref.differ(before, ref.view(h), 0, 0)
	if d:
		return [Violation('model', 'generating changed the model: '+d)]
	w.nontrivial = len(seen) > 1
	return []
