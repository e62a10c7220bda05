"""C15: a seed determines the random model it is given to, and nothing else."""
import random

import numpy as np

from sim import boot, gen, ref
from sim.core import Violation
from sim.lib import call, platform, unexpected
from . import common

RUNS = {'quick': 4000, 'thorough': 150000}
LEVEL = 'exploration'
REAL = common.REAL
STUB = ['operating-system entropy, platform name, CPU count, hash seed (one per shard and one for the twin process)']
TWIN = True
ASSUMPTIONS = ['nobody else draws from the generators while a model is created']
RULE = 'a history of seeded and unseeded creations, runs, learning steps, failing calls and foreign draws; every seeded creation is repeated at several places of the history, on other platforms and under another hash seed. Non-trivial: a seeded creation was repeated after the state of the generators changed.'

LAB = [list('abcdef'), ['ok', 'ko', 'wait'], ['x', 'x', 'y', 'x'], ['only'], ['a b', 'c,d', "e'f", 'é'], ['S%d' % i for i in range(12)]]
ACT = [['A', 'B'], ['go', 'stop', 'left'], ['only'], ['b', 'a', 'c']]


def spec(rng):
	t = rng.choice(['MC', 'MDP', 'MDP', 'HMM', 'GoHMM', 'CTMC', 'PCTMC'])
	n = rng.choice([1, 2, 3, 4, 5, 6, 9])
	s = {'t': t, 'n': n, 'seed': rng.choice([0, 1, 42, rng.randrange(1 << 31)]), 'ris': rng.random() < 0.5}
	lab = rng.choice(LAB)
	if t in ('MC', 'MDP', 'CTMC'):
		s['labels'] = lab[:rng.randint(1, len(lab))]
	if t == 'MDP':
		s['actions'] = rng.choice(ACT)
		s['det'] = rng.random() < 0.6
	if t == 'HMM':
		s['labels'] = lab = [x for x in dict.fromkeys(lab)][:rng.randint(1, len(lab))]
	if t == 'GoHMM':
		s['d'] = rng.randint(1, 3)
		if rng.random() < 0.5:
			mu = round(rng.uniform(-5, 5), 2)
			sg = round(rng.uniform(0.1, 3), 2)
			s['range'] = [mu, round(mu+rng.uniform(0, 4), 2), sg, round(sg+rng.uniform(0, 2), 2)]
	if t == 'CTMC':
		lo = rng.randint(1, 4)
		s['time'] = [lo, lo+rng.choice([0, 1, 3, 10])]
		if rng.random() < 0.25:      # as in the shipped example: 1.0, 5.0
			s['time'] = [lo-rng.choice([0.0, 0.5]), float(s['time'][1])]
		s['loop'] = n == 1 or rng.random() < 0.5
	if t == 'PCTMC':
		m = gen.model(rng, 'PCTMC', smax=3, plain=True)
		s['model'] = m
		s['given'] = rng.sample(m['params'], rng.randint(0, len(m['params'])))
		s['known'] = [p for p in m['params'] if p not in s['given'] and (rng.random() < 0.5 or s['given'])]
		lo = round(rng.uniform(0.01, 2), 3)
		s['bounds'] = [lo, round(lo+rng.uniform(0.1, 3), 3)] if rng.random() < 0.8 else None
	return s


def generate(rng, i, tier):
	specs = [spec(rng) for _ in range(rng.randint(1, 3))]
	ops = []
	for k in range(len(specs)):
		ops += [['make', k]]*rng.randint(2, 3)
	for _ in range(rng.randint(1, 6)):
		x = rng.random()
		if x < 0.3:
			ops.append(['draw', rng.randint(1, 5)])
		elif x < 0.5:
			ops.append(['unseeded', rng.randrange(len(specs))])
		elif x < 0.6:
			ops.append(['fail', rng.randrange(len(specs))])
		elif x < 0.75:
			ops.append(['run', rng.randrange(len(specs))])
		elif x < 0.85:
			ops.append(['reseed', rng.randrange(1000)])
		else:
			ops.append(['platform', rng.choice(['linux', 'darwin', 'win32']), rng.randint(1, 8)])
	rng.shuffle(ops)
	return {'env': dict(gen.env(rng), twin=rng.random() < 0.15), 'specs': specs, 'ops': ops}


def create(ja, s, seed, labels=None):
	t, n = s['t'], s['n']
	lab = list(labels or s.get('labels', []))
	if t == 'MC':
		return ja.MC_random(n, lab, random_initial_state=s['ris'], sseed=seed), lab
	if t == 'MDP':
		return ja.MDP_random(n, lab, list(s['actions']), random_initial_state=s['ris'], deterministic=s['det'], sseed=seed), lab
	if t == 'HMM':
		return ja.HMM_random(n, lab, random_initial_state=s['ris'], sseed=seed), lab
	if t == 'GoHMM':
		kw = dict(zip(['min_mu', 'max_mu', 'min_sigma', 'max_sigma'], s['range'])) if 'range' in s else {}
		return ja.GoHMM_random(n, s['d'], random_initial_state=s['ris'], sseed=seed, **kw), lab
	if t == 'CTMC':
		return ja.CTMC_random(n, lab, s['time'][0], s['time'][1], self_loop=s['loop'], random_initial_state=s['ris'], sseed=seed), lab
	m = ref.build(ja, dict(s['model'], values={p: s['model']['values'][p] for p in s['known']}))
	kw = {}
	if s['given']:
		kw['parameters'] = list(s['given'])
	if s['bounds']:
		kw['min_val'], kw['max_val'] = s['bounds']
	m.randomInstantiation(sseed=seed, **kw)
	return m, lab


def shape(s, h, lab):
	"""what the documentation says about the model"""
	t, n = s['t'], s['n']
	v = ref.view(h)
	if t == 'PCTMC':
		want = s['given'] or [p for p in s['model']['params'] if p not in s['known']]
		lo, hi = s['bounds'] or (None, None)
		for p in s['model']['params']:
			if p in want:
				if p not in v['values']:
					return 'the parameter %s is not instantiated' % p
				if lo is not None and not lo-1e-12 <= v['values'][p] <= hi+1e-12:
					return 'the value of %s is %r, outside of [%r,%r]' % (p, v['values'][p], lo, hi)
			elif p in s['known']:
				if v['values'].get(p) != s['model']['values'][p]:
					return 'the value of %s changed' % p
			elif p in v['values']:
				return 'the parameter %s was not to be instantiated' % p
		return None
	A = v['A']
	if lab != s.get('labels', []):
		return 'the caller\'s list of labels is altered'
	hidden = t in ('HMM', 'GoHMM')
	N = n if hidden else n+1
	want = (N, len(s['actions']), N) if t == 'MDP' else (N, N)
	if A.shape != want:
		return 'the matrix has shape %s' % (A.shape,)
	if (A < 0).any() or not np.isfinite(A).all():
		return 'negative or undefined entry'
	if t == 'CTMC':
		e = A.sum(axis=1)
		for i in range(n):
			w = 1/e[i]
			if not s['time'][0]-1e-9 <= w <= s['time'][1]+1e-9 or abs(w-round(w)) > 1e-9:
				return 'expected waiting time %r in state %d' % (w, i)
		if not s['loop'] and np.diag(A).any():
			return 'self loop'
	elif abs(A.sum(axis=-1)-1).max() > 1e-9:
		return 'a row does not sum to one'
	if hidden:
		p = v['pi']
		if abs(p.sum()-1) > 1e-9 or (p < 0).any() or (not s['ris'] and p[0] != 1.0):
			return 'initial distribution %s' % p
		if t == 'HMM':
			if v['alphabet'] != s['labels'] or v['O'].shape != (n, len(s['labels'])) or abs(v['O'].sum(axis=1)-1).max() > 1e-9 or (v['O'] < 0).any():
				return 'output matrix'
		else:
			lo, hi, a, b = s.get('range', [0.0, 2.0, 0.5, 2.0])
			O = v['O']
			if O.shape != (n, s['d'], 2):
				return 'output of shape %s' % (O.shape,)
			if (O[:, :, 0] < lo-6e-4).any() or (O[:, :, 0] > hi+6e-4).any():
				return 'mean outside of [%r,%r]' % (lo, hi)
			if (O[:, :, 1] < a-6e-4).any() or (O[:, :, 1] > b+6e-4).any():
				return 'deviation outside of [%r,%r]' % (a, b)
		return None
	L = v['labels']
	k = min(n, len(s['labels']))
	if len(L) != N or L[-1] != 'init' or L.count('init') != 1 or L[:k] != s['labels'][:k] or any(x not in s['labels'] for x in L[:-1]):
		return 'labels %s' % L
	if v['pi'][-1] != 1.0 or A[..., -1].any():
		return 'the initial state is entered again'
	if not s['ris'] and not (A[-1, ..., 0] == 1.0).all():
		return 'does not start in state 0'
	if t == 'MDP':
		if v['actions'] != s['actions']:
			return 'actions %s' % v['actions']
		if s['det']:
			for i in range(N):
				for a in range(len(s['actions'])):
					for o in set(L):
						if sum(1 for j in range(N) if A[i, a, j] > 0 and L[j] == o) > 1:
							return 'not deterministic in state %d' % i
	return None


def dump(h):
	v = ref.view(h)
	return {k: (x.tolist() if hasattr(x, 'tolist') else x) for k, x in v.items()}


def execute(ja, wl, w):
	made, after, free = {}, {}, {}
	dirty = False
	last = {}
	plat = None
	reseeds = 0
	obs = []
	for op in wl['ops']:
		if op[0] == 'draw':
			for _ in range(op[1]):
				random.random()
				np.random.rand()
			dirty = True
		elif op[0] == 'reseed':
			# never to the same state twice
			reseeds += 1
			boot._real['seed'](op[1]+1000*reseeds)
			boot._real['npseed'](op[1]+1000*reseeds)
			dirty = True
		elif op[0] == 'platform':
			plat = op[1:]
		elif op[0] == 'run':
			s, h = wl['specs'][op[1]], last.get(op[1])
			if h is None or (s['t'] == 'PCTMC' and not h.isInstantiated()):
				continue
			w.ops += 1
			o = call(h.run, 4, ja.UniformScheduler(list(s['actions']))) if s['t'] == 'MDP' else call(h.run, 4)
			if not o.ok:
				return [unexpected(o, 'run')]
			dirty = True
		elif op[0] == 'fail':
			s = wl['specs'][op[1]]
			if s['t'] in ('MC', 'CTMC'):
				call(create, ja, s, s['seed'], s['labels']+['init'])
				w.tags['failed creation'] = w.tags.get('failed creation', 0)+1
				x = random.random(), np.random.rand()
				if 'fail' in after and (x[0] in after['fail'][0] or x[1] in after['fail'][1]):
					return [Violation('leak', 'what is drawn after a refused creation of a %s is determined by its seed %d' % (s['t'], s['seed']))]
				after.setdefault('fail', [[], []])
				after['fail'][0].append(x[0])
				after['fail'][1].append(x[1])
		elif op[0] == 'unseeded':
			s = wl['specs'][op[1]]
			w.ops += 1
			o = call(create, ja, s, None)
			if not o.ok:
				return [unexpected(o, 'create')]
			h, lab = o.value
			m = shape(s, h, lab)
			if m:
				return [Violation('shape', '%s without seed: %s' % (s['t'], m))]
			d = dump(h)
			if s['n'] >= 5 and s['t'] != 'PCTMC' and not s.get('det'):
				if op[1] in free and free[op[1]] == d['A']:
					return [Violation('not-random', 'two random %s created without seed are equal' % s['t'])]
				if op[1] in made and made[op[1]]['A'] == d['A']:
					return [Violation('not-random', 'a random %s created without seed equals the one of seed %d' % (s['t'], s['seed']))]
				free[op[1]] = d['A']
			dirty = True
		else:
			s = wl['specs'][op[1]]
			w.ops += 1
			if plat:
				with platform(w, *plat):
					o = call(create, ja, s, s['seed'])
			else:
				o = call(create, ja, s, s['seed'])
			if not o.ok:
				return [unexpected(o, 'create')]
			h, lab = o.value
			last[op[1]] = h
			m = shape(s, h, lab)
			if m:
				return [Violation('shape', '%s with seed %d: %s' % (s['t'], s['seed'], m))]
			d = dump(h)
			if op[1] in made:
				w.nontrivial = w.nontrivial or dirty
				if made[op[1]] != d and repr(made[op[1]]) != repr(d):
					return [Violation('seed', '%s with seed %d: %s, created again: %s' % (s['t'], s['seed'], str(made[op[1]])[:500], str(d)[:500]))]
			made[op[1]] = d
			# the seed must not leak into what is drawn afterwards
			x = [[random.random() for _ in range(3)], np.random.random_sample(3).tolist()]
			for g, name in ((0, 'random'), (1, 'numpy.random')):
				if (op[1], g) in after and x[g] in after[op[1], g]:
					return [Violation('leak', 'what %s draws after the creation of a %s is determined by its seed %d' % (name, s['t'], s['seed']))]
				after.setdefault((op[1], g), []).append(x[g])
			obs.append(d)
	w.observe = obs
	return []
