"""C09: generated traces follow the distribution of the model."""
import itertools
import math

import numpy as np
from scipy import stats

from sim import gen, ref
from sim.core import Violation
from sim.lib import call, unexpected
from . import common
from .c08 import scheduler

RUNS = {'quick': 1600, 'thorough': 40000}
LEVEL = 'exploration'
REAL = common.REAL
STUB = ['the random stream (the real generators, seeded by the simulator)', 'clocks']
ALPHA = 1e-11
ASSUMPTIONS = ['statistical: a frequency is a violation when its exact two-sided binomial probability is below 1e-11, a cumulative distribution when it is outside the Dvoretzky-Kiefer-Wolfowitz band of the same level', 'a bias smaller than about 7 standard deviations of some thousands of samples goes unnoticed']
RULE = 'thousands of traces of one random model under one seeded random stream: the frequency of every possible short trace (every label or label/action sequence is enumerated) and the empirical distributions of dwell times, continuous observations and lengths are compared with the exact ones. Non-trivial: at least 3 different outcomes were counted.'


def generate(rng, i, tier):
	from .c08 import generate as g
	kind = rng.choice(['trace', 'trace', 'trace', 'trace', 'dwell', 'dwell', 'gauss', 'length', 'resolve', 'uniform', 'pairs'])
	types = {'trace': ['MC', 'HMM', 'MDP', 'MDP', 'CTMC', 'PCTMC'], 'pairs': ['MC', 'HMM', 'MDP', 'CTMC'], 'dwell': ['CTMC', 'CTMC', 'CTMC', 'PCTMC'], 'gauss': ['GoHMM'], 'length': ['MC', 'HMM', 'CTMC', 'MDP', 'GoHMM', 'PCTMC', 'PCTMC']}.get(kind, ['MC'])
	t = rng.choice(types)
	while True:
		wl = g(rng, i, tier)
		if wl['spec']['t'] == t and ref.nstates(wl['spec']) <= 5:
			break
	wl['env']['faults'] = {}
	wl['env']['draw_limit'] = 3_000_000
	wl['kind'] = kind
	if t == 'CTMC' and rng.random() < 0.4:
		# very slow and very fast states
		same = 10.0**rng.uniform(-9, 9)
		fs = [same if rng.random() < 0.7 else 10.0**rng.uniform(-6, 6) for _ in wl['spec']['A']]
		wl['spec']['A'] = [[x*f for x in r] for r, f in zip(wl['spec']['A'], fs)]
	n = 2500 if tier == 'quick' else 6000
	wl['n'] = n if t != 'PCTMC' else 250 if kind != 'dwell' else 500
	wl['len'] = 2 if t == 'MDP' else rng.choice([2, 3])
	wl['geo'] = rng.choice([0.3, 0.5, 0.8])
	wl['weights'] = [rng.choice([0.0, rng.random(), rng.random(), 1e-3]) for _ in range(rng.randint(1, 8))]
	if sum(wl['weights']) == 0:
		wl['weights'][-1] = 0.5
	return wl


def binom(k, n, p, what):
	p = min(max(p, 0.0), 1.0)
	lo, hi = stats.binom.cdf(k, n, p), stats.binom.sf(k-1, n, p)
	if 2*min(lo, hi) < ALPHA and abs(k-n*p) > 1e-9:
		return Violation('frequency', '%s: %d of %d, its probability is %.6g' % (what, k, n, p))


def dkw(xs, cdf, what):
	xs = np.sort(np.array(xs, dtype=float))
	n = len(xs)
	F = cdf(xs)
	d = max(np.max(np.arange(1, n+1)/n-F), np.max(F-np.arange(0, n)/n))
	if d > math.sqrt(math.log(2/ALPHA)/(2*n)):
		return Violation('distribution', '%s: distance %.4f of the cumulative distribution of %d samples' % (what, d, n))


def trace_probs(spec, wl, L):
	"""the probability of every possible trace"""
	t = spec['t']
	if t == 'MDP':
		labs = sorted(set(spec['labels']))
		A = np.array(spec['A'], dtype=float)
		avail = A.sum(axis=2) > 0
		n = len(labs)
		out = {}
		acts = spec['actions']
		lab = np.array(spec['labels'])

		def rec(prefix, al, mem, left):
			if left == 0:
				for l in labs:
					p = al[lab == l].sum()
					if p > 0:
						out[tuple(prefix+[l])] = p
				return
			for l in labs:
				m = al*(lab == l)
				if m.sum() <= 0:
					continue
				for ia, a in enumerate(acts):
					if wl['sched'] == 'uniform':
						q = avail[:, ia]/avail.sum(axis=1)
					elif wl['sched'] == 'memoryless':
						q = np.array([1.0 if x == a else 0.0 for x in wl['memoryless']])
					else:
						pr = np.array([wl['finite'][0][mem][0][wl['finite'][0][mem][1].index(x)] for x in acts])
						den = (avail*pr[None, :]).sum(axis=1)
						q = avail[:, ia]*pr[ia]/np.where(den > 0, den, 1)
					nxt = (m*q) @ A[:, ia, :]
					if nxt.sum() > 0:
						mm = mem
						if wl['sched'] == 'finite' and l in wl['finite'][1]:
							mm = wl['finite'][1][l][mem]
						rec(prefix+[l, a], nxt, mm, left-1)
		rec([], np.array(ref.pi(spec), dtype=float), 0, L)
		return out
	labs = sorted(set(spec['labels'] if t != 'HMM' else spec['alphabet']))
	k = L if t == 'HMM' else L+1
	out = {}
	s2 = spec
	# prefixes are pruned
	front = [()]
	for d in range(1, k+1):
		nxt = []
		for f in front:
			for l in labs:
				p = float(ref.prob(s2, list(f)+[l]))
				if p > 0:
					nxt.append(f+(l,))
					if d == k:
						out[f+(l,)] = p
		front = nxt
	return out


def execute(ja, wl, w):
	spec, t, n, L = wl['spec'], wl['spec']['t'], wl['n'], wl['len']
	h = ref.build(ja, spec)
	sch = scheduler(ja, wl) if t == 'MDP' else None
	kind = wl['kind']
	w.tags[kind+' '+(t if kind in ('trace', 'length') else '')] = 1
	w.ops += 1
	bad = []
	if kind == 'resolve':
		p = wl['weights']
		c = [0]*len(p)
		for _ in range(n):
			o = call(ja.resolveRandom, list(p))
			if not o.ok:
				return [unexpected(o, 'resolveRandom')]
			c[int(o.value)] += 1
		for i in range(len(p)):
			bad.append(binom(c[i], n, p[i]/sum(p), 'index %d of %r' % (i, p)))
		w.nontrivial = sum(1 for x in c if x) > 2
		return [b for b in bad if b][:1]
	if kind == 'uniform':
		acts = ['a%d' % i for i in range(1, len(wl['weights'])+1)]
		s = ja.UniformScheduler(list(acts))
		c = {}
		for _ in range(n):
			o = call(s.getAction)
			if not o.ok:
				return [unexpected(o, 'getAction')]
			c[o.value] = c.get(o.value, 0)+1
		for a in acts:
			bad.append(binom(c.get(a, 0), n, 1/len(acts), 'action '+a))
		w.nontrivial = len(c) > 2
		return [b for b in bad if b][:1]
	if kind == 'length':
		p = wl['geo']
		m = 150 if t == 'PCTMC' else 400
		args = (m, p) if t != 'MDP' else (m, p, sch)
		o = call(h.generateSet, *args, distribution='geo', min_size=wl['min_size'])
		if not o.ok:
			return [unexpected(o, 'generateSet')]
		c = {}
		for x, k in zip(o.value.sequences, o.value.times):
			l = {'MC': len(x)-1, 'HMM': len(x), 'GoHMM': len(x), 'MDP': (len(x)-1)//2}.get(t, len(x)-1)-wl['min_size']
			c[l] = c.get(l, 0)+int(k)
		for l in range(0, max(list(c)+[1])+2):
			bad.append(binom(c.get(l, 0), m, p*(1-p)**(l-1) if l >= 1 else 0.0, 'length min_size+%d' % l))
		w.nontrivial = len(c) > 2
		return [b for b in bad if b][:1]
	if kind == 'pairs':
		# consecutive runs are independent
		probs = trace_probs(spec, wl, L)
		runs = []
		for _ in range(n):
			o = call(h.run, L, sch) if t == 'MDP' else call(h.run, L)
			if not o.ok:
				return [unexpected(o, 'run')]
			runs.append(tuple(o.value))
		best = sorted(probs, key=lambda x: -probs[x])[:12]
		for x in set(runs):
			if x not in probs:
				return [Violation('frequency', 'impossible trace %r' % (x,))]
		for x in best:
			bad.append(binom(runs.count(x), n, probs[x], 'trace %r' % (x,)))
			for y in best:
				c = sum(1 for k in range(0, n-1, 2) if runs[k] == x and runs[k+1] == y)
				bad.append(binom(c, n//2, probs[x]*probs[y], 'trace %r followed by %r' % (x, y)))
		w.nontrivial = len(set(runs)) > 2
		return [b for b in bad if b][:1]
	timed = kind == 'dwell'
	if t == 'MDP':
		o = call(h.generateSet, n, L, sch)
	elif timed:
		o = call(h.generateSet, n, L, timed=True)
	else:
		o = call(h.generateSet, n, L)
	if not o.ok:
		return [unexpected(o, 'generateSet')]
	got = list(zip(o.value.sequences, [int(x) for x in o.value.times]))
	if kind == 'gauss':
		A = np.array(spec['A'], dtype=float)
		O = np.array(spec['O'], dtype=float)
		pi = np.array(spec['init'], dtype=float)
		pi = pi/pi.sum()
		for k in range(L):
			for d in range(O.shape[1]):
				xs = [x[k][d] for x, m in got for _ in range(m)]
				bad.append(dkw(xs, lambda v: sum(pi[s]*stats.norm.cdf(v, O[s, d, 0], O[s, d, 1]) for s in range(len(pi))), 'observation %d, dimension %d' % (k, d)))
			if O.shape[1] > 1:
				# the dimensions are independent given the state
				xs = [x[k][0]+x[k][1] for x, m in got for _ in range(m)]
				bad.append(dkw(xs, lambda v: sum(pi[s]*stats.norm.cdf(v, O[s, 0, 0]+O[s, 1, 0], math.hypot(O[s, 0, 1], O[s, 1, 1])) for s in range(len(pi))), 'observation %d, sum' % k))
			if k+1 < L:
				nx = [x[k+1][0]+x[k][0] for x, m in got for _ in range(m)]
				J = pi[:, None]*A

				def cdf(v, J=J):
					return sum(J[a, b]*stats.norm.cdf(v, O[a, 0, 0]+O[b, 0, 0], math.hypot(O[a, 0, 1], O[b, 0, 1])) for a in range(len(pi)) for b in range(len(pi)) if J[a, b] > 0)
				bad.append(dkw(nx, cdf, 'consecutive observations %d' % k))
			pi = pi @ A
			pi = pi/pi.sum()
		w.nontrivial = True
		return [b for b in bad if b][:1]
	if timed:
		e = np.array(ref.rates(spec) if t == 'PCTMC' else spec['A'], dtype=float).sum(axis=1)
		by = {}
		for x, m in got:
			by.setdefault(tuple(x[0::2]), []).extend([x[1::2]]*m)
		probs = trace_probs(spec, wl, L)
		for labs, p in probs.items():
			bad.append(binom(len(by.get(labs, [])), n, p, 'labels %r' % (labs,)))
		for labs, ts in by.items():
			if labs not in probs:
				return [Violation('frequency', 'impossible labels %r' % (labs,))]
			if len(ts) < 100:
				continue
			W, al, be, pr = ref.forward(spec, list(labs), False)
			for k in range(L):
				g = np.array(al[k]*be[k]/pr, dtype=float)
				bad.append(dkw([x[k] for x in ts], lambda v: sum(g[s]*(1-np.exp(-e[s]*v)) for s in range(len(g)) if g[s] > 0), 'dwell time %d of %r' % (k, labs)))
		w.nontrivial = True
		return [b for b in bad if b][:1]
	probs = trace_probs(spec, wl, L)
	tot = sum(probs.values())
	if abs(tot-1) > 1e-6:
		raise RuntimeError('the reference probabilities sum to %r' % tot)
	cnt = {}
	for x, m in got:
		cnt[tuple(x)] = cnt.get(tuple(x), 0)+m
	for x, m in cnt.items():
		if x not in probs:
			return [Violation('frequency', 'impossible trace %r' % (x,))]
	for x, p in probs.items():
		bad.append(binom(cnt.get(x, 0), n, p, 'trace %r' % (x,)))
	w.nontrivial = len(cnt) > 2
	return [b for b in bad if b][:1]
