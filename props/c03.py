"""C03: learning never makes the hypothesis worse and stops when it says."""
import re

import numpy as np

from sim import gen, ref
from sim.core import Violation
from sim.lib import unexpected
from . import common, fitlib

RUNS = {'quick': 1600, 'thorough': 40000}
LEVEL = 'exploration'
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = ['likelihoods are recomputed by the reference forward algorithm (sim/ref.py) in extended precision', 'tolerance 1e-7 of the likelihood; numerically degenerate problems are not judged',
			   'not judged: fixed rates with untimed traces']
RULE = 'learning is run with 1, 2, ... k rounds on simulated machines with clock jumps; the likelihood of the training set under every intermediate hypothesis is recomputed. Non-trivial: at least two rounds were run.'


def generate(rng, i, tier):
	while True:
		p = fitlib.gen_problem(rng, max_rounds=5 if tier == 'quick' else 15)
		s = p['spec']
		break
	p['max_it'] = max(p['max_it'], 2)
	e = gen.env(rng, gen.benign(rng), linux=0.9)
	return {'env': e, 'p': p, 'processes': rng.choice(fitlib.PROCS), 'verbose': rng.choice([0, 1, 2, 3, 3]), 'pp': rng.choice(['', 'learning', 'step 1/2'])}


def as_spec(spec, h):
	"""the spec of a learned model"""
	v = ref.view(h)
	s = dict(spec)
	if s['t'] == 'PCTMC':
		s['values'] = dict(v['values'])
		s['trans'] = [[a, b, float(v['A'][a, b]), {}] for a in range(len(s['labels'])) for b in range(len(s['labels'])) if v['A'][a, b] != 0]
		return s
	s['A'] = v['A']
	if 'O' in v:
		s['O'] = v['O']
		s['init'] = v['pi']
		if 'alphabet' in v:
			s['alphabet'] = v['alphabet']
	return s


def progress(w, wl, limit, info, said):
	"""what a user is told while and after the learning"""
	v, n = wl['verbose'], info['learning_rounds']
	if v == 0 and [l for l in said.splitlines() if l.strip() and 'WARNING' not in l]:
		return 'verbosity 0 prints %r' % said[:200]
	shown = [(b, total, k) for b, total, k in w.bars if not k.get('disable')]
	if len(shown) != (1 if v > 1 else 0):
		return '%d progress bars with verbosity %d' % (len(shown), v)
	for b, total, k in shown:
		if b.n != n or total != limit:
			return 'the progress bar says %r of %r rounds: %d rounds of at most %d' % (b.n, total, n, limit)
		if wl['pp'] not in str(k.get('title', '')):
			return 'the progress bar is titled %r instead of %r' % (k.get('title'), wl['pp'])
	m = re.findall(r'Iterations:\s*(\d+)', said)
	if m != ([str(n)] if v == 3 else []):
		return 'the recap says %r rounds after %d rounds with verbosity %d' % (m, n, v)
	return None


def execute(ja, wl, w):
	p = wl['p']
	r = fitlib.reference(p)
	if r is None:
		w.tags['degenerate'] = 1
		return []
	t = p['spec']['t']
	w.tags[t+('-timed' if p['timed'] else '')] = 1
	ll0 = float(ref.total_loglik(p['spec'], p['data'])[0])
	trace, infos = [ll0], []
	for k in range(1, p['max_it']+1):
		w.bars.clear()
		w.stdout_keep = []
		o = fitlib.fit(ja, dict(p, max_it=k), processes=wl['processes'], verbose=wl['verbose'], pp=wl['pp'])
		said, w.stdout_keep = ''.join(w.stdout_keep), None
		w.ops += 1
		if not o.ok:
			return [unexpected(o, 'fit')]
		h, info = o.value
		m = progress(w, wl, k, info, said)
		if m:
			return [Violation('progress', m)]
		if info['learning_rounds'] > k:
			return [Violation('too-many-rounds', '%d rounds, max_it=%d' % (info['learning_rounds'], k))]
		ll = float(ref.total_loglik(as_spec(p['spec'], h), p['data'])[0])
		infos.append(info)
		if info['learning_rounds'] < k:
			# it stopped by itself at the previous round: same thing again
			if infos[-2]['learning_rounds'] != info['learning_rounds'] or not ref.close(ll, trace[-1], 1e-9, 1e-9):
				return [Violation('stop', 'max_it=%d: %d rounds, max_it=%d: %d rounds' % (k-1, infos[-2]['learning_rounds'], k, info['learning_rounds']))]
			break
		trace.append(ll)
	rounds = infos[-1]['learning_rounds']
	w.nontrivial = rounds > 1
	if rounds < p['max_it']:
		# it stops by itself: no limit is needed
		o = fitlib.fit(ja, dict(p, max_it=float('inf')), processes=wl['processes'])
		w.ops += 1
		if not o.ok:
			return [unexpected(o, 'fit')]
		if o.value[1]['learning_rounds'] != rounds:
			return [Violation('stop', '%d rounds with no limit, %d with a limit of %d' % (o.value[1]['learning_rounds'], rounds, p['max_it']))]
	tol = lambda a: 1e-7*max(1.0, abs(a))
	for k in range(1, len(trace)):
		if trace[k] < trace[k-1]-tol(trace[k-1]):
			return [Violation('worse', 'after round %d the loglikelihood went from %.12g to %.12g' % (k, trace[k-1], trace[k]))]
	for k, info in enumerate(infos[:rounds]):
		# the likelihood reported after round k+1 is the one of the hypothesis it started from
		got = float(info['training_set_loglikelihood'])
		if not ref.close(got, trace[k], 1e-7, 1e-7):
			return [Violation('reported', 'round %d reports %.12g, the set has %.12g' % (k+1, got, trace[k]))]
	rep = [float(x['training_set_loglikelihood']) for x in infos[:rounds]]
	prev = -np.inf
	for k, x in enumerate(rep):
		last = k == len(rep)-1
		d = x-prev
		if abs(d-p['epsilon']) > 1e-7*max(1.0, abs(x)):
			if d < p['epsilon'] and not last:
				return [Violation('stop', 'did not stop at round %d: progress %.3g < %g' % (k+1, d, p['epsilon']))]
			if d >= p['epsilon'] and last and rounds < p['max_it']:
				return [Violation('stop', 'stopped at round %d: progress %.3g >= %g' % (k+1, d, p['epsilon']))]
		prev = x
	for k in ('learning_rounds', 'learning_time', 'training_set_loglikelihood'):
		if k not in infos[-1]:
			return [Violation('reported', k+' missing')]
	return []
