"""C02: every training sequence counts exactly as often as it occurs."""
import numpy as np

from sim import gen, ref
from sim.core import Violation
from sim.lib import unexpected
from . import common, fitlib

RUNS = {'quick': 2000, 'thorough': 50000}
LEVEL = 'exploration'
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = ['the reference Baum-Welch (sim/ref.py) is the specification of one learning round', 'relative tolerance 1e-6; numerically degenerate problems are not judged']
RULE = 'one multiset of traces given in several equivalent forms (list, array, set, set with an entry split in several, permuted, padded with impossible traces, without the common first label, multiplicities scaled) to learnings run on simulated machines whose tasks complete in random orders. Non-trivial: at least two forms and two traces were used.'


def generate(rng, i, tier):
	p = fitlib.gen_problem(rng, max_rounds=3, impossible=0.1)
	p['data'] = [[s, min(k, 12)] for s, k in p['data']]
	forms = rng.sample(['list', 'shuffled', 'split', 'permuted', 'scaled', 'impossible', 'array', 'headless'], 3)
	return {'env': gen.env(rng, gen.benign(rng), linux=0.9), 'p': p, 'forms': forms, 'factor': rng.choice([2, 3, 7, 1000]), 'order': rng.randrange(1 << 30),
			'processes': rng.choice(fitlib.PROCS)}


def _impossible(spec, rng, timed):
	t = spec['t']
	if t == 'MC':
		return ['init', 'init', 'init', 'init'] if not any(spec['A'][i][j] for i, a in enumerate(spec['labels']) for j, b in enumerate(spec['labels']) if a == b == 'init') else None
	if t in ('CTMC', 'PCTMC'):
		A = np.array(ref.matrix(spec), dtype=float)
		ii = [k for k, a in enumerate(spec['labels']) if a == 'init']
		if A[np.ix_(ii, ii)].any():
			return None
		return ['init', 0.5, 'init'] if timed else ['init', 'init']
	if t == 'MDP':
		ii = [k for k, a in enumerate(spec['labels']) if a == 'init']
		if np.array(spec['A'])[ii][:, :, ii].any():
			return None
		return ['init', spec['actions'][0], 'init']
	return None


def execute(ja, wl, w):
	from sim.core import _Random
	p = wl['p']
	rng = _Random(wl['order'])
	r = fitlib.reference(p)
	if r is None or r[3] < 1e-6:
		w.tags['degenerate'] = 1
		return []
	want, rounds, lls, margin = r
	t = p['spec']['t']
	o = fitlib.fit(ja, p, processes=wl['processes'])
	if not o.ok:
		return [unexpected(o, 'fit')]
	views = [('set', ref.view(o.value[0]), o.value[1], lls[-1], want)]
	for f in wl['forms']:
		form, data, q, lw, ww = 'set', p['data'], p, lls[-1], want
		if f in ('list', 'shuffled'):
			if t not in ('MC', 'HMM', 'GoHMM') and not (t in ('CTMC', 'PCTMC') and p['timed']):
				continue
			if f == 'list':
				form = 'list'
			else:
				form = [gen._copy(s) for s, n in data for _ in range(int(n))]
				rng.shuffle(form)
		elif f == 'array':
			flat = [gen._copy(s) for s, n in data for _ in range(int(n))]
			if t not in ('MC', 'HMM', 'GoHMM') or len(set(len(s) for s in flat)) != 1:
				continue
			form = 'array'
		elif f == 'split':
			data = []
			for s, k in p['data']:
				a = rng.randint(0, int(k))
				data += [[s, x] for x in (a, k-a) if x]
			rng.shuffle(data)
		elif f == 'permuted':
			data = list(data)
			rng.shuffle(data)
		elif f == 'scaled':
			c = wl['factor']
			data = [[s, k*c] for s, k in data]
			q = dict(p, epsilon=p['epsilon']*c)
			lw = lls[-1]*c
		elif f == 'headless':
			# the label every trace starts with may be left out
			if t not in ('MC', 'CTMC', 'PCTMC') or p['timed'] or any(s[0] != 'init' or 'init' in s[1:] or len(s) < 2 for s, _ in data):
				continue
			form = gen.to_set(ja, [[s[1:], n] for s, n in data], 0)
			if rng.random() < 0.5:
				form = [gen._copy(s[1:]) for s, n in data for _ in range(int(n))]
		elif f == 'impossible':
			s = _impossible(p['spec'], rng, p['timed'])
			if s is None:
				continue
			data = list(data)
			data.insert(rng.randint(0, len(data)), [s, rng.randint(1, 5)])
		o = fitlib.fit(ja, q, data=data, form=form, processes=wl['processes'])
		w.ops += 1
		if not o.ok:
			return [unexpected(o, 'fit:'+f)]
		views.append((f, ref.view(o.value[0]), o.value[1], lw, ww))
		w.tags['form '+f] = 1
	w.nontrivial = len(views) > 1 and len(p['data']) > 1
	w.tags[t+('-timed' if p['timed'] else '')] = 1
	for f, v, info, lw, ww in views:
		d = ref.differ(v, ref.spec_view(ww), 1e-6, 1e-9)
		if d:
			return [Violation('weight:'+f, d)]
		if not ref.close(float(info['training_set_loglikelihood']), lw, 1e-6, 1e-6):
			return [Violation('likelihood:'+f, '%.12g instead of %.12g' % (info['training_set_loglikelihood'], lw))]
	return []
