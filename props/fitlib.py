"""Learning runs shared by several properties."""
import numpy as np

from sim import gen, ref
from sim.lib import call

PROCS = [None, None, 1, 2, 2, 3, 4, 7, 0, -3, 99, 2.0]


def gen_problem(rng, types=gen.ALL, max_rounds=4, impossible=0.15, nseq=None, maxlen=6, smax=5, constants=True):
	t = rng.choice(list(types))
	if t == 'PCTMC':
		smax = min(smax, 3)
	sul = gen.trainable(rng, t, smax=smax, absorbing=rng.random() < 0.15)
	hyp = gen.perturb(rng, sul) if rng.random() < 0.6 else sul
	while True:
		data, timed = gen.dataset(rng, sul, nseq or rng.choice([1, 2, 3, 4, 5, 7, 10]), maxlen, impossible=impossible)
		if any(float(ref.forward(hyp, s, ref.learn_full(hyp, s, ref.timed_data(data)))[3]) > 1e-60 for s, _ in data):
			break
	# sequences whose probability is in the underflow zone are not judged
	data = [d for d in data if not 0 < float(ref.forward(hyp, d[0], ref.learn_full(hyp, d[0], ref.timed_data(data)))[3]) < 1e-60]
	if t == 'GoHMM':
		# estimating a variance takes observations
		while sum(len(x) for x, _ in data) < 8*len(hyp['A']):
			data.append([ref.sample(sul, rng, rng.randint(3, 10)), 1])
	p = {'spec': hyp, 'data': data, 'timed': timed, 'epsilon': rng.choice([0.01, 0.01, 1e-4, 0.5, 0.0]), 'max_it': rng.randint(1, max_rounds if t != 'PCTMC' else 3)}
	if t == 'CTMC' and timed and rng.random() < 0.4:
		n = ref.nstates(hyp)
		p['fixed'] = [[rng.random() < 0.3 for _ in range(n)] for _ in range(n)]
	if t == 'PCTMC':
		p['update_constant'] = rng.random() < 0.6
		if rng.random() < 0.3 and len(hyp['params']) > 1:
			p['fixed_params'] = [rng.choice(hyp['params'])]
	# an argument that is not given has the documented value
	p['omit'] = [k for k in DEFAULTS if rng.random() < 0.3]
	return p


def ref_args(p):
	k = {}
	if 'fixed' in p:
		k['fixed'] = p['fixed']
	if 'update_constant' in p:
		k['update_constant'] = p['update_constant']
	if 'fixed_params' in p:
		k['fixed_params'] = p['fixed_params']
	return k


DEFAULTS = {'epsilon': 0.01, 'update_constant': True, 'verbose': 2, 'pp': '', 'max_it': float('inf')}


def omit(p, k):
	return {a: v for a, v in k.items() if not (a in p.get('omit', ()) and type(v) is type(DEFAULTS[a]) and v == DEFAULTS[a])}


def fit_kwargs(ja, p):
	k = dict(epsilon=p['epsilon'], max_it=p['max_it'], stormpy_output=False)
	if 'fixed' in p:
		k['fixed_parameters'] = np.array(p['fixed'])
	if 'update_constant' in p:
		k['update_constant'] = p['update_constant']
	if 'fixed_params' in p:
		k['fixed_parameters'] = list(p['fixed_params'])
	return k


def fit(ja, p, data=None, form='set', learner=None, model=None, **extra):
	"""runs one learning; Outcome.value = (model, info)"""
	data = p['data'] if data is None else data
	k = fit_kwargs(ja, p)
	k.setdefault('verbose', 0)
	k.update(extra)
	model = ref.build(ja, p['spec']) if model is None else model
	if form == 'set':
		ts = gen.to_set(ja, data, p['spec'])
	elif form == 'list':
		ts = [gen._copy(s) for s, n in data for _ in range(int(n))]
	elif form == 'array':
		ts = np.array([gen._copy(s) for s, n in data for _ in range(int(n))])
	else:
		ts = form
	b = learner if learner is not None else ja.BW()
	return call(b.fit, ts, initial_model=model, return_data=True, **omit(p, k))


def reference(p, data=None):
	"""(spec, rounds, loglikelihoods, margin) or None when the problem is
	numerically degenerate (a variance collapses, nothing can be explained): the
	properties say nothing about those."""
	try:
		r = ref.bw(p['spec'], p['data'] if data is None else data, p['epsilon'], p['max_it'], floor=1e-60, **ref_args(p))
	except (ZeroDivisionError, FloatingPointError, ValueError):
		return None
	if not all(np.isfinite(x) for x in r[2]):
		return None
	if r[0]['t'] == 'GoHMM' and not float(np.min(np.array(r[0]['O'], dtype=float)[:, :, 1])) > 0.05:
		return None
	A = np.array(ref.matrix(r[0]), dtype=float)
	if not np.all(np.isfinite(A)) or np.max(A) > 1e12:
		return None
	return r
