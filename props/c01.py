"""C01: what learning returns does not depend on the machine, the schedule or
what the learner did before."""
from sim import gen, ref
from sim.core import Violation
from sim.lib import platform, unexpected
from . import common, fitlib

RUNS = {'quick': 2400, 'thorough': 60000}
LEVEL = 'exploration'
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = ['the reference Baum-Welch (sim/ref.py) is the specification of one learning round', 'results are compared with relative tolerance 1e-6',
			   'a run whose stop decision is within 1e-6 of epsilon is compared only on its model when the numbers of rounds agree', 'numerically degenerate problems (likelihoods below 1e-60, variances below 0.05) are not judged']
RULE = 'a random starting model of each of the 6 model types, a random training set and options; learned under 2-3 different simulated machines (worker count, CPU count, platform, task pickling/start/completion order, stalls, clock jumps), with a fresh or an already used learner, and compared with each other and with the reference. Non-trivial: at least one learning used a pool of 2+ workers on 2+ tasks.'


def generate(rng, i, tier):
	p = fitlib.gen_problem(rng, max_rounds=4 if tier == 'quick' else 8)
	e = gen.env(rng, gen.benign(rng), linux=0.85)
	machines = []
	for _ in range(rng.choice([1, 2])):
		machines.append({'cpus': rng.choice([1, 2, 3, 5, 8, 32]), 'platform': rng.choice(['linux', 'linux', 'linux', 'darwin', 'win32']), 'processes': rng.choice(fitlib.PROCS), 'verbose': rng.randint(0, 3)})
	wl = {'env': e, 'p': p, 'processes': rng.choice(fitlib.PROCS), 'machines': machines, 'reuse': rng.random() < 0.5}
	if rng.random() < 0.3:
		# the learner has been used for another problem before
		wl['before'] = similar(rng, p) if rng.random() < 0.4 else fitlib.gen_problem(rng, max_rounds=1, nseq=2, maxlen=4, smax=3)
	return wl


def similar(rng, p):
	"""a problem of the same size whose symbols, actions and parameters are
	listed in another order"""
	s = dict(p['spec'])
	if s['t'] == 'HMM':
		k = list(range(len(s['alphabet'])))
		rng.shuffle(k)
		s['alphabet'] = [s['alphabet'][i] for i in k]
		if rng.random() < 0.5:
			s['O'] = [[r[i] for i in k] for r in s['O']]
	elif s['t'] == 'MDP':
		k = list(range(len(s['actions'])))
		rng.shuffle(k)
		s['actions'] = [s['actions'][i] for i in k]
		s['A'] = [[r[i] for i in k] for r in s['A']]
	elif s['t'] == 'PCTMC':
		s['params'] = rng.sample(s['params'], len(s['params']))
	q = dict(p, spec=gen.perturb(rng, s), max_it=1, data=p['data'][:3])
	if 'fixed' in p or (s['t'] == 'CTMC' and p['timed'] and rng.random() < 0.6):
		n = ref.nstates(s)
		q['fixed'] = [[rng.random() < 0.4 for _ in range(n)] for _ in range(n)]
	if s['t'] == 'PCTMC':
		q['update_constant'] = rng.random() < 0.5
		q.pop('fixed_params', None)
	return q


def execute(ja, wl, w):
	p = wl['p']
	outs = []
	r = fitlib.reference(p)
	if r is None or ('before' in wl and fitlib.reference(wl['before']) is None):
		w.tags['degenerate'] = 1
		return []
	want, rounds, lls, margin = r
	learner = ja.BW() if wl.get('reuse') or 'before' in wl else None
	if 'before' in wl:
		o = fitlib.fit(ja, wl['before'], learner=learner, processes=wl['processes'])
		if not o.ok:
			return [unexpected(o, 'fit')]
		w.tags['used learner'] = 1
	o = fitlib.fit(ja, p, processes=wl['processes'], learner=learner)
	w.ops += 1
	if not o.ok:
		return [unexpected(o, 'fit')]
	outs.append((ref.view(o.value[0]), o.value[1]))
	for m in wl['machines']:
		with platform(w, m['platform'], m['cpus']):
			o = fitlib.fit(ja, p, processes=m['processes'], verbose=m['verbose'], learner=learner)
		w.ops += 1
		if not o.ok:
			return [unexpected(o, 'fit')]
		outs.append((ref.view(o.value[0]), o.value[1]))
	w.nontrivial = any(e.style and e.n > 1 and len(e.tasks) > 1 for e in w.pools)
	w.tags[p['spec']['t']+('-timed' if p['timed'] else '')] = 1
	clear = margin > 1e-6
	for v, info in outs[1:]:
		if info['learning_rounds'] != outs[0][1]['learning_rounds']:
			if clear:
				return [Violation('machines-differ', 'rounds %d / %d' % (outs[0][1]['learning_rounds'], info['learning_rounds']))]
			continue
		d = ref.differ(outs[0][0], v, 1e-6, 1e-9)
		if d:
			return [Violation('machines-differ', d)]
	if clear:
		d = ref.differ(outs[0][0], ref.spec_view(want), 1e-6, 1e-9)
		if d:
			return [Violation('not-the-reference', d)]
	return []
