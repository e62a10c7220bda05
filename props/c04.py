"""C04: whatever is learned is a well-formed model of the asked structure."""
import numpy as np

from sim import gen, ref
from sim.core import Violation
from sim.lib import call, unexpected
from . import common, fitlib

RUNS = {'quick': 6000, 'thorough': 120000}
LEVEL = 'exploration'
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = ['sums of probabilities are checked up to 1e-6', 'training sets give a possible explanation and enough observations per state (numerically degenerate problems are not judged)']
RULE = 'a learning from a given starting model (all 6 types; fixed rates, fixed parameters, fixed constants) or from a number of states (random starting model drawn from the simulated random stream), under simulated machines. Non-trivial: at least one number of the model changed.'


def generate(rng, i, tier):
	k = rng.random()
	e = gen.env(rng, gen.benign(rng), linux=0.9)
	if k < 0.62:
		p = fitlib.gen_problem(rng, max_rounds=4)
		return {'env': e, 'kind': 'given', 'p': p, 'processes': rng.choice(fitlib.PROCS), **missing(rng, p['spec'])}
	if k < 0.75:
		while True:
			p = fitlib.gen_problem(rng, types=['PCTMC'], max_rounds=2, smax=3)
			s = p['spec']
			if set(l for q, _ in p['data'] for l in ref.split(s, q)[0]) <= set(s['labels']):
				break
		p.pop('fixed_params', None)
		p['update_constant'] = False
		return {'env': e, 'kind': 'parameters', 'p': p, 'to_update': sorted(rng.sample(s['params'], rng.randint(1, len(s['params'])))), 'all': rng.random() < 0.3, **missing(rng, s)}
	t = rng.choice(['MC', 'MDP', 'GoHMM', 'CTMC'])
	spec = gen.trainable(rng, t, plain=True)
	data, timed = gen.dataset(rng, spec, rng.choice([3, 5, 8]), 6, timed=t == 'CTMC', impossible=0, minlen=2)
	if t == 'GoHMM':
		while sum(len(x) for x, _ in data) < 40:
			data.append([ref.sample(spec, rng, rng.randint(3, 10)), 1])
	labs = sorted(set(l for q, _ in data for l in ref.split(spec, q)[0])-{'init'}) if t != 'GoHMM' else []
	e['faults']['extreme_draw'] = rng.choice([0, 0, 0.05])
	return {'env': e, 'kind': 'random', 'spec': spec, 'data': data, 'labs': labs, 'n': max(1, len(labs))+rng.randint(0, 3), 'init': rng.random() < 0.5,
			'self_loop': rng.random() < 0.7, 'max_it': rng.randint(1, 4), 'processes': rng.choice(fitlib.PROCS)}


def missing(rng, spec):
	"""parameters without a value, and where the values are drawn from"""
	if spec['t'] != 'PCTMC' or rng.random() < 0.5:
		return {'missing': [], 'range': {}}
	lo = round(rng.uniform(0.1, 1.0), 3)
	both = {'min_val': lo, 'max_val': round(lo+rng.uniform(0.01, 2), 3)}
	m = rng.sample(spec['params'], rng.randint(1, len(spec['params'])))
	high = dict(max_val=round(max(list(spec['values'].values())+[0.3])+rng.random(), 3))
	known = [x for q, x in spec['values'].items() if q not in m]
	low = dict(min_val=round(rng.uniform(0.2, max(known)) if len(known) > 1 and max(known) > 0.2 else rng.uniform(0.2, 2.0) if len(known) < 2 else 0.1*min(known), 4))
	return {'missing': sorted(m), 'range': rng.choice([both, both, both, {}, high, low])}


class drawn:
	"""records the values of the parameters before learning starts"""

	def __init__(self, ja):
		self.cls = ja.PCTMC
		self.real = ja.PCTMC.randomInstantiation
		self.values = None

	def __enter__(self):
		rec, real = self, self.real

		def randomInstantiation(h, *a, **k):
			r = real(h, *a, **k)
			rec.values = {p: float(v) for p, v in h.parameter_values.items()}
			return r
		self.cls.randomInstantiation = randomInstantiation
		return self

	def __exit__(self, *a):
		self.cls.randomInstantiation = self.real
		return False


def well_formed(v):
	"""what is wrong with a model, None if nothing"""
	A = v['A']
	t = v['t']
	if not np.all(np.isfinite(A)):
		return 'not a number in the matrix'
	if np.any(A < 0):
		return 'negative transition %g' % A.min()
	if not ref.close(v['pi'].sum(), 1.0, 1e-6, 1e-6) or np.any(v['pi'] < 0) or not np.all(np.isfinite(v['pi'])):
		return 'initial distribution %s' % v['pi'].tolist()
	if t in ('MC', 'MDP', 'HMM', 'GoHMM'):
		if np.any(A > 1+1e-6):
			return 'probability %g' % A.max()
		s = A.sum(axis=-1)
		bad = (np.abs(s-1) > 1e-6) & (s != 0)
		if np.any(bad):
			return 'a row sums to %.9g' % s[bad][0]
	if t == 'HMM':
		s = v['O'].sum(axis=1)
		if np.any(v['O'] < 0) or not np.all(np.isfinite(v['O'])) or np.any(np.abs(s-1) > 1e-6):
			return 'emissions %s' % v['O'].tolist()
	if t == 'GoHMM':
		if not np.all(np.isfinite(v['O'])) or np.any(v['O'][:, :, 1] <= 0):
			return 'emissions %s' % v['O'].tolist()
	return None


def structure(spec, v, fixed=None, learn_untimed=False):
	"""what of the structure of the starting model was lost"""
	a = ref.spec_view(spec)
	t = spec['t']
	for k in ('labels', 'actions', 'params'):
		if k in a and a[k] != v.get(k):
			return '%s %r became %r' % (k, a[k], v.get(k))
	if 'alphabet' in a and sorted(a['alphabet']) != sorted(v['alphabet']):
		return 'alphabet %r became %r' % (a['alphabet'], v['alphabet'])
	if a['A'].shape != v['A'].shape:
		return 'shape %r became %r' % (a['A'].shape, v['A'].shape)
	if np.any((a['A'] == 0) & (v['A'] != 0)):
		return 'a transition appeared'
	z = a['A'].sum(axis=-1) if t != 'MDP' else a['A'].sum(axis=2)
	if t in ('MC', 'MDP', 'HMM', 'GoHMM') and np.any((z != 0) != (v['A'].sum(axis=-1) != 0)):
		return 'a row vanished'
	if t in ('MC', 'MDP', 'CTMC', 'PCTMC') and not ref.close(a['pi'], v['pi'], 1e-12, 0):
		return 'initial distribution %s became %s' % (a['pi'].tolist(), v['pi'].tolist())
	if t in ('HMM', 'GoHMM') and np.any((a['pi'] == 0) & (v['pi'] != 0)):
		return 'an initial state appeared'
	if t == 'HMM':
		perm = [v['alphabet'].index(x) for x in a['alphabet']]
		if np.any((a['O'] == 0) & (v['O'][:, perm] != 0)):
			return 'an emission appeared'
	if fixed is not None:
		f = np.array(fixed, dtype=bool)
		if np.any(a['A'][f] != v['A'][f]):
			return 'a fixed rate changed'
	return None


def execute(ja, wl, w):
	if wl['kind'] == 'random':
		return random_start(ja, wl, w)
	p = wl['p']
	spec = p['spec']
	if wl['kind'] == 'parameters':
		up = wl.get('missing', []) if wl['all'] else wl['to_update']
		p = dict(p, fixed_params=[x for x in spec['params'] if x not in up])
		full, spec = spec, reduced(spec, p['data'])
		p['spec'] = spec
	miss = wl.get('missing', []) if spec['t'] == 'PCTMC' else []
	r = fitlib.reference(p)
	if r is None:
		w.tags['degenerate'] = 1
		return []
	first = full if wl['kind'] == 'parameters' else spec
	h0 = ref.build(ja, dict(first, values={q: x for q, x in first['values'].items() if q not in miss}) if miss else first)
	expr0 = None
	if spec['t'] == 'PCTMC':
		expr0 = [str(x) for x in h0.transition_expr]
	w.tags[spec['t']+('-timed' if p['timed'] else '')] = 1
	if wl['kind'] == 'parameters':
		b = ja.BW()
		kw = dict(epsilon=p['epsilon'], max_it=p['max_it'], verbose=0, return_data=True, **wl.get('range', {}))
		with drawn(ja) as rec:
			if wl['all']:
				o = call(b.fit_nonInstantiatedParameters, gen.to_set(ja, p['data'], spec), h0, **kw)
			else:
				o = call(b.fit_parameters, gen.to_set(ja, p['data'], spec), h0, wl['to_update'], **kw)
		w.tags['fit_parameters'] = 1
		m, p, r = started(spec, p, r, miss, wl, rec, w)
		if m:
			return [m]
		if r is None:
			w.tags['degenerate'] = 1
			return []
		if not o.ok:
			return [unexpected(o, 'fit_parameters')]
		spec = p['spec']
		values = o.value[0]
		h = h0
		for q in up:
			if q not in values or not ref.close(float(values[q]), float(h.parameter_values[q]), 1e-12, 0):
				return [Violation('parameters', 'parameter %s: %r returned, the model has %r' % (q, values.get(q), h.parameter_values.get(q)))]
		if set(values) != set(up):
			return [Violation('parameters', 'asked for %r, got %r' % (up, sorted(values)))]
	else:
		with drawn(ja) as rec:
			o = fitlib.fit(ja, p, model=h0, processes=wl['processes'], **(wl.get('range', {}) if spec['t'] == 'PCTMC' else {}))
		if miss:
			m, p, r = started(spec, p, r, miss, wl, rec, w)
			if m:
				return [m]
			if r is None:
				w.tags['degenerate'] = 1
				return []
			spec = p['spec']
		if not o.ok:
			return [unexpected(o, 'fit')]
		h = o.value[0]
	w.ops += 1
	v = ref.view(h)
	m = well_formed(v)
	if m:
		return [Violation('malformed', m)]
	m = structure(spec, v, p.get('fixed'))
	if m:
		return [Violation('structure', m)]
	if spec['t'] == 'PCTMC':
		for q in p.get('fixed_params', []):
			if float(v['values'][q]) != float(spec['values'][q]):
				return [Violation('fixed', 'parameter %s was fixed to %r and is %r' % (q, spec['values'][q], v['values'][q]))]
		if any(not float(x) >= 0 for x in v['values'].values()):
			return [Violation('malformed', 'parameters %r' % v['values'])]
		for q in spec['params']:
			want = set((x[0], x[1]) for x in spec['trans'] if q in x[3])
			got = [tuple(int(y) for y in x) for x in h.parameterIndexes(q)]
			if set(got) != want or len(got) != len(want):
				return [Violation('structure', 'the parameter %s is said to be used by the transitions %r, it is by %r' % (q, sorted(got), sorted(want)))]
		expr = [str(x) for x in h.transition_expr]
		if wl['kind'] == 'parameters' and len(full['labels']) > len(spec['labels']):
			w.tags['unused states'] = 1
			expr = expr0 = []
		for a, b in zip(expr0, expr):
			par = any(q in a for q in spec['params'])
			if a != b and (par or not p.get('update_constant', True)):
				return [Violation('fixed', 'the rate %s became %s' % (a, b))]
		if len(expr) != len(expr0):
			return [Violation('structure', 'the transitions changed')]
	w.nontrivial = ref.differ(ref.spec_view(spec), v, 1e-9, 1e-12) is not None
	if r[3] > 1e-6:
		d = ref.differ(v, ref.spec_view(r[0]), 1e-6, 1e-9)
		if d:
			return [Violation('not-the-reference', d)]
	return []


def started(spec, p, r, miss, wl, rec, w):
	"""(violation, problem, reference) of a learning that draws missing values"""
	if not miss:
		return None, p, r
	w.tags['drawn parameters'] = 1
	v = rec.values
	if v is None or set(v) != set(spec['params']):
		return Violation('drawn', 'parameters without a value when learning starts: %r' % (sorted(set(spec['params'])-set(v or ())),)), p, r
	# a bound that is not given: the extreme value known, or the documented default
	known = [float(x) for q, x in spec['values'].items() if q not in miss]
	known = known if len(known) > 1 else [0.1, 5.0]
	lo, hi = wl['range'].get('min_val', min(known)), wl['range'].get('max_val', max(known))
	for q in spec['params']:
		if q not in miss:
			if v[q] != float(spec['values'][q]):
				return Violation('drawn', 'parameter %s had the value %r, learning starts from %r' % (q, spec['values'][q], v[q])), p, r
		elif not lo-1e-9 <= v[q] <= hi+1e-9:
			return Violation('drawn', '%s = %r is outside of [%r,%r]' % (q, v[q], lo, hi)), p, r
	p = dict(p, spec=dict(spec, values=v))
	return None, p, fitlib.reference(p)


def reduced(spec, data):
	"""without the states whose label no trace has"""
	seen = set(l for q, _ in data for l in ref.split(spec, q)[0])
	keep = [s for s, l in enumerate(spec['labels']) if l in seen]
	if len(keep) == len(spec['labels']):
		return spec
	return dict(spec, labels=[spec['labels'][s] for s in keep], trans=[[keep.index(a), keep.index(b), c, pw] for a, b, c, pw in spec['trans'] if a in keep and b in keep])


def random_start(ja, wl, w):
	t = wl['spec']['t']
	w.tags['random start '+t] = 1
	kw = dict(nb_states=wl['n'], random_initial_state=wl['init'], epsilon=0.01, max_it=wl['max_it'], stormpy_output=False, verbose=0, processes=wl['processes'], return_data=True)
	if t == 'CTMC':
		kw.update(min_exit_rate_time=1, max_exit_rate_time=6, self_loop=wl['self_loop'] or wl['n'] < 2)
	b = ja.BW()
	o = call(b.fit, gen.to_set(ja, wl['data'], wl['spec']), **kw)
	w.ops += 1
	if not o.ok:
		# a random starting model may be unable to explain anything
		h = getattr(b, 'h', None)
		if h is not None and o.kind not in ('hang', 'interrupt'):
			from .c03 import as_spec
			v = ref.view(h)
			s = as_spec(dict(wl['spec'], labels=v.get('labels'), actions=v.get('actions')), h)
			if not any(float(ref.forward(s, q, ref.learn_full(s, q, ref.timed_data(wl['data'])))[3]) > 0 for q, _ in wl['data']):
				w.tags['nothing explained'] = 1
				return []
		return [unexpected(o, 'fit')]
	h = o.value[0]
	v = ref.view(h)
	if v['t'] != t:
		return [Violation('structure', 'a %s was learned from the traces of a %s' % (v['t'], t))]
	n = wl['n'] if t == 'GoHMM' else wl['n']+1
	if len(v['A']) != n:
		return [Violation('structure', '%d states asked, %d learned' % (n, len(v['A'])))]
	if t == 'GoHMM' and not np.all(np.isfinite(v['O'])):
		w.tags['degenerate'] = 1
		return []
	if t == 'GoHMM' and np.min(v['O'][:, :, 1]) < 0.05:
		w.tags['degenerate'] = 1
		return []
	m = well_formed(v)
	if m:
		return [Violation('malformed', m)]
	if t != 'GoHMM':
		if set(v['labels']) != set(wl['labs']) | {'init'}:
			return [Violation('structure', 'labels %r, the traces have %r' % (v['labels'], wl['labs']))]
		if v['labels'].count('init') != 1:
			return [Violation('structure', 'labels %r' % v['labels'])]
	if t == 'MDP' and set(v['actions']) != set(a for q, _ in wl['data'] for a in q[1::2]):
		return [Violation('structure', 'actions %r' % v['actions'])]
	w.nontrivial = True
	return []
