"""C05: the loglikelihood of a set of traces."""
from sim import gen, ref
from sim.core import Violation
from sim.lib import call, platform, unexpected
from . import common

RUNS = {'quick': 3200, 'thorough': 100000}
LEVEL = 'exploration'
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = ['the reference forward algorithm (sim/ref.py)', 'relative tolerance 1e-9', 'traces whose likelihood is in the underflow zone (below 1e-200 and not zero) are not judged']
RULE = 'the loglikelihood of a random multiset of traces (some impossible), asked several times, in permuted and split forms, on simulated machines (CPU count, platform, schedules, stalls) and compared with the reference. Non-trivial: a pool with 2+ workers and 2+ tasks was used.'


def generate(rng, i, tier):
	t = rng.choice(gen.ALL)
	par = t == 'PCTMC'      # symbolic rates: the library is slow
	if par and rng.random() < 0.7:
		t = 'CTMC'
		par = False
	spec = gen.rare(rng, gen.model(rng, t, absorbing=True, smax=3 if par else 5))
	while True:
		data, timed = gen.dataset(rng, spec, rng.choice([1, 2, 3] if par else [1, 2, 3, 4, 6, 9, 14]), rng.choice([2, 3] if par else [3, 6, 12]), impossible=rng.choice([0.0, 0.2, 0.6]))
		data = [d for d in data if not 0 < float(ref.prob(spec, d[0])) < 1e-200]
		if data:
			break
	kind = None
	if spec['t'] in ('MC', 'CTMC', 'PCTMC') and rng.random() < 0.08:
		# what is certain (nothing was seen but the beginning)
		data = [[[spec['labels'][rng.choice([k for k, x in enumerate(ref.pi(spec)) if x > 0])]], rng.randint(1, 5)]]
		kind = 4 if spec['t'] != 'MC' and rng.random() < 0.7 else 0
	if rng.random() < 0.2:
		data = data+[[data[0][0], 3]]
	if spec['t'] == 'MDP' and rng.random() < 0.15:
		data = data+[[['init', 'no such action', data[0][0][0]], 2]]
	machines = [{'cpus': rng.choice([1, 2, 3, 5, 8, 32]), 'platform': rng.choice(['linux', 'linux', 'linux', 'darwin', 'win32']), 'shuffle': rng.random() < 0.5} for _ in range(rng.choice([2, 3]))]
	return {'env': gen.env(rng, gen.benign(rng)), 'spec': spec, 'data': data, 'kind': kind, 'machines': machines, 'order': rng.randrange(1 << 30)}


def execute(ja, wl, w):
	from sim.core import _Random
	rng = _Random(wl['order'])
	spec, data = wl['spec'], wl['data']
	want = ref.loglik(spec, data)
	possible = any(float(ref.prob(spec, x)) > 0 for x, _ in data)
	h = ref.build(ja, spec)
	w.tags[spec['t']] = 1
	for m in wl['machines']:
		d = list(data)
		if m['shuffle']:
			rng.shuffle(d)
		s = gen.to_set(ja, d, dict(spec) if wl['kind'] is None else wl['kind'])
		w.stdout_keep = []
		with platform(w, m['platform'], m['cpus']):
			for _ in range(1 if spec['t'] == 'PCTMC' else 2):
				o = call(h.logLikelihood, s)
				w.ops += 1
				if not o.ok:
					return [unexpected(o, 'logLikelihood')]
				if not ref.close(float(o.value), want, 1e-9, 1e-9):
					return [Violation('loglikelihood', '%.15g instead of %.15g on %s with %d CPUs' % (o.value, want, m['platform'], m['cpus']))]
		if possible and 'not able to generate any' in ''.join(w.stdout_keep):
			return [Violation('warning', 'a possible set is said to be impossible')]
		w.stdout_keep = None
	w.nontrivial = any(e.n > 1 and len(e.tasks) > 1 for e in w.pools)
	return []
