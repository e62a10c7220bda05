"""C06: a failing worker or an interruption surfaces, and nothing is corrupted."""
import copy

from sim import gen, ref
from sim.core import Violation
from sim.lib import call, interrupt_after, quiet, unexpected
from . import common, fitlib
from .c03 import as_spec
from .c04 import well_formed

RUNS = {'quick': 2000, 'thorough': 60000}
LEVEL = 'exploration'
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = ['the simulated pools behave like the standard ones (a worker that dies breaks an executor and makes a multiprocessing.Pool lose the task)', 'after an interruption between two lines of an update the model may be between two rounds, but it is a well-formed model',
			   'the reference Baum-Welch (sim/ref.py), relative tolerance 1e-6']
RULE = 'a learning or a loglikelihood during which workers die, run out of memory, fail or cannot be forked, or Ctrl-C arrives while the program waits or at an arbitrary line, or an allocation fails at an arbitrary line of the program or of a worker; then the same call is repeated on the same objects without faults. Non-trivial: a fault fired.'

KINDS = ['worker_crash', 'worker_memory', 'worker_error', 'fork_fail', 'interrupt']


def generate(rng, i, tier):
	f = gen.benign(rng)
	line = None
	memory = False
	if rng.random() < 0.8:
		for k in rng.sample(KINDS, rng.choice([1, 1, 2])):
			f[k] = rng.choice([0.02, 0.1, 0.3]) if k not in ('fork_fail',) else rng.choice([0.2, 0.5])
	else:
		line = int(10**rng.uniform(0, 3.6))
		memory = rng.random() < 0.5
	e = gen.env(rng, f, linux=1.0)
	e['cpus'] = rng.choice([2, 3, 4, 8])
	e['max_faults'] = rng.choice([1, 1, 2, 5])
	kind = 'fit' if rng.random() < 0.7 else 'loglik'
	p = fitlib.gen_problem(rng, types=[t for t in gen.ALL if kind == 'fit' or t != 'PCTMC'], max_rounds=3, nseq=rng.choice([2, 3, 5]), maxlen=5, smax=4)
	return {'env': e, 'kind': kind, 'p': p, 'processes': rng.choice([None, None, 2, 3, 1]), 'line': line, 'memory': memory}


def trajectory(p):
	"""the hypotheses after 0, 1, ... rounds"""
	out = [p['spec']]
	for _ in range(p['max_it']):
		out.append(ref.em_step(out[-1], p['data'], **fitlib.ref_args(p))[0])
	return out


def anywhere(w):
	return 'interrupt_line' in w.fired or 'memory_line' in w.fired


def faulted(w):
	return any(k not in gen.BENIGN for k in w.fired)


def left(w):
	bad = [e for e in w.pools if not e.idle()]
	return [Violation('workers-left', '%d pools still have work' % len(bad))] if bad else []


def execute(ja, wl, w):
	p = wl['p']
	r = fitlib.reference(p)
	if r is None or r[3] < 1e-6:
		w.tags['degenerate'] = 1
		return []
	spec = p['spec']
	h = ref.build(ja, spec)
	ts = gen.to_set(ja, p['data'], spec)
	before = (copy.deepcopy(ts.sequences), [int(x) for x in ts.times], ts.type)
	w.tags[wl['kind']+' '+spec['t']] = 1

	def same_set():
		if (ts.sequences, [int(x) for x in ts.times], ts.type) != before:
			return [Violation('training-set', 'the set changed')]
		return []
	if wl['kind'] == 'loglik':
		want = ref.loglik(spec, p['data'])
		with interrupt_after(w, wl['line'], wl.get('memory', False)):
			o = call(h.logLikelihood, ts)
		v = outcome(w, o, 'logLikelihood') or left(w) or same_set()
		if v:
			return v
		if o.ok and not ref.close(float(o.value), want, 1e-8, 1e-8):
			return [Violation('partial-result', 'loglikelihood %.12g instead of %.12g' % (o.value, want))]
		d = ref.differ(ref.view(h), ref.spec_view(spec), 1e-12, 0)
		if d:
			return [Violation('model', d)]
		with quiet(w):
			o = call(h.logLikelihood, ts)
		if not o.ok:
			return [unexpected(o, 'retry')]
		if not ref.close(float(o.value), want, 1e-8, 1e-8):
			return [Violation('retry', 'loglikelihood %.12g instead of %.12g' % (o.value, want))]
		return []
	learner = ja.BW()
	with interrupt_after(w, wl['line'], wl.get('memory', False)):
		o = fitlib.fit(ja, p, form=ts, model=h, learner=learner, processes=wl['processes'])
	w.ops += 2
	v = outcome(w, o, 'fit') or left(w) or same_set()
	if v:
		return v
	if o.ok:
		d = ref.differ(ref.view(o.value[0]), ref.spec_view(r[0]), 1e-6, 1e-9)
		if d:
			return [Violation('partial-result', d)]
		return []
	now = ref.view(h)
	m = well_formed(now)
	if m:
		return [Violation('malformed', m)]
	if not anywhere(w):
		tr = trajectory(p)
		ds = [ref.differ(now, ref.spec_view(s), 1e-6, 1e-9) for s in tr]
		if all(ds):
			return [Violation('between-rounds', 'the model is none of the hypotheses after 0..%d rounds: %s' % (p['max_it'], ds[0]))]
	q = dict(p, spec=as_spec(spec, h))
	if spec['t'] == 'PCTMC':
		# keep the shape of the rates
		k = ds.index(None) if not anywhere(w) else None
		if k is None:
			with quiet(w):
				o = fitlib.fit(ja, p, form=ts, model=h, learner=learner, processes=wl['processes'])
			return [] if o.ok else [unexpected(o, 'retry')]
		q['spec'] = tr[k]
	r2 = fitlib.reference(q)
	if r2 is None or r2[3] < 1e-6:
		w.tags['retry not judged'] = 1
		return []
	with quiet(w):
		o = fitlib.fit(ja, p, form=ts, model=h, learner=learner, processes=wl['processes'])
	if not o.ok:
		return [unexpected(o, 'retry')]
	d = ref.differ(ref.view(o.value[0]), ref.spec_view(r2[0]), 1e-6, 1e-9)
	if d:
		return [Violation('retry', d)]
	w.tags['retried'] = 1
	return same_set()


def outcome(w, o, what):
	w.nontrivial = faulted(w)
	if o.kind == 'hang':
		return [Violation('hang:'+what, o.error)]
	if not o.ok and not faulted(w):
		return [unexpected(o, what)]
	if not o.ok:
		w.tags['surfaced as '+o.kind] = 1
	return None
