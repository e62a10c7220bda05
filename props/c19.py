"""C19: without stormpy everything works that does not need it."""
import os

import numpy as np

from sim import boot, gen, ref
from sim.core import Violation
from sim.lib import call, changed, interrupt_after, state, unexpected
from . import common, fitlib
from .c18 import content, near
from .c20 import generate as gen_merge, learn as merge

RUNS = {'quick': 4000, 'thorough': 100000}
LEVEL = 'exploration'
REAL = common.REAL+['stormpy 1.10.1 in a quarter of the processes, absent from the import path in the others']
STUB = common.STUB+['the import system hides stormpy', 'Ctrl-C at a chosen executed line']
ASSUMPTIONS = ['a missing stormpy is missing for the whole life of a process', 'where the reference Baum-Welch is well conditioned the result is compared with it (relative tolerance 1e-6)']
RULE = 'a history of learnings of every kind with and without the request of a stormpy model (by default, explicitly, by position), conversions, foreign initial models, output files and interruptions, in processes with and without stormpy. Non-trivial: a stormpy model was asked for in a process without stormpy.'


def stormpy(shard):
	return shard % 4 == 3


def generate(rng, i, tier):
	ops = []
	for _ in range(rng.randint(1, 4)):
		k = rng.choice(['fit', 'fit', 'fit', 'merge', 'active', 'convert', 'foreign', 'names'])
		cut = None if rng.random() < 0.85 else int(10**rng.uniform(0, 3))
		if k in ('fit', 'convert', 'foreign'):
			p = fitlib.gen_problem(rng, max_rounds=2, nseq=rng.choice([1, 2, 3]), maxlen=4, smax=3)
			ops.append([k, p, cut, rng.choice(['default', 'true', 'true', 'false']), rng.randint(0, 3), rng.random() < 0.4, rng.random() < 0.3])
		elif k == 'merge':
			ops.append([k, gen_merge(rng, i, tier), cut, rng.choice(['default', 'true', 'false']), rng.random() < 0.4])
		elif k == 'active':
			while True:
				sul = gen.trainable(rng, 'MDP', smax=3, plain=True)
				if all(sum(r) > 0 for s in sul['A'] for r in s):
					break
			data, _ = gen.dataset(rng, sul, 2, 3, impossible=0)
			ops.append([k, sul, cut, rng.choice(['default', 'true', 'false']), data, rng.randrange(1 << 20), rng.choice([0, 0.5, 'dynamic']), rng.randint(0, 2)])
		else:
			ops.append([k, None, cut])
	return {'env': gen.env(rng, gen.benign(rng)), 'ops': ops}


def request(how):
	return {'default': {}, 'true': {'stormpy_output': True}, 'false': {'stormpy_output': False}}[how]


def asked(how, t='MC'):
	"""a stormpy model comes out"""
	return boot.STORMPY and how != 'false' and t not in ('HMM', 'GoHMM')


def is_jajapy(ja, h):
	return isinstance(h, tuple(getattr(ja, t) for t in gen.ALL))


class Foreign:
	"""what a model of another library looks like to jajapy"""
	def __getattr__(self, n):
		raise AttributeError(n)


def execute(ja, wl, w):
	for op in wl['ops']:
		w.ops += 1
		w.tags[('' if boot.STORMPY else 'no stormpy: ')+op[0]] = 1
		v = {'fit': fit, 'merge': merging, 'active': active, 'convert': convert, 'foreign': foreign, 'names': names}[op[0]](ja, op, w)
		if v:
			return [v]
	return []


def fit(ja, op, w):
	import copy
	_, p, cut, how, verbose, files, data_back = op
	t = p['spec']['t']
	k = fitlib.fit_kwargs(ja, p)
	k.pop('stormpy_output')
	k.update(request(how), verbose=verbose)
	if files:
		for f in ('o.txt', 'o.sm'):
			if os.path.exists(f):
				os.remove(f)
		k['output_file'] = 'o.txt'
		if not (t in ('MC', 'MDP', 'CTMC', 'PCTMC') and p['spec']['labels'].count('init') != 1):
			k['output_file_prism'] = 'o.sm'
	if fitlib.reference(p) is None:
		w.tags['degenerate'] = 1
		return None
	b = ja.BW()
	h = ref.build(ja, p['spec'])
	ts = gen.to_set(ja, p['data'], p['spec'])
	said = w.stdout_chars
	with interrupt_after(w, cut):
		o = call(b.fit, ts, initial_model=h, return_data=data_back, **k)
	if o.kind == 'interrupt':
		o = call(b.fit, gen.to_set(ja, p['data'], p['spec']), initial_model=ref.build(ja, p['spec']), return_data=data_back, **k)
	if not o.ok:
		return unexpected(o, 'fit')
	if verbose == 0 and w.stdout_chars != said:
		return Violation('noise', 'fit printed %d characters although verbose=0' % (w.stdout_chars-said))
	if not boot.STORMPY and how != 'false':
		w.nontrivial = True
	if data_back and not (isinstance(o.value, tuple) and len(o.value) == 2 and 'learning_rounds' in o.value[1]):
		return Violation('result', 'return_data gives %r' % (o.value,))
	got = o.value[0] if data_back else o.value
	r = fitlib.fit(ja, p)
	if not r.ok:
		return unexpected(r, 'fit')
	v = ref.view(r.value[0])
	if asked(how, t):
		import stormpy as st
		spec = {'t': t if t != 'PCTMC' else 'CTMC', 'A': v['A'], 'labels': v['labels'], 'name': ''}
		if t == 'MDP':
			spec['actions'] = v['actions']
		m = near(got, spec, st)
	elif not is_jajapy(ja, got) or ref.TYPES[got.model_type] != t:
		return Violation('result', 'fit of a %s without stormpy (or for a jajapy model) returned a %s' % (t, type(got).__name__))
	else:
		m = ref.differ(ref.view(got), v, 1e-7, 1e-10)
	if m:
		return Violation('result', 'fit with stormpy_output %s differs: %s' % (how, m))
	if files:
		if not os.path.exists('o.txt') or t not in ('HMM', 'GoHMM') and 'output_file_prism' in k and not os.path.exists('o.sm'):
			return Violation('files', 'an output file is missing')
		o = call(getattr(ja, 'load'+t), 'o.txt')
		if not o.ok:
			return unexpected(o, 'load')
		m = ref.differ(ref.view(o.value), v, 1e-7, 1e-10)
		if m:
			return Violation('files', 'the output file has another model: '+m)
	return None


def merging(ja, op, w):
	_, a, cut, how, prism = op
	kw = dict(request(how))
	if prism:
		if os.path.exists('m.sm'):
			os.remove('m.sm')
		kw['output_file_prism'] = 'm.sm'
	s = ja.Set([list(x) for x, _ in a['data']], np.array([n for _, n in a['data']]), 0 if a['t'] == 'MC' else 1)
	b = ja.Alergia() if a['t'] == 'MC' else ja.IOAlergia()
	with interrupt_after(w, cut):
		o = call(b.fit, s, a['alpha'], **kw)
	if o.kind == 'interrupt':
		o = call(b.fit, s, a['alpha'], **kw)
	if not o.ok:
		return unexpected(o, 'state merging')
	if not boot.STORMPY and how != 'false':
		w.nontrivial = True
	r = merge(ja, a)
	if not r.ok:
		return unexpected(r, 'state merging')
	v = ref.view(r.value)
	if asked(how):
		import stormpy as st
		spec = {'t': v['t'], 'A': v['A'], 'labels': v['labels'], 'name': ''}
		if 'actions' in v:
			spec['actions'] = v['actions']
		m = near(o.value, spec, st, 1e-12)
	elif not is_jajapy(ja, o.value):
		return Violation('result', 'state merging without stormpy returned a %s' % type(o.value).__name__)
	else:
		m = ref.differ(ref.view(o.value), v, 1e-12, 1e-15)
	if m:
		return Violation('result', 'state merging with stormpy_output %s differs: %s' % (how, m))
	if prism and not os.path.exists('m.sm'):
		return Violation('files', 'the Prism file is missing')
	return None


def active(ja, op, w):
	_, sul, cut, how, data, seed, lr, verbose = op

	def go(kw, cut=None):
		import random
		random.seed(seed)
		np.random.seed(seed & 0xffffffff)
		ts, real, h, b = gen.to_set(ja, data, sul), ref.build(ja, sul), ref.build(ja, sul), ja.Active_BW_MDP()
		with interrupt_after(w, cut):
			return call(b.fit, ts, real, lr, 1, 2, 0.9, initial_model=h, max_it=1, verbose=verbose, processes=1, **kw)
	said = w.stdout_chars
	o = go(request(how), cut)
	if o.kind == 'interrupt':
		o = go(request(how))
	if not o.ok:
		# a batch the hypothesis cannot explain
		return None if o.kind == 'ValueError' and go({'stormpy_output': False}).kind == 'ValueError' else unexpected(o, 'active learning')
	if verbose == 0 and w.stdout_chars != said:
		return Violation('noise', 'active learning printed %d characters although verbose=0' % (w.stdout_chars-said))
	if not boot.STORMPY and how != 'false':
		w.nontrivial = True
	r = go({'stormpy_output': False})
	if not r.ok:
		return unexpected(r, 'active learning')
	v = ref.view(r.value)
	if asked(how):
		import stormpy as st
		m = near(o.value, {'t': 'MDP', 'A': v['A'], 'labels': v['labels'], 'actions': v['actions']}, st)
	elif not is_jajapy(ja, o.value):
		return Violation('result', 'active learning without stormpy returned a %s' % type(o.value).__name__)
	else:
		m = ref.differ(ref.view(o.value), v, 1e-7, 1e-10)
	return Violation('result', 'active learning with stormpy_output %s differs: %s' % (how, m)) if m else None


def convert(ja, op, w):
	spec = op[1]['spec']
	h = ref.build(ja, spec)
	if 'labels' not in spec:
		return None
	before = state(h)
	with interrupt_after(w, op[2]):
		o = call(lambda: h.toStormpy())
	if o.kind == 'interrupt':
		o = call(lambda: h.toStormpy())
	if boot.STORMPY:
		if not o.ok:
			return unexpected(o, 'toStormpy')
		content(o.value)
	else:
		w.nontrivial = True
		if o.ok or o.kind != 'RuntimeError':
			return Violation('conversion', 'toStormpy without stormpy: %s' % (o if not o.ok else type(o.value).__name__))
	m = changed(before, state(h))
	return Violation('operand', m) if m else None


def foreign(ja, op, w):
	p = op[1]
	b = ja.BW()
	o = call(b.fit, gen.to_set(ja, p['data'], p['spec']), initial_model=Foreign(), **dict(fitlib.fit_kwargs(ja, p), verbose=0))
	if o.ok:
		return Violation('foreign', 'learning from an unknown object returned a %s' % type(o.value).__name__)
	if not boot.STORMPY:
		w.nontrivial = True
		if o.kind != 'RuntimeError':
			return Violation('foreign', 'an initial model of another library without stormpy: %s' % o)
	# the same learner works afterwards
	if fitlib.reference(p) is None:
		return None
	x, y = fitlib.fit(ja, p, learner=b), fitlib.fit(ja, p)
	if x.ok != y.ok:
		return Violation('foreign', 'afterwards: %s / %s' % (x, y))
	if x.ok:
		m = ref.differ(ref.view(x.value[0]), ref.view(y.value[0]), 1e-7, 1e-10)
		if m:
			return Violation('foreign', 'afterwards the learner gives another model: '+m)
	return None


NEEDS = ('loadPrism', 'stormpyModeltoJajapy', 'jajapyModeltoStormpy', 'PCTMCtoCTMC')


def names(ja, op, w):
	want = ['BW', 'Set', 'loadSet', 'Alergia', 'IOAlergia', 'Active_BW_MDP', 'UniformScheduler', 'MemorylessScheduler', 'FiniteMemoryScheduler']
	want += gen.ALL+['load'+t for t in gen.ALL]+['create'+t for t in gen.ALL]+[t+'_random' for t in gen.ALL if t != 'PCTMC']+['synchronousCompositionCTMCs', 'synchronousCompositionPCTMCs']
	missing = [n for n in want if not hasattr(ja, n)]
	if boot.STORMPY:
		missing += [n for n in NEEDS if not hasattr(ja, n)]
	if missing:
		return Violation('names', 'jajapy has no %s' % ', '.join(missing))
	return None
