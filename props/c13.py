"""C13: what learning writes to disk is what it returns; Prism files describe
the same model."""
import numpy as np

from sim import gen, ref
from sim.core import Violation
from sim.lib import call, unexpected
from . import common, fitlib
from .c03 import as_spec
from .c12 import LOADERS

RUNS = {'quick': 3000, 'thorough': 50000}
LEVEL = 'exploration'
REAL = common.REAL+['stormpy (parser and builder of Prism files)']
STUB = common.STUB+['the file system below the scratch folder', 'os.system (clearing the terminal)']
ASSUMPTIONS = ['two models are equivalent when they give the same probability (relative 1e-8) to sampled traces of both', 'Prism: identifiers as labels, actions and parameters, one initial state, no absorbing state; actions that are available in no reachable state are not part of the behaviour', 'constants of parametric models keep 12 significant digits']
RULE = 'learnings (Baum-Welch, active, state merging) that write their result to a text and a Prism file on a simulated disk with errors, and Prism files of random models; the files are loaded and compared with the returned model. Non-trivial: a file was loaded and compared.'


def generate(rng, i, tier):
	kind = rng.choice(['fit', 'fit', 'fit', 'prism', 'prism', 'active', 'alergia', 'fault'])
	e = gen.env(rng, gen.benign(rng), linux=0.9)
	wl = {'env': e, 'kind': kind, 'text': rng.random() < 0.8, 'prism': rng.random() < 0.7, 'processes': rng.choice(fitlib.PROCS)}
	if kind in ('fit', 'fault'):
		wl['p'] = fitlib.gen_problem(rng, max_rounds=2, nseq=rng.choice([1, 2, 4]), maxlen=4, smax=4)
		clean(rng, wl['p'])
		if wl['p']['spec'].get('labels', ['init']).count('init') != 1:
			wl['prism'] = False
		if kind == 'fault':
			wl['text'] = True
			wl['fault'] = [rng.choice(['EIO', 'ENOSPC']), rng.randint(0, 3), True]
	elif kind == 'prism':
		t = rng.choice(['MC', 'MDP', 'CTMC', 'PCTMC', 'PCTMC'])
		while True:
			m = gen.trainable(rng, t)
			if m['labels'].count('init') == 1 and not (t == 'MDP' and any(all(sum(a) == 0 for a in s) for s in m['A'])):
				break
		wl['p'] = {'spec': m}
		clean(rng, wl['p'])
		if t == 'PCTMC':
			wl['free'] = rng.choice([[], [], rng.sample(m['params'], rng.randint(1, len(m['params'])))])
	elif kind == 'active':
		from .c11 import generate as g
		while True:
			a = g(rng, i, tier)
			if a['kind'] == 'fit' and all(k in gen.BENIGN for k in a['env']['faults']):
				break
		identifiers(a)
		wl['a'] = a
	else:
		from .c20 import generate as g
		wl['a'] = g(rng, i, tier)
		wl['text'], wl['prism'] = False, True
		rename(rng, wl['a'])
	return wl


def identifiers(a):
	"""labels and actions of an active learning that are identifiers"""
	labs = sorted(set(a['spec']['labels'])|set(a['sul']['labels'])|set(x for s, _ in a['data'] for x in s[0::2]))
	acts = sorted(set(a['spec']['actions'])|set(a['sul']['actions'])|set(x for s, _ in a['data'] for x in s[1::2]))
	m = {l: 'l%d' % k if l != 'init' else l for k, l in enumerate(labs)}
	am = {l: 'act%d' % k for k, l in enumerate(acts)}
	for s in (a['spec'], a['sul']):
		s['labels'] = [m[x] for x in s['labels']]
		s['actions'] = [am[x] for x in s['actions']]
	a['data'] = [[[am[x] if k % 2 else m[x] for k, x in enumerate(s)], n] for s, n in a['data']]


def rename(rng, a):
	"""labels that are identifiers"""
	labs = sorted(set(x for s, _ in a['data'] for x in (s if a['t'] == 'MC' else s[0::2]))-{'init'})
	m = {l: 'l%d' % k for k, l in enumerate(labs)}
	acts = sorted(set(x for s, _ in a['data'] for x in s[1::2]))
	am = {l: 'act%d' % k for k, l in enumerate(acts)}
	a['data'] = [[[m.get(x, x) if a['t'] == 'MC' or k % 2 == 0 else am[x] for k, x in enumerate(s)], n] for s, n in a['data']]


def clean(rng, p):
	"""identifiers only"""
	s = p['spec']
	s['name'] = rng.choice(['m', 'model_1', 'learned', 'My MDP', 'max', "it's", '1st', 'été', 's'])
	if s['t'] in ('HMM', 'GoHMM'):
		return
	new = rng.choice([list('abcdefgh'), ['ok', 'ko', 'wait', 'done', 'x1', 'x2', 'x3', 'x4']])
	old = sorted(set(s['labels'])-{'init'})
	m = {o: new[k % len(new)] for k, o in enumerate(old)}
	m['init'] = 'init'
	s['labels'] = [m[l] for l in s['labels']]
	for q in p.get('data', []):
		step = 2 if s['t'] == 'MDP' or ref.is_timed(q[0]) and s['t'] in ('CTMC', 'PCTMC') else 1
		q[0] = [m.get(x, x) if k % step == 0 else x for k, x in enumerate(q[0])]
	if s['t'] == 'MDP':
		names = ['go', 'stop', 'turn', 'other']
		am = {a: names[k] for k, a in enumerate(s['actions'])}
		s['actions'] = [am[a] for a in s['actions']]
		for q in p.get('data', []):
			q[0] = [am[x] if k % 2 else x for k, x in enumerate(q[0])]


def plain(h):
	"""a spec with numeric rates of any labelled model"""
	v = ref.view(h)
	s = {'t': v['t'] if v['t'] != 'PCTMC' else 'CTMC', 'A': v['A'], 'labels': v['labels'], 'name': v['name']}
	if 'actions' in v:
		s['actions'] = v['actions']
	return s


def equivalent(w, rng_seed, a, b):
	"""None or a trace to which the two specs give different probabilities"""
	from sim.core import _Random
	rng = _Random(rng_seed)
	timed = a['t'] == 'CTMC'
	for k in range(12):
		src = a if k % 2 else b
		try:
			tr = ref.sample(src, rng, rng.randint(1, 5), timed)
		except (ValueError, IndexError) as e:
			return 'cannot be sampled (%s)' % e
		pa, pb = ref.prob(a, tr), ref.prob(b, tr)
		if not ref.close(float(pa), float(pb), 1e-8, 1e-30):
			return 'the trace %r has probability %.12g / %.12g' % (tr, pa, pb)
	return None


def prism_check(ja, w, h, path, instantiate=None):
	"""loads a Prism file and compares"""
	o = call(ja.loadPrism, path)
	w.ops += 1
	if not o.ok:
		return unexpected(o, 'loadPrism')
	g = o.value
	if instantiate:
		o = call(g.instantiate, [p for p in instantiate], [instantiate[p] for p in instantiate])
		if not o.ok:
			return unexpected(o, 'instantiate')
	a, b = plain(h), plain(g)
	if a['t'] != b['t']:
		return Violation('prism', 'a %s became a %s' % (a['t'], b['t']))
	if a['t'] == 'MDP':
		seen = [s for s, l in enumerate(a['labels']) if l == 'init']
		for s in seen:
			seen.extend(int(d) for d in np.where(a['A'][s].any(axis=0))[0] if d not in seen)
		used = [k for k in range(len(a['actions'])) if a['A'][seen, k].any()]
		a['A'], a['actions'] = a['A'][:, used], [a['actions'][k] for k in used]
		if sorted(a['actions']) != sorted(b['actions']):
			return Violation('prism', 'actions %r became %r' % (a['actions'], b['actions']))
	if not np.all(np.isfinite(b['A'])):
		return Violation('prism', 'rates without a value')
	m = equivalent(w, w.seed, a, b)
	if m:
		return Violation('prism', m)
	w.tags['prism '+ref.TYPES[h.model_type]] = w.tags.get('prism '+ref.TYPES[h.model_type], 0)+1
	w.nontrivial = True
	return None


def text_check(ja, w, h, path):
	t = ref.TYPES[h.model_type]
	o = call(getattr(ja, LOADERS[t]), path)
	w.ops += 1
	if not o.ok:
		return unexpected(o, 'load')
	tol = 1e-12 if t == 'PCTMC' else 1e-15
	d = ref.differ(ref.view(o.value), ref.view(h), tol, 0.0, name=True)
	if d:
		return Violation('text', 'the file and the returned model: '+d)
	w.tags['text '+t] = w.tags.get('text '+t, 0)+1
	w.nontrivial = True
	return None


def prismable(h):
	v = ref.view(h)
	if v['t'] in ('HMM', 'GoHMM') or v['labels'].count('init') != 1:
		return False
	s = v['A'].sum(axis=-1)
	if v['t'] == 'MDP':
		s = s.max(axis=1)
	return bool(np.all(s > 0)) and bool(np.all(v['A'][v['A'] > 0] > 1e-12))


def execute(ja, wl, w):
	kind = wl['kind']
	w.tags[kind] = 1
	out = {}
	if wl['text']:
		out['output_file'] = 'out.txt'
	if wl['prism']:
		out['output_file_prism'] = 'out.prism'
	if kind == 'prism':
		spec = dict(wl['p']['spec'])
		h = ref.build(ja, spec)
		free = wl.get('free') or []
		inst = None
		if free:
			s2 = dict(spec, values={p: (np.nan if p in free else v) for p, v in spec['values'].items()})
			g = ref.build(ja, s2)
			inst = {p: spec['values'][p] for p in free}
		o = call((g if free else h).savePrism, 'out.prism')
		if not o.ok:
			return [unexpected(o, 'savePrism')]
		v = prism_check(ja, w, h, 'out.prism', inst)
		return [v] if v else []
	if kind in ('fit', 'fault'):
		p = wl['p']
		r = fitlib.reference(p)
		if r is None:
			w.tags['degenerate'] = 1
			return []
		if kind == 'fault':
			k, at, sticky = wl['fault']
			out.pop('output_file_prism', None)
			wl['prism'] = False
			w.fs.arm(fail_at=(at, k, sticky))
		o = fitlib.fit(ja, p, processes=wl['processes'], **out)
		hit = any(x.startswith('io_') for x in w.fired)
		w.fs.disarm()
		w.ops += 1
		if kind == 'fault' and hit:
			w.nontrivial = True
			if o.ok:
				v = text_check(ja, w, o.value[0], 'out.txt')
				if v:
					return [Violation('silent', 'the model could not be written and no error was raised')]
			return []
		if not o.ok:
			return [unexpected(o, 'fit')]
		h = o.value[0]
	elif kind == 'active':
		from .c11 import Recorder, replicate
		a = wl['a']
		sul = ref.build(ja, a['sul'])
		hyp = ref.build(ja, a['spec'])
		hyp.name = 'm'
		kw = dict(epsilon=a['epsilon'], max_it=a['max_it'], verbose=0, stormpy_output=False, processes=a['processes'], epsilon_greedy=a['greedy'])
		kw.update(output_file='out.txt')
		prism = wl['prism'] and a['spec']['labels'].count('init') == 1
		if prism:
			kw.update(output_file_prism='out.prism')
		handed = []
		sul.run = Recorder(sul, handed)
		o = call(ja.Active_BW_MDP().fit, gen.to_set(ja, a['data'], a['spec']), sul, a['lr'], a['iterations'], a['n'], initial_model=hyp, sequence_length=2, **kw)
		if not o.ok:
			if not isinstance(replicate(a, a['data'], handed), tuple):
				return []
			return [unexpected(o, 'fit')]
		h = o.value
		v = text_check(ja, w, h, 'out.txt')
		if not v and prism and prismable(h):
			v = prism_check(ja, w, h, 'out.prism')
		return [v] if v else []
	else:
		from .c20 import learn
		o = learn(ja, wl['a'], **{k: v for k, v in out.items()})
		if not o.ok:
			return [unexpected(o, 'fit')]
		h = o.value
	if wl['text']:
		v = text_check(ja, w, h, 'out.txt')
		if v:
			return [v]
	import os
	if wl['prism'] and os.path.exists('out.prism') != (ref.TYPES[h.model_type] not in ('HMM', 'GoHMM')):
		return [Violation('prism', 'the Prism file was %swritten' % ('' if os.path.exists('out.prism') else 'not '))]
	if wl['prism'] and prismable(h):
		v = prism_check(ja, w, h, 'out.prism')
		if v:
			return [v]
	return []
