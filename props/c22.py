"""C22: a model is what its description says, or the description is refused."""
import math

import numpy as np

from sim import gen, ref
from sim.core import Violation, _Random
from sim.lib import call, changed, interrupt_after, plain, platform, state
from . import common

RUNS = {'quick': 6000, 'thorough': 200000}
LEVEL = 'exploration'
REAL = common.REAL
STUB = common.STUB+['hash seed (one per shard and one for the twin process)', 'Ctrl-C at a chosen executed line']
TWIN = True
ASSUMPTIONS = ['state IDs of a description are 0..n-1', 'every state occurs in a transition (possibly of probability zero)']
RULE = 'a history of creations from shared descriptions (transitions in any order, zero transitions given or not, initial state as number, list or array; create functions and constructors), of inconsistent descriptions, of new labels and names, of interrupted creations, and of questions about all models made so far, under two hash seeds. Non-trivial: a model was asked after another description was refused or another model was made or relabelled.'
KINDS = ['MC', 'MDP', 'HMM', 'GoHMM', 'CTMC', 'PCTMC']
WRONG = {'MC': ['label', 'few', 'row', 'initsum', 'initlen', 'noinit', 'count'], 'MDP': ['label', 'few', 'row', 'initsum', 'initlen', 'noinit', 'count'],
		 'CTMC': ['label', 'few', 'initlen', 'noinit', 'count'], 'PCTMC': ['label', 'few', 'noinit', 'count', 'unknown', 'indexes'],
		 'HMM': ['row', 'emission', 'initsum', 'initlen'], 'GoHMM': ['row', 'initsum', 'initlen', 'sigma', 'ragged']}


def generate(rng, i, tier):
	specs = []
	for _ in range(rng.choice([1, 1, 2])):
		t = rng.choice(KINDS)
		m = gen.rare(rng, gen.model(rng, t, smax=4, plain=True))
		n = ref.nstates(m)
		k = n if t in ('HMM', 'GoHMM') else n-1
		one = rng.random() < 0.5
		m['start'] = rng.randrange(k) if one else gen.dist(rng, k)
		m['form'] = rng.choice(['list', 'array'])
		m['zeros'] = rng.random() < 0.3
		m['order'] = rng.randrange(1 << 20)
		if t == 'CTMC' and rng.random() < 0.4:
			m['sync'] = [[rng.randrange(k), rng.choice('xy'), rng.randrange(k), 1.5] for _ in range(rng.randint(1, 2))]
		specs.append(m)
	ops = []
	for k in range(len(specs)):
		ops.append(['make', k, rng.choice(['create', 'create', 'class']), rng.randrange(1 << 20), None])
	for _ in range(rng.randint(3, 12)):
		x = rng.random()
		k = rng.randrange(8)
		cut = None if rng.random() < 0.9 else int(10**rng.uniform(0, 2.2))
		if x < 0.2:
			ops.append(['make', k % len(specs), rng.choice(['create', 'create', 'class']), rng.randrange(1 << 20), cut])
		elif x < 0.4:
			ops.append(['wrong', k % len(specs), rng.choice(WRONG[specs[k % len(specs)]['t']]), rng.randrange(1 << 20), cut])
		elif x < 0.55:
			ops.append(['label', k, rng.choice(['same', 'same', 'short', 'moved', 'noinit', 'wrong', 'several']), rng.randrange(1 << 20), cut])
		elif x < 0.62:
			ops.append(['rename', k, rng.choice(gen.NAMES), rng.randrange(1 << 20), None])
		else:
			ops.append(['ask', k, rng.randint(4, 16), rng.randrange(1 << 20), None])
	ops.append(['ask', rng.randrange(8), 25, rng.randrange(1 << 20), None])
	return {'env': gen.env(rng, gen.benign(rng)), 'specs': specs, 'ops': ops}


def shrink(wl):
	for i in range(len(wl['ops'])-1, -1, -1):
		yield dict(wl, ops=wl['ops'][:i]+wl['ops'][i+1:])


# ----------------------------------------------------------- descriptions ---
def start(m):
	if isinstance(m['start'], int):
		return m['start']
	return list(m['start']) if m['form'] == 'list' else np.array(m['start'])


def start_list(m, k):
	if isinstance(m['start'], int):
		return [1.0 if i == m['start'] else 0.0 for i in range(k)]
	return list(m['start'])


def text(parts):
	out = []
	for c, pw in parts:
		e = repr(float(c))
		for p in sorted(pw):
			e += '*'+p+('**'+str(pw[p]) if pw[p] != 1 else '')
		out.append(e)
	return '+'.join(out)


def describe(ja, m):
	"""(create function, its arguments, the spec of the model described)"""
	t = m['t']
	rng = _Random(m['order'])
	n = ref.nstates(m)
	name = m.get('name', 'm')
	if t in ('HMM', 'GoHMM'):
		tr = [(s, d, m['A'][s][d]) for s in range(n) for d in range(n) if m['A'][s][d] or m['zeros']]
		seen = set(x for a in tr for x in a[:2])
		tr += [(s, s, 0.0) for s in range(n) if s not in seen]
		rng.shuffle(tr)
		spec = {'t': t, 'A': m['A'], 'O': m['O'], 'init': start_list(m, n), 'name': name}
		if t == 'GoHMM':
			out = [[tuple(x) for x in s] for s in m['O']]
			return ja.createGoHMM, [tr, out, start(m), name], spec
		em = [(s, m['alphabet'][o], m['O'][s][o]) for s in range(n) for o in range(len(m['alphabet'])) if m['O'][s][o] or m['zeros']]
		rng.shuffle(em)
		al = [x for x in m['alphabet'] if any(x == e[1] for e in em)]
		keep = [m['alphabet'].index(x) for x in al]
		spec['O'] = [[r[k] for k in keep] for r in m['O']]
		spec['alphabet'] = al
		return ja.createHMM, [tr, em, start(m), name], spec
	k = n-1
	lab = m['labels'][:k]
	pi = start_list(m, k)
	spec = {'t': t, 'labels': lab+['init'], 'name': name}
	if t == 'MDP':
		tr = [(s, a, d, m['A'][s][i][d]) for s in range(k) for i, a in enumerate(m['actions']) for d in range(k) if m['A'][s][i][d] or m['zeros'] and rng.random() < 0.5]
		seen = set(x for a in tr for x in (a[0], a[2]))
		tr += [(s, m['actions'][0], s, 0.0) for s in range(k) if s not in seen]
		rng.shuffle(tr)
		acts = sorted(set(x[1] for x in tr))
		A = [[[0.0]*n for _ in acts] for _ in range(n)]
		for s, a, d, p in tr:
			A[s][acts.index(a)][d] = p
		A[k] = [pi+[0.0] for _ in acts]
		spec.update(A=A, actions=acts)
		return ja.createMDP, [tr, lab, start(m), name], spec
	if t == 'PCTMC':
		parts = {}
		for s, d, c, pw in m['trans']:
			if s < k and d < k:
				parts.setdefault((s, d), []).append((c, pw))
		tr = []
		for (s, d), x in parts.items():
			plainnum = len(x) == 1 and not x[0][1]
			tr.append((s, d, float(x[0][0]) if plainnum and rng.random() < 0.7 else text(x)))
		seen = set(x for a in tr for x in a[:2])
		tr += [(s, s, 0.0) for s in range(k) if s not in seen]
		rng.shuffle(tr)
		values = {p: v for p, v in m['values'].items()}
		spec.update(params=list(m['params']), values=values,
					trans=[[s, d, c, pw] for s, d, c, pw in m['trans'] if s < k and d < k]+[[k, i, p, {}] for i, p in enumerate(pi) if p])
		return ja.createPCTMC, [tr, lab, list(m['params']), start(m), dict(values)], dict(spec)
	tr = [(s, d, m['A'][s][d]) for s in range(k) for d in range(k) if m['A'][s][d] or m['zeros']]
	seen = set(x for a in tr for x in a[:2])
	tr += [(s, s, 0.0) for s in range(k) if s not in seen]
	rng.shuffle(tr)
	spec['A'] = [list(m['A'][s][:k])+[0.0] for s in range(k)]+[pi+[0.0]]
	args = [tr, lab, start(m), name]
	if m.get('sync'):
		args.append([tuple(x) for x in m['sync']])
	return getattr(ja, 'create'+t), args, spec


def made(ja, fn, args, spec):
	"""create functions take the name last in PCTMC"""
	if spec['t'] == 'PCTMC':
		return fn(*args, name=spec['name'])
	return fn(*args)


def from_class(ja, spec):
	return ref.build(ja, spec)


# --------------------------------------------------- wrong descriptions ---
def broken(ja, m, how, rng):
	"""a callable that gives jajapy an inconsistent description, or None"""
	fn, a, spec = describe(ja, m)
	t = m['t']
	n = ref.nstates(spec)
	if how == 'label':
		a[1] = list(a[1])
		a[1][rng.randrange(len(a[1]))] = 'init'
	elif how == 'few':
		a[1] = a[1][:-rng.randint(1, len(a[1]))]
	elif how == 'row':
		full = [x[:-1] for x in a[0] if x[-1] > 0.0]
		src = rng.choice(full)
		same = (lambda x: x[:2] == src[:2]) if t == 'MDP' else (lambda x: x[0] == src[0])
		f = rng.choice([0.5, 0.9, 1.05, 1.5])
		a[0] = [x[:-1]+(x[-1]*f,) if same(x) else x for x in a[0]]
	elif how == 'emission':
		s = rng.choice(a[1])[0]
		f = rng.choice([0.5, 0.9, 1.05])
		a[1] = [(x[0], x[1], x[2]*f) if x[0] == s else x for x in a[1]]
	elif how in ('initsum', 'initlen'):
		k = n if t in ('HMM', 'GoHMM') else n-1
		p = start_list(m, k)
		if how == 'initsum':
			f = rng.choice([0.4, 0.7, 0.9, 1.1, 1.4, 1.7])
			p = [x*f for x in p]
		elif rng.random() < 0.5:
			p = p+[0.0]
		else:
			p = [0.5, 0.5]+[0.0]*(k+1) if k < 2 else [1.0]+[0.0]*(k-2)
		a[3 if t == 'PCTMC' else 2] = p if rng.random() < 0.5 else np.array(p)
	elif how == 'sigma':
		s = rng.randrange(n)
		d = rng.randrange(len(a[1][s]))
		a[1][s][d] = (a[1][s][d][0], -0.5)
	elif how == 'ragged':
		if n < 2:
			return None
		s = rng.randrange(n)
		a[1] = [x+[(0.0, 1.0)] if i == s else x for i, x in enumerate(a[1])]
	elif how == 'unknown':
		s = rng.choice(a[0])
		a[0] = [x for x in a[0] if x is not s]+[(s[0], s[1], '2.0*unknown_one')]
	elif how in ('noinit', 'count', 'indexes'):
		h = ref.build(ja, spec)
		lab = list(spec['labels'])
		if how == 'noinit':
			lab[-1] = lab[0]
		elif how == 'count':
			lab = lab+['x'] if rng.random() < 0.5 else lab[1:] if len(lab) > 1 else lab+['x']
		if t in ('MC', 'CTMC'):
			return lambda: getattr(ja, t)(h.matrix.copy(), lab)
		if t == 'MDP':
			return lambda: ja.MDP(h.matrix.copy(), lab, list(h.actions))
		idx = [list(x) for x in h.parameter_indexes]
		if how == 'indexes':
			idx = idx+[[]]
		return lambda: ja.PCTMC(h.matrix.copy(), lab, list(h.transition_expr), dict(spec['values']), idx, list(spec['params']))
	return lambda: made(ja, fn, a, spec)


# ------------------------------------------------------------- questions ---
def phi(x, mu, sd):
	return math.exp(-0.5*((x-mu)/sd)**2)/(sd*math.sqrt(2*math.pi))


def question(h, spec, rng):
	"""(text, function, expected answer)"""
	t = spec['t']
	n = ref.nstates(spec)
	s, d = rng.randrange(n), rng.randrange(n)
	q = []
	pi = ref.pi(spec)
	q.append(('pi(%d)' % s, lambda: h.pi(s), float(pi[s])))
	if t in ('HMM', 'GoHMM'):
		q.append(('a(%d,%d)' % (s, d), lambda: h.a(s, d), spec['A'][s][d]))
		if t == 'HMM':
			o = rng.choice(spec['alphabet']+['no such thing'])
			b = spec['O'][s][spec['alphabet'].index(o)] if o in spec['alphabet'] else 0.0
			q.append(('getAlphabet()', lambda: sorted(h.getAlphabet()), sorted(spec['alphabet'])))
			q.append(('getAlphabet(%d)' % s, lambda: sorted(h.getAlphabet(s)), sorted(x for x, p in zip(spec['alphabet'], spec['O'][s]) if p > 0.0)))
		else:
			o = [round(rng.uniform(-4, 4), 3) for _ in spec['O'][s]]
			k = rng.randrange(len(o))
			if rng.random() < 0.2:
				o = [o[0] for _ in o]
			if rng.random() < 0.2:
				o[k] = spec['O'][s][k][0]
			b = 1.0
			for x, (mu, sd) in zip(o, spec['O'][s]):
				b *= phi(x, mu, sd)
			q.append(('b_n(%d,%d,%r)' % (s, k, o[k]), lambda: h.b_n(s, k, o[k]), phi(o[k], *spec['O'][s][k])))
			q.append(('mu_n(%d,%d)' % (s, k), lambda: h.mu_n(s, k), spec['O'][s][k][0]))
			q.append(('mu(%d)' % s, lambda: list(h.mu(s)), [x[0] for x in spec['O'][s]]))
		q.append(('b(%d,%r)' % (s, o), lambda: h.b(s, o), b))
		q.append(('tau(%d,%d,%r)' % (s, d, o), lambda: h.tau(s, d, o), b*spec['A'][s][d]))
		return rng.choice(q)
	lab = spec['labels']
	o = lab[s] if rng.random() < 0.7 else rng.choice(lab+['no such label'])
	here = float(lab[s] == o)
	q.append(('getLabel(%d)' % s, lambda: h.getLabel(s), lab[s]))
	q.append(('b(%d,%r)' % (s, o), lambda: h.b(s, o), here))
	q.append(('getAlphabet()', lambda: sorted(h.getAlphabet()), sorted(set(lab))))
	if t == 'MDP':
		i = rng.randrange(len(spec['actions']))
		a = spec['actions'][i]
		p = spec['A'][s][i][d]
		q.append(('a(%d,%d,%r)' % (s, d, a), lambda: h.a(s, d, a), p))
		q.append(('tau(%d,%r,%d,%r)' % (s, a, d, o), lambda: h.tau(s, a, d, o), p*here))
		q.append(('tau(%d,%r,%d,%r)' % (s, 'no such action', d, o), lambda: h.tau(s, 'no such action', d, o), 0.0))
		q.append(('getActions()', lambda: sorted(h.getActions()), sorted(spec['actions'])))
		q.append(('getActions(%d)' % s, lambda: sorted(h.getActions(s)), sorted(x for k, x in enumerate(spec['actions']) if sum(spec['A'][s][k]) > 0.0)))
		return rng.choice(q)
	R = np.array(ref.matrix(spec), dtype=float)
	if t == 'MC':
		q.append(('a(%d,%d)' % (s, d), lambda: h.a(s, d), R[s, d]))
		q.append(('tau(%d,%d,%r)' % (s, d, o), lambda: h.tau(s, d, o), R[s, d]*here))
		return rng.choice(q)
	e = float(R[s].sum())
	x = rng.choice([0.0, 0.3, 2.5, -1.0, round(rng.uniform(0, 5), 3)])
	q.append(('e(%d)' % s, lambda: h.e(s), e))
	q.append(('l(%d,%d,%r)' % (s, d, o), lambda: h.l(s, d, o), R[s, d]*here))
	q.append(('lkl(%d,%r)' % (s, x), lambda: h.lkl(s, x), e*math.exp(-e*x) if x >= 0 else 0.0))
	if e > 0:
		q.append(('tau(%d,%d,%r)' % (s, d, o), lambda: h.tau(s, d, o), R[s, d]/e*here))
		q.append(('expected_time(%d)' % s, lambda: h.expected_time(s), 1/e))
	if t == 'CTMC' and spec.get('sync') is not None:
		q.append(('synchronous_transitions', lambda: sorted(tuple(z) for z in h.synchronous_transitions), sorted(tuple(z) for z in spec['sync'])))
	return rng.choice(q)


def equal(a, b):
	if isinstance(b, list):
		return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
	if isinstance(b, float):
		try:
			return abs(float(a)-b) <= 1e-9*max(1.0, abs(b))
		except (TypeError, ValueError):
			return False
	return a == b


def execute(ja, wl, w):
	given = [describe(ja, m) for m in wl['specs']]
	given0 = [plain(g[1]) for g in given]
	live = []          # [model, its spec]
	busy = False
	for op in wl['ops']:
		w.ops += 1
		kind, k, what, seed, cut = op
		rng = _Random(seed)
		before = [state(h) for h, _ in live]
		target = None
		if kind == 'make':
			fn, args, spec = given[k]
			spec = dict(spec)
			if wl['specs'][k].get('sync'):
				spec['sync'] = wl['specs'][k]['sync'] if what == 'create' else []
			with interrupt_after(w, cut):
				o = call(made, ja, fn, args, spec) if what == 'create' else call(from_class, ja, spec)
			if o.ok:
				m = ref.differ(ref.spec_view(spec), ref.view(o.value), rtol=1e-9, atol=1e-12, name=True)
				if m:
					return [Violation('description', '%s of %s gives another model: %s' % (what, spec['t'], m))]
				live.append([o.value, spec])
				busy = len(live) > 1
			elif cut is None or o.kind != 'interrupt':
				return [Violation('refused', '%s of a consistent %s: %r' % (what, spec['t'], o))]
			w.event('make', k, what, o.ok)
		elif kind == 'wrong':
			f = broken(ja, wl['specs'][k], what, rng)
			if f is None:
				continue
			with interrupt_after(w, cut):
				o = call(f)
			if o.ok:
				return [Violation('accepted:'+what, 'a %s whose description is inconsistent (%s) is created: %s' % (wl['specs'][k]['t'], what, str(state(o.value))[:300]))]
			w.tags['inconsistent description'] = w.tags.get('inconsistent description', 0)+1
			busy = True
			w.event('wrong', k, what, o.kind)
		elif not live:
			continue
		elif kind == 'rename':
			h, spec = live[k % len(live)]
			target = k % len(live)
			o = call(h.rename, what)
			if not o.ok or h.name != what:
				return [Violation('rename', '%r, name %r' % (o, h.name))]
			spec['name'] = what
			m = changed({x: y for x, y in before[target].items() if x != 'name'}, state(h))
			if m:
				return [Violation('rename', 'renaming changed more: '+m)]
		elif kind == 'label':
			h, spec = live[k % len(live)]
			if 'labels' not in spec or spec['t'] == 'PCTMC':
				continue
			target = k % len(live)
			lab = [rng.choice(['u', 'v', 'w', 'x']) if l != 'init' else l for l in spec['labels']]
			new = list(lab)
			if what == 'short':
				if new[-1] != 'init' or 'init' in new[:-1]:
					continue
				new = new[:-1]
			elif what == 'noinit':
				new = ['u' if l == 'init' else l for l in new]
			elif what == 'wrong':
				new = new+['u', 'v'] if rng.random() < 0.5 else ['init']*max(0, len(new)-2)
			elif what in ('moved', 'several'):
				if what == 'moved':
					new = ['u' if l == 'init' else l for l in new]
				new[rng.randrange(len(new))] = 'init'
			arg = list(new)
			with interrupt_after(w, cut):
				o = call(h.updateLabelling, arg)
			if arg != new:
				return [Violation('arguments', 'updateLabelling changed the list it was given: %r / %r' % (arg, new))]
			if cut is not None and o.kind == 'interrupt':
				live.pop(target)     # neither the old nor the new labels are promised
				continue
			if what in ('noinit', 'wrong'):
				m = changed(before[target], state(h))
				if m:
					return [Violation('labels', 'refused labels %r (of %r) changed the model: %s' % (new, spec['labels'], m))]
			else:
				if not o.ok:
					return [Violation('labels', 'new labels %r: %r' % (new, o))]
				live[target][1] = spec = dict(spec, labels=new if len(new) == len(spec['labels']) else new+['init'])
				m = ref.differ(ref.spec_view(spec), ref.view(h), rtol=1e-9, atol=1e-12, name=True)
				if m:
					return [Violation('labels', 'after updateLabelling(%r): %s' % (new, m))]
				if sorted(h.getAlphabet()) != sorted(set(spec['labels'])):
					return [Violation('labels', 'after updateLabelling(%r) the alphabet is %r' % (new, h.getAlphabet()))]
			busy = True
			w.event('label', what, o.ok)
		elif kind == 'ask':
			h, spec = live[k % len(live)]
			for _ in range(what):
				txt, f, want = question(h, spec, rng)
				o = call(f)
				if not o.ok or not equal(o.value, want):
					return [Violation('answer', '%s of a %s: %r, described as %r' % (txt, spec['t'], o if not o.ok else o.value, want))]
			if busy:
				w.nontrivial = True
			w.event('ask', what)
		now = [state(h) for h, _ in live[:len(before)]] if kind != 'label' else None
		if now is not None:
			for j, b in enumerate(before):
				if j != target:
					m = changed(b, now[j])
					if m:
						return [Violation('effect', '%s (%s) changed another model: %s' % (kind, what, m))]
		for g, g0 in zip(given, given0):
			if repr(plain(g[1])) != repr(g0):
				return [Violation('arguments', '%s (%s) changed the description it was given: %s / %s' % (kind, what, str(plain(g[1]))[:300], str(g0)[:300]))]
	# as it is now, every model still is what its description says
	for h, spec in live:
		m = ref.differ(ref.spec_view(spec), ref.view(h), rtol=1e-9, atol=1e-12, name=True)
		if m:
			return [Violation('description', 'at the end: '+m)]
	w.observe = [len(live)]+[sorted(state(h)['alphabet']) if 'alphabet' in state(h) else [] for h, _ in live]
	return []
