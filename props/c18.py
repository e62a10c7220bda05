"""C18: a model means the same in stormpy as in jajapy."""
import numpy as np

from sim import gen, ref
from sim.core import Violation, _Random
from sim.lib import call, changed, interrupt_after, state, unexpected
from . import common, fitlib

RUNS = {'quick': 12000, 'thorough': 300000}
LEVEL = 'exploration'
REAL = common.REAL+['stormpy 1.10.1: sparse models, Prism parser and builder, model checker', 'files in a scratch directory']
STUB = common.STUB+['os.system (clearing the terminal)', 'hash seed (one per shard and one for the twin process)', 'Ctrl-C at a chosen executed line']
TWIN = True
ASSUMPTIONS = ['the numbers of storm\'s model checker are compared up to 1e-5', 'converted models keep no name', 'a state without an available action keeps all its (empty) choices']
RULE = 'random models (unavailable actions, several initial states, label characters) converted to stormpy and back in a history with changes of either side and interruptions, their reachability probabilities computed by storm and by the reference; Prism programs (multi-labelled and unlabelled states, several commands per state, repeated and missing action names, undefined constants) loaded and compared with their meaning; learning from and to stormpy models. Non-trivial: a converted or loaded model was compared.'


def generate(rng, i, tier):
	kind = rng.choice(['convert', 'convert', 'convert', 'prism', 'prism', 'learn', 'alergia'])
	wl = {'env': dict(gen.env(rng, linux=0.9), twin=rng.random() < 0.2), 'kind': kind}
	if kind == 'convert':
		t = rng.choice(['MC', 'MDP', 'MDP', 'CTMC', 'PCTMC', 'bad'])
		if t == 'bad':
			t = rng.choice(['HMM', 'GoHMM', 'open'])
			wl['bad'] = True
		m = gen.rare(rng, gen.model(rng, 'PCTMC' if t == 'open' else t, absorbing=True))
		if t == 'open':
			m['values'] = {p: v for p, v in m['values'].items() if p != m['params'][0]}
		wl['spec'] = m
		wl['ops'] = [rng.choice(['to', 'to', 'change', 'back', 'back', 'names', 'check', 'check', 'interrupt']) for _ in range(rng.randint(2, 7))]
		wl['at'] = rng.randint(1, 60)
		wl['time'] = round(rng.uniform(0.1, 3), 2)
		wl['perm'] = rng.random() < 0.5
	elif kind == 'prism':
		wl['prog'] = program(rng)
	elif kind == 'learn':
		while True:
			p = fitlib.gen_problem(rng, types=['MC', 'MDP', 'CTMC', 'PCTMC'], max_rounds=2, nseq=rng.choice([1, 2, 4]), maxlen=4, smax=4)
			if p['spec']['labels'].count('init') == 1:
				break
		p.pop('fixed', None)
		wl['p'] = p
		wl['start'] = p['spec']['t'] != 'PCTMC' and rng.random() < 0.5
		wl['data'] = rng.random() < 0.5
	else:
		from .c20 import generate as g
		wl['a'] = g(rng, i, tier)
	return wl


# ------------------------------------------------------------ Prism programs
def program(rng):
	t = rng.choice(['dtmc', 'ctmc', 'mdp', 'mdp', 'pctmc'])
	n = rng.randint(2, 6)
	acts = rng.choice([['go', 'stop'], ['b', 'a', 'c'], ['only'], []])
	naming = rng.choice(['all', 'all', 'some', 'none', 'twice'])
	states = []
	for s in range(n):
		cmds = []
		k = rng.randint(1, 3) if t != 'dtmc' else 1
		if t == 'mdp':
			names = rng.sample(acts, min(k, len(acts))) if acts and naming != 'none' else []
			if naming == 'some' and names:
				names[rng.randrange(len(names))] = ''
			if naming == 'twice' and names and len(names) < 3:
				names.append(names[0])
			for a in names or ['']*k:
				cmds.append([a, branch(rng, n)])
		elif t == 'dtmc':
			cmds.append(['', branch(rng, n)])
		else:
			for _ in range(k):
				cmds.append(['', [[rng.choice(['p', 'q', 'p*q', '2*p', 'p+q', round(rng.uniform(0.1, 4), 2)]) if t == 'pctmc' else round(rng.uniform(0.1, 4), 2), d] for d in rng.sample(range(n), rng.randint(1, min(2, n)))]])
		states.append(cmds)
	if t == 'pctmc' and not any('p' in str(r) or 'q' in str(r) for c in states for x in c for r, _ in x[1]):
		states[0] = [['', [['p', 1]]]]
	labels = {}
	for l in rng.sample(['alpha', 'beta_1', 'x', 'zz'], rng.randint(0, 3)):
		labels[l] = sorted(rng.sample(range(n), rng.randint(1, n)))
	unique = rng.random() < 0.7
	if unique:
		for s in range(n):
			labels['s%d' % s] = [s]
		if rng.random() < 0.3:       # the initial state has no label
			labels = {l: [s for s in labels[l] if s != 0] for l in labels}
			labels = {l: v for l, v in labels.items() if v}
	order = sorted(labels, key=lambda l: rng.random())
	return {'t': t, 'n': n, 'states': states, 'labels': labels, 'order': order, 'unique': unique, 'values': {'p': round(rng.uniform(0.3, 2), 2), 'q': round(rng.uniform(0.3, 2), 2)}}


def branch(rng, n):
	k = rng.randint(1, min(3, n))
	w = [rng.randint(1, 4) for _ in range(k)]
	return [[x/sum(w), d] for x, d in zip(w, rng.sample(range(n), k))]


def source(p):
	out = [{'pctmc': 'ctmc'}.get(p['t'], p['t']), '']
	if p['t'] == 'pctmc':
		out += ['const double p;', 'const double q;', '']
	out += ['module m1', '\ts : [0..%d] init 0;' % (p['n']-1), '']
	for s, cmds in enumerate(p['states']):
		for a, br in cmds:
			out.append('\t[%s] s=%d -> %s;' % (a, s, ' + '.join('%s : (s\'=%d)' % (repr(r) if isinstance(r, float) else r, d) for r, d in br)))
	out += ['endmodule', '']
	for l in p['order']:
		out.append('label "%s" = %s;' % (l, ' | '.join('s=%d' % s for s in p['labels'][l])))
	return '\n'.join(out)+'\n'


def meaning(p):
	"""state label -> list of (action, {successor label: value}); the first state"""
	def lab(s):
		ls = sorted(l for l in p['labels'] if s in p['labels'][l])
		return '_'.join(ls)
	seen, todo = [], [0]
	while todo:
		s = todo.pop()
		if s in seen:
			continue
		seen.append(s)
		todo += [d for _, br in p['states'][s] for _, d in br]
	env = dict(p['values'])
	out = {}
	for s in seen:
		rows = []
		for a, br in p['states'][s]:
			d = {}
			for r, x in br:
				v = r if isinstance(r, float) else eval(r, {}, env)
				d[x] = d.get(x, 0.0)+v
			rows.append((a, d))
		if p['t'] in ('ctmc', 'pctmc'):
			d = {}
			for _, y in rows:
				for k, v in y.items():
					d[k] = d.get(k, 0.0)+v
			rows = [('', d)]
		out[s] = rows
	return out, lab


def prism(ja, wl, w):
	p = wl['prog']
	with open('prog.sm', 'w') as f:
		f.write(source(p))
	o = call(ja.loadPrism, 'prog.sm')
	w.ops += 1
	if not o.ok:
		return unexpected(o, 'loadPrism')
	h = o.value
	t = {'dtmc': 'MC', 'mdp': 'MDP', 'ctmc': 'CTMC', 'pctmc': 'PCTMC'}[p['t']]
	want, lab = meaning(p)
	if ref.TYPES[h.model_type] != t:
		if t == 'PCTMC' and ref.TYPES[h.model_type] == 'CTMC' and not any(isinstance(r, str) for s in want for _, br in p['states'][s] for r, _ in br):
			t = 'CTMC'
		else:
			return Violation('prism', 'a %s is loaded as %s' % (p['t'], ref.TYPES[h.model_type]))
	if t == 'PCTMC':
		ps = sorted(h.parameter_str)
		used = sorted(x for x in ('p', 'q') if any(isinstance(r, str) and x in r for s in want for _, br in p['states'][s] for r, _ in br))
		if ps != used:
			return Violation('prism', 'parameters %s instead of %s' % (ps, used))
		o = call(h.instantiate, ps, [p['values'][x] for x in ps])
		if not o.ok or not o.value:
			return Violation('prism', 'instantiate: %s' % o)
		from .c21 import indexes
		m = indexes(h)
		if m:
			return Violation('indexes', m)
	v = ref.view(h)
	w.tags['prism '+t] = 1
	w.nontrivial = True
	L = v['labels']
	if t == 'MDP':
		w.observe = {'actions': v['actions'], 'A': v['A'].tolist(), 'labels': L}
	if not p['unique'] or not lab(0) and len([s for s in want if not lab(s)]) > 1:
		# several states with the same labels: compare what can be observed
		spec = flat(p, want, lab, t)
		got = {'t': t if t != 'PCTMC' else 'CTMC', 'A': v['A'], 'labels': L, 'name': ''}
		if t == 'MDP':
			return multiset(spec, v, lab(0))
		rng = _Random(w.seed)
		for k in range(10):
			tr = ref.sample(spec if k % 2 else got, rng, rng.randint(1, 5), t != 'MC')
			a, b = float(ref.prob(spec, tr)), float(ref.prob(got, tr))
			if not ref.close(a, b, 1e-8, 1e-30):
				return Violation('prism', 'the trace %r has probability %.12g instead of %.12g' % (tr, b, a))
		return None
	first = lab(0)
	names = [(lab(s) if s or first else 'init') for s in want]
	if sorted(names+(['init'] if first else [])) != sorted(L):
		return Violation('prism', 'labels %s instead of %s' % (sorted(L), sorted(names+(['init'] if first else []))))
	at = {s: L.index(nm) for s, nm in zip(want, names)}
	A = v['A']
	if first:
		row = np.zeros(len(L))
		row[at[0]] = 1.0
		rows = [A[L.index('init')]] if t != 'MDP' else list(A[L.index('init')])
		if any(not ref.close(r, row, 1e-12, 0) for r in rows):
			return Violation('prism', 'the initial state does not lead to the first state')
	if v['pi'][L.index('init')] != 1.0:
		return Violation('prism', 'initial distribution %s' % v['pi'].tolist())
	acts = sorted(set(a for s in want for a, _ in want[s]))
	named = t == 'MDP' and all(a for a in acts) and all(len(set(a for a, _ in want[s])) == len(want[s]) for s in want)
	if named and sorted(v['actions']) != acts:
		return Violation('prism', 'actions %s instead of %s' % (v['actions'], acts))
	for s in want:
		rows = []
		for a, d in want[s]:
			r = np.zeros(len(L))
			for k, x in d.items():
				r[at[k]] += x
			rows.append((a, r))
		if t != 'MDP':
			got = [('', A[at[s]])]
		else:
			got = [(v['actions'][k], A[at[s]][k]) for k in range(len(v['actions'])) if A[at[s]][k].sum() > 0]
		if len(got) != len(rows):
			return Violation('prism', 'state %s has %d choices instead of %d' % (names[s] if s < len(names) else s, len(got), len(rows)))
		if named:
			for a, r in rows:
				if not any(a == b and ref.close(r, x, 1e-9, 0) for b, x in got):
					return Violation('prism', 'state %d, action %s: %s instead of %s' % (s, a, [x.tolist() for b, x in got if b == a], r.tolist()))
		else:
			x = sorted(tuple(np.round(np.array(r, dtype=float), 9)) for _, r in rows)
			y = sorted(tuple(np.round(np.array(r, dtype=float), 9)) for _, r in got)
			if len(x) != len(y) or not ref.close(np.array(x), np.array(y), 1e-6, 1e-8):
				return Violation('prism', 'state %d: %s instead of %s' % (s, y, x))
	return None


def flat(p, want, lab, t):
	ids = list(want)
	n = len(ids)
	first = lab(0)
	L = [lab(s) or 'empty' for s in ids]
	if first:
		L.append('init')
	else:
		L[ids.index(0)] = 'init'
	N = len(L)
	if t == 'MDP':
		return {'t': t, 'labels': L, 'rows': sorted((L[ids.index(s)], sorted(round(x, 6) for x in d.values())) for s in ids for _, d in want[s])}
	A = np.zeros((N, N))
	for s in ids:
		for _, d in want[s]:
			for k, x in d.items():
				A[ids.index(s), ids.index(k)] += x
	if first:
		A[n, ids.index(0)] = 1.0
	return {'t': t if t != 'PCTMC' else 'CTMC', 'A': A, 'labels': L, 'name': ''}


def multiset(spec, v, first):
	if sorted(spec['labels']) != sorted(v['labels']):
		return Violation('prism', 'labels %s instead of %s' % (sorted(v['labels']), sorted(spec['labels'])))
	rows = []
	for s in range(len(v['labels'])):
		if first and s == v['labels'].index('init'):
			continue
		for k in range(len(v['actions'])):
			if v['A'][s][k].sum() > 0:
				rows.append((v['labels'][s], sorted(round(float(x), 6) for x in v['A'][s][k] if x > 0)))
	if sorted(rows) != spec['rows']:
		return Violation('prism', 'choices %s instead of %s' % (sorted(rows), spec['rows']))
	return None


# ------------------------------------------------------------- conversions
def content(s):
	"""what a stormpy model contains"""
	out = []
	for i, st in enumerate(s.states):
		row = []
		for a in st.actions:
			row.append([sorted(a.labels) if s.has_choice_labeling() else [], {int(t.column): float(t.value()) for t in a.transitions}])
		out.append([sorted(set(st.labels)-{'deadlock'}), row])
	return out


def storm_is(s, h, spec, st):
	"""None or how the stormpy model differs from the jajapy model"""
	t = spec['t']
	kinds = {'MC': st.SparseDtmc, 'MDP': st.SparseMdp, 'CTMC': st.SparseCtmc, 'PCTMC': st.SparseCtmc}
	if type(s) is not kinds[t]:
		return 'a %s became a %s' % (t, type(s).__name__)
	c = content(s)
	A = np.array(ref.matrix(spec), dtype=float)
	if len(c) != len(spec['labels']):
		return '%d states instead of %d' % (len(c), len(spec['labels']))
	if sorted(int(x) for x in s.initial_states) != [i for i, l in enumerate(spec['labels']) if l == 'init']:
		return 'initial states %s' % list(s.initial_states)
	for i, (ls, row) in enumerate(c):
		if ls != [spec['labels'][i]]:
			return 'state %d is labelled %s instead of %s' % (i, ls, spec['labels'][i])
		if t == 'MDP':
			av = [k for k in range(len(spec['actions'])) if A[i, k].sum() > 0]
			want = [([spec['actions'][k]], A[i, k]) for k in av] or [([a], np.zeros(len(A))) for a in spec['actions']]
			if sorted(x[0] for x in row) != sorted(x[0] for x in want):
				return 'choices of state %d are %s instead of %s' % (i, [x[0] for x in row], [x[0] for x in want])
		else:
			want = [([], A[i])]
		for a, r in want:
			got = next((x[1] for x in row if t != 'MDP' or x[0] == a), {})
			r2 = np.zeros(len(A))
			for k, v in got.items():
				r2[k] = v
			if not ref.close(r, r2, 1e-12, 1e-15):
				return 'state %d %s: %s instead of %s' % (i, a, r2.tolist(), r.tolist())
		if t in ('CTMC', 'PCTMC') and not ref.close(float(s.exit_rates[i]), A[i].sum(), 1e-9, 1e-12):
			return 'exit rate of state %d is %r instead of %r' % (i, s.exit_rates[i], A[i].sum())
	return None


def reach(spec, target, goal, time):
	"""probability to reach a state labelled target, per state"""
	A = np.array(ref.matrix(spec), dtype=float)
	n = len(A)
	T = np.array([l == target for l in spec['labels']])
	if spec['t'] in ('CTMC', 'PCTMC'):
		from scipy.linalg import expm
		Q = A.copy()
		for i in range(n):
			Q[i, i] -= A[i].sum()
		Q[T] = 0
		return expm(Q*time) @ T.astype(float)
	if A[A > 0].min(initial=1.0) < 1e-3:
		return None    # iterative model checkers stop before such a step counts
	x = T.astype(float)
	for _ in range(500):
		if spec['t'] == 'MC':
			y = A @ x
		else:
			y = np.zeros(n)
			for i in range(n):
				av = [A[i, k] @ x for k in range(A.shape[1]) if A[i, k].sum() > 0]
				y[i] = (max(av) if goal == 'max' else min(av)) if av else 0.0
		y[T] = 1.0
		if np.abs(y-x).max() < 1e-13:
			return y
		x = y
	return None        # iterative model checkers are imprecise here too


def checkable(spec):
	import re
	A = np.array(ref.matrix(spec), dtype=float)
	if spec['t'] == 'MDP':
		return bool(np.all((A.sum(axis=2) > 0).any(axis=1)))
	return bool(np.all(A.sum(axis=1) > 0)) and all(re.fullmatch('[A-Za-z_][A-Za-z0-9_]*', l) for l in spec['labels'])


def check(st, s, spec, wl):
	import re
	if not checkable(spec) or not all(re.fullmatch('[A-Za-z_][A-Za-z0-9_]*', l) for l in spec['labels']):
		return None
	for target in sorted(set(spec['labels'])-{'init'})[:2]:
		for goal in ('min', 'max') if spec['t'] == 'MDP' else ('',):
			timed = spec['t'] in ('CTMC', 'PCTMC')
			f = 'P%s=? [F%s "%s"]' % (goal, '<=%s' % wl['time'] if timed else '', target)
			want = reach(spec, target, goal, wl['time'])
			if want is None:
				continue
			r = st.check_model_sparse(s, st.parse_properties(f)[0])
			for i in [int(x) for x in s.initial_states]:
				if abs(r.at(i)-want[i]) > 1e-5*(5 if spec['t'] == 'MDP' else 1):
					return '%s is %.9g in storm and %.9g in the model' % (f, r.at(i), want[i])
	return None


def convert(ja, wl, w):
	import stormpy as st
	spec = wl['spec']
	h = ref.build(ja, spec)
	if wl.get('bad'):
		o = call(ja.jajapyModeltoStormpy, h)
		w.nontrivial = True
		if o.ok:
			return Violation('bad', 'a %s has been converted to %s' % (spec['t'], type(o.value).__name__))
		if o.kind not in ('TypeError', 'ValueError'):
			return Violation('error:convert', str(o))
		return None
	spec = dict(spec)
	s = None
	obs = []
	for op in wl['ops']:
		w.ops += 1
		before = state(h)
		if op in ('to', 'interrupt') or s is None:
			f = (lambda: h.toStormpy()) if w.ops % 2 else lambda: ja.jajapyModeltoStormpy(h)
			with interrupt_after(w, wl['at'] if op == 'interrupt' else None):
				o = call(f)
			if not o.ok and o.kind != 'interrupt':
				return unexpected(o, 'toStormpy')
			if o.ok:
				s = o.value
				was = dict(spec)
				m = storm_is(s, h, spec, st)
				if m:
					return Violation('to-stormpy', m)
				w.nontrivial = True
				w.tags['to '+spec['t']] = w.tags.get('to '+spec['t'], 0)+1
		elif op == 'change':
			# the two representations are independent
			if spec['t'] == 'PCTMC':
				v = {p: x*1.5 for p, x in spec['values'].items()}
				o = call(h.instantiate, list(v), list(v.values()))
				if not o.ok or not o.value:
					return Violation('instantiate', str(o))
				spec['values'] = v
			elif spec['t'] == 'CTMC':
				h.matrix *= 2.0
				spec['A'] = (np.array(spec['A'])*2.0).tolist()
			else:
				# exchange two states' rows
				A = np.array(spec['A'])
				i = [k for k, l in enumerate(spec['labels']) if l != 'init']
				if len(i) > 1:
					A[[i[0], i[1]]] = A[[i[1], i[0]]]
					h.matrix[[i[0], i[1]]] = h.matrix[[i[1], i[0]]]
				spec['A'] = A.tolist()
			before = state(h)
			m = storm_is(s, h, was, st)
			if m:
				return Violation('shared', 'changing the jajapy model changed the stormpy model: '+m)
		elif op in ('back', 'names'):
			c = content(s)
			names = None
			if op == 'names' and spec['t'] == 'MDP':
				names = list(spec['actions'])
			o = call(ja.stormpyModeltoJajapy, s, names) if names is not None else call(ja.stormpyModeltoJajapy, s)
			if not o.ok:
				return unexpected(o, 'stormpyModeltoJajapy')
			g = o.value
			v, want = ref.view(g), ref.spec_view(was)
			if want['t'] == 'PCTMC':
				want = dict(want, t='CTMC')
				for k in ('values', 'params'):
					want.pop(k, None)
			if want['t'] == 'MDP':
				# actions that are nowhere available are not in the file
				A = want['A']
				dead = all((A[i].sum() > 0) for i in range(len(A)))
				used = [a for k, a in enumerate(want['actions']) if A[:, k].sum() > 0]
				if not set(used) <= set(v['actions']):
					return Violation('to-jajapy', 'actions %s instead of %s' % (v['actions'], used))
				if names is not None and v['actions'] != names:
					return Violation('to-jajapy', 'actions %s instead of the given %s' % (v['actions'], names))
				keep = [a for a in want['actions'] if a in v['actions']]
				want['A'] = A[:, [want['actions'].index(a) for a in keep]]
				want['actions'] = keep
				v['A'] = v['A'][:, [v['actions'].index(a) for a in keep]]
				obs.append(list(v['actions']))
				v['actions'] = keep
			m = ref.differ(v, want, 1e-12, 1e-15)
			if m:
				return Violation('to-jajapy', m)
			g.matrix[:] = 0
			g.labelling[0] = '?'
			if content(s) != c:
				return Violation('shared', 'changing the jajapy model changed the stormpy model')
			w.tags['back'] = w.tags.get('back', 0)+1
		elif op == 'check':
			m = check(st, s, was, wl)
			if m:
				return Violation('model-checking', m)
			w.tags['model checking'] = w.tags.get('model checking', 0)+1
		m = changed(before, state(h))
		if m:
			return Violation('operand', '%s changed the model: %s' % (op, m))
	w.observe = obs
	return None


def learn(ja, wl, w):
	import stormpy as st
	p = wl['p']
	if fitlib.reference(p) is None:
		w.tags['degenerate'] = 1
		return None
	a = fitlib.fit(ja, p)
	model = None
	if wl['start']:
		model = ja.jajapyModeltoStormpy(ref.build(ja, p['spec']))
		c = content(model)
	b = fitlib.fit(ja, p, model=model, stormpy_output=True)
	if not a.ok:
		return unexpected(a, 'fit')
	if not b.ok:
		return unexpected(b, 'fit')
	w.ops += 2
	v = ref.view(a.value[0])
	if wl['start'] and content(model) != c:
		return Violation('operand', 'learning changed the stormpy model it started from')
	spec = {'t': v['t'] if v['t'] != 'PCTMC' else 'CTMC', 'A': v['A'], 'labels': v['labels'], 'name': ''}
	if 'actions' in v:
		spec['actions'] = v['actions']
		if wl['start']:
			used = set(x for q, _ in p['data'] for x in q[1::2])
			A0 = np.array(p['spec']['A'])
	m = near(b.value[0], spec, st)
	if m:
		return Violation('learn', 'learning %s stormpy: %s' % ('from and to' if wl['start'] else 'to', m))
	ia, ib = a.value[1], b.value[1]
	if ia['learning_rounds'] != ib['learning_rounds'] or not ref.close(float(ia['training_set_loglikelihood']), float(ib['training_set_loglikelihood']), 1e-9, 1e-9):
		return Violation('learn', '%s / %s' % (ia, ib))
	w.nontrivial = True
	w.tags['learn'+(' from stormpy' if wl['start'] else '')] = 1
	return None


def near(s, spec, st, tol=1e-7):
	"""a stormpy model against a jajapy one, actions by name"""
	c = content(s)
	A = np.array(spec['A'], dtype=float)
	kinds = {'MC': st.SparseDtmc, 'MDP': st.SparseMdp, 'CTMC': st.SparseCtmc}
	if type(s) is not kinds[spec['t']]:
		return 'the result is a %s' % type(s).__name__
	if [x[0] for x in c] != [[l] for l in spec['labels']]:
		return 'labels %s instead of %s' % ([x[0] for x in c], spec['labels'])
	for i, (_, row) in enumerate(c):
		want = [([], A[i])] if spec['t'] != 'MDP' else [([a], A[i, k]) for k, a in enumerate(spec['actions'])]
		for a, r in want:
			got = next((x[1] for x in row if spec['t'] != 'MDP' or x[0] == a), {})
			r2 = np.zeros(len(A))
			for k, x in got.items():
				r2[k] = x
			if not ref.close(r, r2, tol, 1e-9):
				return 'state %d %s: %s instead of %s' % (i, a, r2.tolist(), r.tolist())
	return None


def alergia(ja, wl, w):
	import stormpy as st
	from .c20 import learn as lrn
	a = lrn(ja, wl['a'])
	b = lrn(ja, wl['a'], stormpy_output=True)
	w.ops += 2
	if not a.ok:
		return unexpected(a, 'fit')
	if not b.ok:
		return unexpected(b, 'fit')
	v = ref.view(a.value)
	spec = {'t': v['t'], 'A': v['A'], 'labels': v['labels'], 'name': ''}
	if 'actions' in v:
		spec['actions'] = v['actions']
	m = near(b.value, spec, st, 1e-12)
	w.nontrivial = True
	return Violation('learn', 'state merging to stormpy: '+m) if m else None


def execute(ja, wl, w):
	w.tags[wl['kind']] = 1
	v = {'convert': convert, 'prism': prism, 'learn': learn, 'alergia': alergia}[wl['kind']](ja, wl, w)
	return [v] if v else []
