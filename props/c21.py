"""C21: a composition of timed models behaves like its components side by side."""
import itertools

import numpy as np

from sim import gen, ref
from sim.core import Violation, _Random
from sim.lib import call, interrupt_after, unexpected
from . import common

RUNS = {'quick': 3000, 'thorough': 60000}
LEVEL = 'exploration'
REAL = common.REAL+['sympy (symbolic rates)']
STUB = ['hash seed (one per shard and one for the twin process)', 'process pools, clocks, entropy', 'Ctrl-C at a chosen executed line']
TWIN = True
ASSUMPTIONS = ['every operand has one initial state, left at a constant rate and never entered again', 'a parameter used by two operands has the same value in both, or a value in one of them only', 'three models are composed only when they synchronise pairwise on nothing or all three on the same actions',
			   'states are identified by their labels when these are unique, otherwise models are compared by the densities of sampled traces']
RULE = 'a history of 1 to 4 compositions over 2 or 3 models (CTMCs, PCTMCs; self loops, synchronous actions, initial state anywhere, shared and missing parameters, more than 255 different rates), some interrupted, compared with the race semantics of the components; then the parameters are moved and a learning round is run on the result. Non-trivial: a composition was compared.'

LAB = [list('abcdefghij'), ['ok', 'ko', 'wait', 'done', 'x1', 'x2', 'x3', 'x4', 'x5', 'x6'], ['S%d' % i for i in range(10)]]
LAB2 = [list('klmnopqrst'), ['on', 'off', 'up', 'down', 'y1', 'y2', 'y3', 'y4', 'y5', 'y6'], ['S%d' % i for i in range(10)]]
LAB3 = [list('uvwxyzUVWX')]


def operand(rng, t, n, pool, params, acts, unique):
	pool = rng.choice(pool)
	labels = pool[:n] if unique else [rng.choice(pool[:max(1, n-1)]) for _ in range(n)]
	pos = n if rng.random() < 0.7 else rng.randrange(n+1)
	ids = list(range(pos))+list(range(pos+1, n+1))

	def rate():
		c = round(rng.choice([rng.uniform(0.1, 1), rng.uniform(0.5, 8), 1.0]), 3)
		if t == 'CTMC' or not params or rng.random() < 0.4:
			return [[c, {}]]
		k = rng.random()
		if k < 0.6:
			return [[rng.choice([1.0, c]), {rng.choice(params): 1}]]
		if k < 0.75:
			return [[c, {rng.choice(params): 2}]]
		if k < 0.9 and len(params) > 1:
			a, b = rng.sample(params, 2)
			return [[1.0, {a: 1, b: 1}]]
		a = rng.choice(params)
		return [[1.0, {a: 1}], [c, {}]]
	dense = rng.choice([0.2, 0.5, 0.9])
	trans = []
	chain = rng.random() < 0.15
	if chain:       # each state leads to the one before, nothing leads back
		trans = [[s, d, rate()] for d, s in zip(ids, ids[1:])]
	for s in [] if chain else ids:
		for d in ids:
			if s == d and rng.random() < 0.6:
				continue
			if rng.random() < dense:
				trans.append([s, d, rate()])
	sync = []
	for _ in range(rng.choice([0, 1, 2, 3])):
		a = rng.choice(acts) if acts else None
		if a:
			x = [rng.choice(ids), a, rng.choice(ids), rate()]
			if all(x[:3] != y[:3] for y in sync):
				sync.append(x)
	used = set(x for y in trans for x in y[:2]) | set(x for y in sync for x in (y[0], y[2]))
	for s in ids:       # every state occurs
		if s not in used:
			trans.append([s, rng.choice(ids), rate()])
	init = gen.dist(rng, n) if rng.random() < 0.5 else [1.0 if i == 0 else 0.0 for i in range(n)]
	if chain:
		k = rng.randrange(min(2, n))
		init = [1.0 if i == k else 0.0 for i in range(n)]
	mine = [p for p in params if any(p in m[1] for x in trans+sync for m in x[-1])]
	lab = labels[:pos]+['init']+labels[pos:]
	return {'t': t, 'labels': lab, 'pos': pos, 'ids': ids, 'trans': trans, 'sync': sync, 'init': init, 'params': mine, 'create': pos == n and rng.random() < 0.7}


def generate(rng, i, tier):
	kind = rng.choice(['CTMC', 'CTMC', 'PCTMC', 'PCTMC', 'PCTMC3'])
	unique = rng.random() < 0.6
	big = rng.random() < (0.01 if tier == 'quick' else 0.03)
	acts = rng.choice([[], ['a'], ['a', 'b'], ['go', 'stop', 'turn']])
	t = kind[:5] if kind == 'PCTMC3' else kind
	ms = []
	pools = [LAB, LAB2, LAB3]
	ps = [['p', 'q'], ['q', 'r', 'k1'], ['p', 's2']] if rng.random() < 0.6 else rng.choice([[['p', 'q'], ['u', 'v'], ['x', 'y']], [['lambda', 'mu'], ['beta', 'lambda'], ['E', 'gamma']]])
	for k in range(3 if kind == 'PCTMC3' else rng.choice([2, 2, 3])):
		n = rng.randint(1, 4) if kind != 'PCTMC3' else rng.randint(1, 3)
		if big and k < 2 and kind == 'CTMC':
			n = 9
		a = acts
		if kind == 'PCTMC3' and acts:
			# each action is known to everybody or (here) to nobody
			a = acts[:1]
		ms.append(operand(rng, t, n, pools[k], [] if t == 'CTMC' else ps[k], a, unique))
	if kind == 'PCTMC3' and not all(m['sync'] for m in ms):
		for m in ms:
			m['sync'] = []
			repair(m)
	# a sync action known to two of three models only: dropped
	values = {p: round(rng.uniform(0.2, 3.0), 3) for p in sorted(set(p for m in ms for p in m['params']))}
	for m in ms:
		m['values'] = {p: values[p] for p in m['params'] if rng.random() < 0.75}
		m['values'] = dict(m['values'])
	wl = {'env': dict(gen.env(rng), twin=rng.random() < 0.2), 'kind': kind, 'unique': unique, 'ms': ms, 'values': values,
		  'moved': {p: round(rng.uniform(0.2, 3.0), 3) for p in values}, 'ops': []}
	if kind == 'PCTMC3':
		for _ in range(rng.randint(1, 2)):
			wl['ops'].append([rng.choice(list(itertools.permutations(range(3)))), None])
	else:
		for _ in range(rng.randint(1, 4) if not big else 1):
			k = rng.randrange(len(ms))
			wl['ops'].append([[0, 1] if big else [k, k] if rng.random() < 0.08 else rng.sample(range(len(ms)), 2), None])
	if rng.random() < 0.3 and not big:
		k = rng.randrange(len(wl['ops']))
		wl['ops'].insert(k, [wl['ops'][k][0], rng.randint(1, 400)])
	wl['learn'] = rng.random() < 0.25 and not big and kind != 'PCTMC3' and max(len(m['labels']) for m in ms) < 4
	return wl


def repair(m):
	used = set(x for y in m['trans'] for x in y[:2])
	for s in m['ids']:
		if s not in used:
			m['trans'].append([s, s, [[1.0, {}]]])
	m['params'] = [p for p in m['params'] if any(p in k[1] for x in m['trans'] for k in x[-1])]


def text(monos):
	out = []
	for c, pw in monos:
		e = [repr(float(c))] if c != 1.0 or not pw else []
		for p in sorted(pw):
			e.append(p if pw[p] == 1 else '%s**%d' % (p, pw[p]))
		out.append('*'.join(e))
	return ' + '.join(out)


def value(monos, values):
	x = ref.F(0)
	for c, pw in monos:
		v = ref.F(c)
		for p in pw:
			v *= ref.F(values[p])**pw[p]
		x += v
	return x


def build(ja, m, name):
	n = len(m['labels'])-1
	if m['t'] == 'CTMC':
		sync = [(s, a, d, float(value(r, {}))) for s, a, d, r in m['sync']]
		if m['create']:
			tr = [(s, d, float(value(r, {}))) for s, d, r in m['trans']]
			return ja.createCTMC(tr, [l for l in m['labels'] if l != 'init'], list(m['init']), name, sync)
		A = np.zeros((n+1, n+1))
		for s, d, r in m['trans']:
			A[s, d] = float(value(r, {}))
		for s, p in zip(m['ids'], m['init']):
			A[m['pos'], s] = p
		return ja.CTMC(A, list(m['labels']), name, sync)
	sync = [(s, a, d, text(r)) for s, a, d, r in m['sync']]
	if m['create']:
		tr = [(s, d, text(r)) for s, d, r in m['trans']]
		return ja.createPCTMC(tr, [l for l in m['labels'] if l != 'init'], list(m['params']), list(m['init']), dict(m['values']), sync, name)
	ex = [ref.expression('0.0', [])]
	M = np.zeros((n+1, n+1), dtype='uint16')
	idx = [[] for _ in m['params']]
	for s, d, r in m['trans']+[[m['pos'], s, [[p, {}]]] for s, p in zip(m['ids'], m['init']) if p]:
		ex.append(ref.expression(text(r), m['params']))
		M[s, d] = len(ex)-1
		for p in sorted(set(p for _, pw in r for p in pw)):
			idx[m['params'].index(p)].append([s, d])
	return ja.PCTMC(M, list(m['labels']), ex, dict(m['values']), idx, list(m['params']), name, sync)


def product(ms, values):
	"""(labels, rates) of the reachable part of the composition, 'init' last"""
	start = {}
	for combo in itertools.product(*[list(zip(m['ids'], m['init'])) for m in ms]):
		p = ref.F(1)
		for _, x in combo:
			p *= ref.F(x)
		if p > 0:
			start[tuple(s for s, _ in combo)] = p
	tr = {}
	todo = list(start)
	sync = {}
	for m in ms:
		for a in set(x[1] for x in m['sync']):
			sync[a] = sync.get(a, 0)+1
	acts = [a for a in sync if sync[a] == len(ms)]
	while todo:
		st = todo.pop()
		if st in tr:
			continue
		out = {}
		for k, m in enumerate(ms):
			for s, d, r in m['trans']:
				if s == st[k]:
					t = st[:k]+(d,)+st[k+1:]
					out[t] = out.get(t, ref.F(0))+value(r, values)
		for a in acts:
			for combo in itertools.product(*[[x for x in m['sync'] if x[1] == a and x[0] == st[k]] for k, m in enumerate(ms)]):
				t = tuple(x[2] for x in combo)
				v = ref.F(1)
				for x in combo:
					v *= value(x[3], values)
				out[t] = out.get(t, ref.F(0))+v
		tr[st] = out
		todo += [t for t in out if t not in tr]
	states = sorted(tr)
	A = np.zeros((len(states)+1, len(states)+1), dtype=ref.F)
	for st in states:
		for t, v in tr[st].items():
			A[states.index(st), states.index(t)] += v
	for st, p in start.items():
		A[-1, states.index(st)] = p
	labels = [','.join(m['labels'][s] for m, s in zip(ms, st)) for st in states]+['init']
	return {'t': 'CTMC', 'A': A, 'labels': labels, 'name': 'm'}


def rates_of(h):
	n = h.nb_states
	A = np.zeros((n, n))
	for i, j in zip(*np.where(h.matrix != 0)):
		A[i, j] = float(h.evaluateTransition(int(i), int(j)))
	return A


def reachable(A, s):
	seen, todo = set(), [s]
	while todo:
		x = todo.pop()
		if x not in seen:
			seen.add(x)
			todo += [int(y) for y in np.where(A[x] != 0)[0]]
	return sorted(seen)


def differs(h, want, unique, w):
	A = rates_of(h)
	lab = list(h.labelling)
	if lab.count('init') != 1 or len(lab) != h.nb_states:
		return 'labels %s' % lab
	pi = np.array(h.initial_state, dtype=float)
	if pi[lab.index('init')] != 1.0 or pi.sum() != 1.0:
		return 'initial distribution %s' % pi.tolist()
	r = reachable(A, lab.index('init'))
	idle = [i for i in range(len(lab)) if lab[i] != 'init' and not A[:, i].any()]
	if idle:
		return 'nothing leads to state %d (%s)' % (idle[0], lab[idle[0]])
	if unique:
		if sorted(lab[i] for i in r) != sorted(want['labels']):
			return 'reachable states %s instead of %s' % (sorted(lab[i] for i in r), sorted(want['labels']))
		perm = [next(i for i in r if lab[i] == l) for l in want['labels']]
		B = A[np.ix_(perm, perm)]
		if not ref.close(B, np.array(want['A'], dtype=float), 1e-9, 1e-300):
			d = np.abs(B-np.array(want['A'], dtype=float))
			i, j = np.unravel_index(np.argmax(d), d.shape)
			return 'rate from %s to %s is %.12g instead of %.12g' % (want['labels'][i], want['labels'][j], B[i, j], float(want['A'][i, j]))
		return None
	rng = _Random(w.seed)
	got = {'t': 'CTMC', 'A': A, 'labels': lab, 'name': 'm'}
	for k in range(10):
		src = got if k % 2 else want
		tr = ref.sample(src, rng, rng.randint(1, 5), True)
		a, b = float(ref.prob(got, tr)), float(ref.prob(want, tr))
		if not ref.close(a, b, 1e-8, 1e-300):
			return 'the trace %r has density %.12g instead of %.12g' % (tr, a, b)
	return None


def indexes(h):
	"""do the recorded positions of the parameters agree with the rates?"""
	for p in h.parameter_str:
		got = [tuple(int(y) for y in x) for x in h.parameterIndexes(p)]
		want = [(int(i), int(j)) for i, j in zip(*np.where(h.matrix != 0)) if p in [str(x) for x in h.transitionExpression(int(i), int(j)).free_symbols]]
		if sorted(got) != want:
			return 'parameter %s: transitions %s, recorded %s' % (p, want, sorted(got))
	return None


def state(h):
	s = {'labels': list(h.labelling), 'pi': np.array(h.initial_state, dtype=float).tolist(), 'name': h.name, 'M': h.matrix.tolist(),
		 'sync': [list(map(str, x)) for x in h.synchronous_transitions], 'alphabet': sorted(h.getAlphabet())}
	if hasattr(h, 'parameter_str'):
		s.update(params=list(h.parameter_str), values={str(k): float(v) for k, v in h.parameter_values.items()}, expr=[str(x) for x in h.transition_expr], idx=[[list(map(int, y)) for y in x] for x in h.parameter_indexes])
	return s


def monomials(h):
	"""the spec of a PCTMC"""
	from sympy import Poly
	trans = []
	for i, j in zip(*np.where(h.matrix != 0)):
		e = h.transitionExpression(int(i), int(j))
		gens = sorted(e.free_symbols, key=str)
		if not gens:
			trans.append([int(i), int(j), float(e), {}])
			continue
		for pw, c in Poly(e, *gens).terms():
			trans.append([int(i), int(j), float(c), {str(g): int(k) for g, k in zip(gens, pw) if k}])
	return {'t': 'PCTMC', 'labels': list(h.labelling), 'params': list(h.parameter_str), 'values': {str(k): float(v) for k, v in h.parameter_values.items()}, 'trans': trans, 'name': 'm'}


def execute(ja, wl, w):
	ms = wl['ms']
	w.tags[wl['kind']] = 1
	hs = [build(ja, m, 'operand%d' % k) for k, m in enumerate(ms)]
	before = [state(h) for h in hs]
	first = {}
	obs = []
	last = None
	for who, n in wl['ops']:
		who = tuple(who)
		sel = [ms[k] for k in who]
		args = [hs[k] for k in who]
		compose = (lambda: ja.synchronousCompositionCTMCs(args[0], args[1], 'both')) if wl['kind'] == 'CTMC' else (lambda: ja.synchronousCompositionPCTMCs(list(args), 'both'))
		with interrupt_after(w, n):
			o = call(compose)
		w.ops += 1
		now = [state(h) for h in hs]
		for k in range(len(hs)):
			if now[k] != before[k]:
				f = [x for x in before[k] if now[k][x] != before[k][x]]
				return [Violation('operand', 'composing %s changed %s of model %d: %s -> %s' % (list(who), f, k, before[k][f[0]], now[k][f[0]]))]
		if not o.ok:
			if o.kind == 'interrupt':
				continue
			return [unexpected(o, 'compose')]
		h = o.value
		if ref.TYPES[h.model_type] != 'PCTMC' or h.name != 'both':
			return [Violation('kind', 'a composition is a %s named %s' % (ref.TYPES[h.model_type], h.name))]
		s = state(h)
		if who in first and first[who] != s:
			f = [x for x in s if s[x] != first[who][x]]
			return [Violation('history', 'the same composition made again differs in %s: %s / %s' % (f, first[who][f[0]], s[f[0]]))]
		again = who in first
		first[who] = s
		obs.append(s)
		if again:
			continue
		if set(h.getAlphabet()) != set(h.labelling):
			return [Violation('alphabet', 'labels %s, alphabet %s' % (sorted(set(h.labelling)), sorted(h.getAlphabet())))]
		values = wl['values']
		if wl['kind'] != 'CTMC':
			want = set(p for m in sel for p in m['params'])
			if set(h.parameter_str) != want or len(h.parameter_str) != len(want):
				return [Violation('parameters', 'parameters %s instead of %s' % (h.parameter_str, sorted(want)))]
			known = {}
			for m in sel:
				known.update(m['values'])
			got = {str(k): float(v) for k, v in h.parameter_values.items()}
			if got != known:
				return [Violation('parameters', 'values %s instead of %s' % (got, known))]
			if h.isInstantiated() != (set(known) == want):
				return [Violation('parameters', 'isInstantiated is %s' % h.isInstantiated())]
			miss = sorted(want-set(known))
			if miss:
				o = call(h.instantiate, miss, [values[p] for p in miss])
				if not o.ok or not o.value:
					return [unexpected(o, 'instantiate') or Violation('instantiate', 'refused')]
		m = indexes(h)
		if m:
			return [Violation('indexes', m)]
		m = differs(h, product(sel, values), wl['unique'], w)
		if m:
			return [Violation('rates', '%s of %s: %s' % (wl['kind'], list(who), m))]
		w.nontrivial = True
		w.tags['compared'] = w.tags.get('compared', 0)+1
		if wl['kind'] != 'CTMC' and wl['moved']:
			ps = sorted(h.parameter_str)
			o = call(h.instantiate, ps, [wl['moved'][p] for p in ps])
			if not o.ok or not o.value:
				return [unexpected(o, 'instantiate') or Violation('instantiate', 'refused')]
			m = differs(h, product(sel, dict(values, **wl['moved'])), wl['unique'], w)
			if m:
				return [Violation('rates', 'after moving the parameters, %s of %s: %s' % (wl['kind'], list(who), m))]
		last = h
	if last is not None and wl['learn']:
		v = learn(ja, wl, w, last)
		if v:
			return [v]
	w.observe = obs
	return []


def learn(ja, wl, w, h):
	spec = monomials(h)
	rng = _Random(w.seed)
	data = [[ref.sample(spec, rng, rng.randint(1, 4), True), rng.randint(1, 3)] for _ in range(4)]
	data = [d for d in data if len(d[0]) > 2]
	if not data:
		return None
	try:
		new, ll, skipped = ref.em_step(spec, data, update_constant=False, floor=1e-60)
	except (ZeroDivisionError, FloatingPointError, ValueError):
		return None
	if skipped or any(not np.isfinite(v) or v > 1e6 for v in new['values'].values()):
		return None
	o = call(ja.BW().fit, gen.to_set(ja, data, 4), initial_model=h, max_it=1, verbose=0, stormpy_output=False, update_constant=False)
	if not o.ok:
		return unexpected(o, 'fit')
	w.tags['learned'] = 1
	got = {str(k): float(v) for k, v in o.value.parameter_values.items()}
	for p in new['values']:
		if not ref.close(got.get(p, np.nan), new['values'][p], 1e-6, 1e-12):
			return Violation('learning', 'parameter %s is estimated to %r instead of %r' % (p, got.get(p), new['values'][p]))
	return None
