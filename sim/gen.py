"""Seeded generators of models, training sets and environments (JSON-able)."""
from . import ref

LABELS = [list('abcdefgh'), ['ok', 'ko', 'wait', 'done', 'x1'], ['a b', 'c,d', "e'f", 'g"h', 'é'],
		  ['1', '0', '10', '2'], ['a', 'aa', 'aaa', 'b', 'init2', 'Init'], ['S0', 'S1', 'S2', 'S3', 'S4', 'S5'],
		  ['s%d' % i for i in range(14)]]
ACTIONS = [['A', 'B', 'C'], ['go', 'stop'], ['a', 'b', 'c', 'd'], ['only'], ['turn left', "don't", 'x,y']]
NAMES = ['m', ' spaced ', '', 'my model', 'model_1', "it's", 'MC', '[1, 2]', 'été', 'a' * 40]
ALL = ['MC', 'MDP', 'HMM', 'GoHMM', 'CTMC', 'PCTMC']


# parameter names; those of the last list mean something to python or sympy
PARAMS = [['p', 'q', 'alpha', 'k1', 'rate_x']]*3+[['p1', 'p10', 'p', 'p11', 'p_1'], ['lambda', 'beta', 'gamma', 'N', 'Q', 'zeta', 'test', 'mu', 'lambda1', 's']]


def dist(rng, n, zeros=0.4):
	"""a distribution over n outcomes summing to 1 up to rounding"""
	k = rng.random()
	if k < 0.12 or n == 1:
		p = [0.0]*n
		p[rng.randrange(n)] = 1.0
		return p
	w = [0.0 if rng.random() < zeros else rng.choice([rng.random(), rng.random()+0.2, rng.random()**4+1e-3]) for _ in range(n)]
	if rng.random() < 0.1:
		w = [1.0 if x else 0.0 for x in w]
	if sum(w) == 0.0:
		w[rng.randrange(n)] = 1.0
	t = sum(w)
	return [x/t for x in w]


def labels_for(rng, n, few=True):
	pool = rng.choice(LABELS)
	k = rng.randint(1, min(len(pool), max(1, n if not few else (n+1)//2+1)))
	use = rng.sample(pool, k)
	return [rng.choice(use) for _ in range(n)]


def model(rng, t=None, smin=2, smax=5, plain=False, absorbing=False):
	"""a random spec. plain: one initial state appended at the end, never
	re-entered (what the create functions give)."""
	t = t or rng.choice(ALL)
	n = rng.randint(smin, smax)
	if not plain and rng.random() < 0.06:
		n += rng.randint(3, 6)
	name = rng.choice(NAMES)
	if t == 'HMM':
		al = rng.choice(LABELS)
		al = rng.sample(al, rng.randint(1, len(al)))
		if rng.random() < 0.25:
			al = al+['init']
		init = dist(rng, n)
		return {'t': t, 'A': [dist(rng, n) for _ in range(n)], 'O': [dist(rng, len(al)) for _ in range(n)], 'alphabet': al, 'init': init, 'name': name}
	if t == 'GoHMM':
		d = rng.randint(1, 3)
		return {'t': t, 'A': [dist(rng, n) for _ in range(n)], 'O': [[[round(rng.uniform(-3, 3), 3), round(rng.uniform(0.4, 2.5), 3)] for _ in range(d)] for _ in range(n)], 'init': dist(rng, n), 'name': name}
	lab = labels_for(rng, n)
	# positions of the initial state(s)
	style = 0 if plain else rng.choice([0, 0, 0, 1, 2, 3])
	n += 1
	if style == 0:
		lab = lab+['init']
		inits = [n-1]
		enter = False
	else:
		p = rng.randrange(n)
		lab = lab[:p]+['init']+lab[p:]
		inits = [p]
		enter = style >= 2
		if style == 3 and n > 3:
			q = rng.choice([i for i in range(n) if i != p])
			lab[q] = 'init'
			inits = sorted([p, q])

	def row(s, f):
		if enter:
			r = f(n)
		else:
			idx = [i for i in range(n) if i not in inits]
			x = f(len(idx))
			r = [0.0]*n
			for i, v in zip(idx, x):
				r[i] = v
		return r
	if t == 'MC':
		A = [row(s, lambda k: dist(rng, k)) for s in range(n)]
		if absorbing and rng.random() < 0.5:
			A[rng.choice([i for i in range(n) if i not in inits] or [0])] = [0.0]*n
		return {'t': t, 'A': A, 'labels': lab, 'name': name}
	if t == 'MDP':
		acts = rng.choice(ACTIONS)
		acts = rng.sample(acts, rng.randint(1, min(3, len(acts))))
		A = []
		for s in range(n):
			rows = [row(s, lambda k: dist(rng, k)) for _ in acts]
			if rng.random() < 0.3 and len(acts) > 1:
				rows[rng.randrange(len(acts))] = [0.0]*n
			A.append(rows)
		return {'t': t, 'A': A, 'labels': lab, 'actions': acts, 'name': name}
	if t == 'CTMC':
		A = []
		unit = 1.0 if rng.random() < 0.85 else 10.0**rng.uniform(-4, 4)
		for s in range(n):
			sc = rng.choice([0.2, 1.0, 1.0, 3.0, 10.0])*unit
			A.append([x*sc for x in row(s, lambda k: dist(rng, k))])
		if absorbing and rng.random() < 0.5:
			A[rng.choice([i for i in range(n) if i not in inits] or [0])] = [0.0]*n
		return {'t': t, 'A': A, 'labels': lab, 'name': name}
	# PCTMC: monomial rates
	np_ = rng.randint(1, 3)
	params = rng.sample(rng.choice(PARAMS), np_)
	kind = rng.choice(['linear', 'linear', 'power', 'mixed'])
	trans = []
	sums = rng.random() < 0.3
	for s in range(n):
		r = row(s, lambda k: dist(rng, k))
		for d, v in enumerate(r):
			if v == 0.0:
				continue
			c = round(v*rng.choice([0.5, 1.0, 4.0]), rng.choice([2, 6]))
			if c == 0.0:
				c = 0.5
			pw = {}
			if s not in inits and rng.random() < 0.6:
				if kind == 'linear':
					pw = {rng.choice(params): 1}
				elif kind == 'power':
					pw = {rng.choice(params): 2}
				else:
					pw = {rng.choice(params): rng.choice([1, 1, 2, 3])}
					if rng.random() < 0.3:
						q = rng.choice(params)
						pw = {q: 1, rng.choice(params): 1}
			trans.append([s, d, c, pw])
			if sums and s not in inits and rng.random() < 0.4:
				# a polynomial rate
				more = [{q: 1} for q in params]+[{}]+([{q: 2} for q in params] if kind != 'linear' else [])
				for q in rng.sample(more, rng.randint(1, 2)):
					if all(x[3] != q for x in trans if x[:2] == [s, d]):
						trans.append([s, d, round(rng.uniform(0.1, 1.5), 2), q])
	used = [p for p in params if any(p in x[3] for x in trans)]
	if not used:
		# at least one parameter is used
		trans[0][3] = {params[0]: 1}
		used = [params[0]]
	values = {p: round(rng.uniform(0.2, 3.0), 4) for p in used}
	return {'t': t, 'labels': lab, 'params': used, 'values': values, 'trans': trans, 'name': name}


def trainable(rng, t=None, **kw):
	"""a spec Baum-Welch can be started from: every state has successors"""
	while True:
		m = model(rng, t, **kw)
		if m['t'] == 'MDP':
			if any(all(sum(a) == 0 for a in s) for s in m['A']):
				continue
		return m


def rare(rng, m, p=0.12):
	"""m, in some cases with outcomes of very small probability or rate"""
	if m['t'] == 'PCTMC' or rng.random() > p:
		return m
	import copy
	m = copy.deepcopy(m)

	def row(r, total):
		k = [i for i, x in enumerate(r) if x > 0.0]
		if len(k) < 2 or rng.random() < 0.4:
			return list(r)
		i, j = rng.sample(k, 2)
		r = list(r)
		tiny = 10**-rng.uniform(4.2, 11)
		if total:
			r[j] += r[i]-tiny
		r[i] = tiny
		return r
	if m['t'] == 'MDP':
		m['A'] = [[row(r, True) for r in s] for s in m['A']]
	else:
		m['A'] = [row(r, m['t'] != 'CTMC') for r in m['A']]
	if m['t'] == 'HMM':
		m['O'] = [row(r, True) for r in m['O']]
	return m


def perturb(rng, spec):
	"""same support and labels, other numbers"""
	import copy
	m = copy.deepcopy(spec)

	def mixup(r):
		t = sum(r)
		if t == 0:
			return r
		x = [v*rng.uniform(0.3, 2.0) for v in r]
		k = t/sum(x) if m['t'] != 'CTMC' else 1.0
		return [v*k for v in x]
	if m['t'] == 'PCTMC':
		m['values'] = {p: round(v*rng.uniform(0.4, 2.0), 4) for p, v in m['values'].items()}
		return m
	if m['t'] == 'MDP':
		m['A'] = [[mixup(r) for r in s] for s in m['A']]
	else:
		m['A'] = [mixup(r) for r in m['A']]
	if m['t'] == 'HMM':
		m['O'] = [mixup(r) for r in m['O']]
		m['init'] = mixup(m['init'])
	if m['t'] == 'GoHMM':
		m['O'] = [[[mu+rng.uniform(-.3, .3), sd*rng.uniform(0.7, 1.4)] for mu, sd in s] for s in m['O']]
	return m


def dataset(rng, spec, nseq=None, maxlen=6, timed=None, impossible=0.15, minlen=1):
	"""a list of [sequence, multiplicity] in jajapy's format"""
	t = spec['t']
	nseq = nseq or (rng.randint(10, 18) if rng.random() < 0.03 else rng.randint(1, 6))
	long = rng.random() < 0.03
	if timed is None:
		timed = t in ('CTMC', 'PCTMC') and rng.random() < 0.65
	coarse = t == 'GoHMM' and rng.random() < 0.12      # values that come back
	seqs = []
	tries = 0
	while len(seqs) < nseq and tries < 60:
		tries += 1
		L = rng.randint(minlen, maxlen)
		if long and not seqs and maxlen > 3:
			L = rng.randint(20, 45)
		if t in ('CTMC', 'PCTMC'):
			L = max(2 if not timed else 1, L)
		if t == 'MC' or t == 'HMM':
			L = max(2, L)
		s = ref.sample(spec, rng, L, timed)
		if len(s) < 2 and t != 'GoHMM':
			continue
		if coarse:
			s = [[round(x) if rng.random() < 0.3 else float(round(x)) for x in v] for v in s]
		if rng.random() < impossible:
			s = corrupt(rng, spec, s, timed)
		if s not in seqs:
			seqs.append(s)
	if seqs and rng.random() < 0.12:
		# nothing was seen but the beginning
		s = ref.sample(spec, rng, 1, False)[:1]
		if s not in seqs:
			seqs.insert(rng.randint(0, len(seqs)), s)
	big = rng.random()
	mult = [1 if rng.random() < 0.5 else rng.randint(2, 9 if big < 0.9 else 5000 if big < 0.97 else 200000) for _ in seqs]
	return [[s, k] for s, k in zip(seqs, mult)], timed


def corrupt(rng, spec, s, timed):
	s = list(s)
	if spec['t'] == 'GoHMM':
		return s
	if spec['t'] == 'HMM':
		lab = spec['alphabet']
		i = rng.randrange(len(s))
	else:
		lab = sorted(set(spec['labels'])-{'init'}) or ['init']
		pos = list(range(2, len(s), 2)) if (timed or spec['t'] == 'MDP') else list(range(1, len(s)))
		if not pos:
			return s
		i = rng.choice(pos)
	s[i] = rng.choice(lab)
	return s


def env(rng, faults=None, linux=0.7):
	k = rng.random()
	return {'cpus': rng.choice([1, 2, 2, 3, 4, 4, 8, 16]),
			'platform': 'linux' if k < linux else rng.choice(['darwin', 'win32']),
			'entropy': rng.randrange(1 << 30), 'overlap': rng.random() < 0.8,
			'faults': faults or {}}


BENIGN = ['worker_stall', 'clock_jump', 'clock_freeze']


def benign(rng):
	f = {}
	if rng.random() < 0.5:
		f['worker_stall'] = rng.choice([0.1, 0.4])
	if rng.random() < 0.4:
		f['clock_jump'] = rng.choice([0.05, 0.5])
	if rng.random() < 0.2:
		f['clock_freeze'] = 0.5
	return f


def to_set(ja, data, spec_or_type):
	"""a fresh jajapy Set with the given content"""
	import numpy as np
	t = spec_or_type
	if isinstance(t, dict):
		t = set_type(t, data)
	return ja.Set([_copy(s) for s, _ in data], np.array([k for _, k in data]), t)


def _copy(s):
	if len(s) > 1 and isinstance(s[0], str) and isinstance(s[1], float):
		# some dwell times are numpy numbers
		import numpy as np
		return [np.float64(x) if isinstance(x, float) and int(x*1e9) % 7 == 0 else x for x in s]
	return [list(x) if isinstance(x, list) else x for x in s]


def set_type(spec, data):
	t = spec['t']
	if t in ('CTMC', 'PCTMC'):
		return 4 if any(ref.is_timed(x) for x, _ in data) else 0
	return {'MC': 0, 'HMM': 0, 'MDP': 1, 'GoHMM': 3}[t]
