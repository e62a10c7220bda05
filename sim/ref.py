"""Small executable reference models, independent of jajapy.

A model is a JSON-able *spec*:
  MC    {t,A,labels,name}               A[s][s']
  MDP   {t,A,labels,actions,name}       A[s][a][s']
  CTMC  {t,A,labels,name}               rates
  HMM   {t,A,O,alphabet,init,name}
  GoHMM {t,A,O,init,name}               O[s][n]=[mu,sigma]
  PCTMC {t,labels,params,values,trans,name}  trans=[[s,d,coef,{param:power}],...]
Data is a list of [sequence, multiplicity].
"""
import math
import re

import numpy as np

F = np.longdouble


# ------------------------------------------------------------ conversions ---
def expression(text, params):
	"""the symbolic form of a sum of products of powers of params"""
	from sympy import Symbol, sympify
	if not set(re.findall(r'[A-Za-z_]\w*', text)) & set(params):
		return sympify(text)
	names = {p: '_v%d_' % i for i, p in enumerate(params)}
	env = {names[p]: Symbol(p) for p in params}
	return sympify(re.sub(r'(?<![\w.])[A-Za-z_]\w*', lambda m: names.get(m.group(), m.group()), text), locals=env)


def build(ja, spec):
	"""the jajapy model described by spec (a fresh object)"""
	t = spec['t']
	name = spec.get('name', 'm')
	if t == 'MC':
		return ja.MC(np.array(spec['A'], dtype=float), list(spec['labels']), name)
	if t == 'MDP':
		return ja.MDP(np.array(spec['A'], dtype=float), list(spec['labels']), list(spec['actions']), name)
	if t == 'CTMC':
		return ja.CTMC(np.array(spec['A'], dtype=float), list(spec['labels']), name)
	if t == 'HMM':
		return ja.HMM(np.array(spec['A'], dtype=float), np.array(spec['O'], dtype=float), list(spec['alphabet']), list(spec['init']), name)
	if t == 'GoHMM':
		return ja.GoHMM(np.array(spec['A'], dtype=float), np.array(spec['O'], dtype=float), list(spec['init']), name)
	if t == 'PCTMC':
		n = len(spec['labels'])
		m = np.zeros((n, n), dtype='uint16')
		ex = [expression('0.0', [])]
		idx = [[] for _ in spec['params']]
		text = {}
		for s, d, c, pw in spec['trans']:
			e = repr(float(c))
			for p in sorted(pw):
				e += '*'+p+('**'+str(pw[p]) if pw[p] != 1 else '')
			text.setdefault((s, d), []).append(e)
			for p in pw:
				if [s, d] not in idx[spec['params'].index(p)]:
					idx[spec['params'].index(p)].append([s, d])
		for s, d in text:
			ex.append(expression('+'.join(text[s, d]), spec['params']))
			m[s, d] = len(ex)-1
		return ja.PCTMC(m, list(spec['labels']), ex, dict(spec['values']), idx, list(spec['params']), name)
	raise ValueError(t)


def _value(spec, x):
	v = F(x[2])
	for p in x[3]:
		v *= F(spec['values'][p])**x[3][p]
	return v


def rates(spec):
	n = len(spec['labels'])
	R = np.zeros((n, n), dtype=F)
	for x in spec['trans']:
		R[x[0], x[1]] += _value(spec, x)
	return R


def matrix(spec):
	return rates(spec) if spec['t'] == 'PCTMC' else np.array(spec['A'], dtype=F)


def pi(spec):
	if 'init' in spec and spec['t'] in ('HMM', 'GoHMM'):
		return np.array(spec['init'], dtype=F)
	k = spec['labels'].count('init')
	return np.array([F(1)/k if l == 'init' else F(0) for l in spec['labels']])


def nstates(spec):
	return len(spec['labels']) if 'labels' in spec else len(spec['A'])


TYPES = {0: 'MC', 1: 'MDP', 2: 'HMM', 3: 'GoHMM', 4: 'CTMC', 5: 'PCTMC'}


def view(h):
	"""What a user can observe of a jajapy model, as plain arrays."""
	t = TYPES[h.model_type]
	v = {'t': t, 'name': str(h.name), 'pi': np.array(h.initial_state, dtype=float)}
	if t == 'PCTMC':
		n = h.nb_states
		v['A'] = np.array([[float(h.evaluateTransition(i, j)) if h.isInstantiated(i, j) else np.nan for j in range(n)] for i in range(n)])
		v['values'] = {str(k): float(x) for k, x in h.parameter_values.items()}
		v['params'] = list(h.parameter_str)
		v['labels'] = list(h.labelling)
		return v
	v['A'] = np.array(h.matrix, dtype=float)
	if t == 'MDP':
		v['actions'] = list(h.actions)
	if t in ('HMM', 'GoHMM'):
		v['O'] = np.array(h.output, dtype=float)
		if t == 'HMM':
			v['alphabet'] = list(h.alphabet)
	else:
		v['labels'] = list(h.labelling)
	return v


def spec_view(spec):
	v = {'t': spec['t'], 'name': spec.get('name', 'm'), 'pi': np.array(pi(spec), dtype=float), 'A': np.array(matrix(spec), dtype=float)}
	for k in ('labels', 'actions', 'alphabet'):
		if k in spec:
			v[k] = list(spec[k])
	if 'O' in spec:
		v['O'] = np.array(spec['O'], dtype=float)
	if spec['t'] == 'PCTMC':
		v['values'] = {k: float(x) for k, x in spec['values'].items()}
		v['params'] = list(spec['params'])
	return v


def close(a, b, rtol=1e-7, atol=1e-10):
	a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
	if a.shape != b.shape:
		return False
	both = (np.isnan(a) & np.isnan(b)) | (a == b)
	with np.errstate(invalid='ignore'):
		return bool(np.all(both | (np.abs(a-b) <= atol+rtol*np.maximum(np.abs(a), np.abs(b)))))


def differ(va, vb, rtol=1e-7, atol=1e-10, name=False, skip=()):
	"""None if the two views describe the same model, else where they differ"""
	if va['t'] != vb['t']:
		return 'type %s / %s' % (va['t'], vb['t'])
	for k in ('labels', 'actions', 'params') + (('name',) if name else ()):
		if k in va and k not in skip and va.get(k) != vb.get(k):
			return '%s %r / %r' % (k, va.get(k), vb.get(k))
	if 'alphabet' in va:
		if sorted(map(str, va['alphabet'])) != sorted(map(str, vb['alphabet'])):
			return 'alphabet %r / %r' % (va['alphabet'], vb['alphabet'])
		perm = [vb['alphabet'].index(x) for x in va['alphabet']]
	for k in ('pi', 'A', 'O'):
		if k in va:
			x, y = va[k], vb.get(k)
			if k == 'O' and 'alphabet' in va:
				y = y[:, perm]
			if not close(x, y, rtol, atol):
				if np.shape(x) != np.shape(y):
					return '%s shape %r / %r' % (k, np.shape(x), np.shape(y))
				d = np.abs(np.asarray(x)-np.asarray(y))
				d = np.where(np.isnan(d), np.inf, d)
				i = np.unravel_index(np.argmax(d), d.shape)
				return '%s%r = %.17g / %.17g' % (k, tuple(int(q) for q in i), x[i], y[i])
	if 'values' in va:
		if set(va['values']) != set(vb['values']):
			return 'instantiated parameters %r / %r' % (sorted(va['values']), sorted(vb['values']))
		for p in va['values']:
			if not close(va['values'][p], vb['values'][p], rtol, atol):
				return 'parameter %s = %.17g / %.17g' % (p, va['values'][p], vb['values'][p])
	return None


# --------------------------------------------------------------- sequences ---
def is_timed(seq):
	return len(seq) > 1 and isinstance(seq[1], float) and isinstance(seq[0], str)


def split(spec, seq):
	"""(observations, actions or dwell times or None)"""
	if spec['t'] == 'MDP' or (spec['t'] in ('CTMC', 'PCTMC') and is_timed(seq)):
		return seq[0::2], seq[1::2]
	return seq, None


def steps(spec, seq, full):
	"""The weighted transition matrices W_k of a sequence and the final mask.
	full: True when the transition after the last observation is part of the
	explanation (that is how untimed sequences are learned)."""
	t = spec['t']
	obs, ext = split(spec, seq)
	n = nstates(spec)
	if t == 'HMM':
		O = np.array(spec['O'], dtype=F)
		em = [O[:, spec['alphabet'].index(o)] if o in spec['alphabet'] else np.zeros(n, dtype=F) for o in obs]
	elif t == 'GoHMM':
		O = np.array(spec['O'], dtype=F)
		em = []
		for o in obs:
			w = np.ones(n, dtype=F)
			for k, x in enumerate(o):
				mu, sd = O[:, k, 0], O[:, k, 1]
				w = w*np.exp(-((mu-F(x))/sd)**2/2)/(sd*np.sqrt(2*F(math.pi)))
			em.append(w)
	else:
		lab = spec['labels']
		em = [np.array([F(1) if l == o else F(0) for l in lab]) for o in obs]
	A = matrix(spec)
	out = []
	T = len(obs)
	if t in ('CTMC', 'PCTMC'):
		e = A.sum(axis=1)
		if ext is None:
			P = np.zeros_like(A)
			for s in range(n):
				if e[s] > 0:
					P[s] = A[s]/e[s]
				else:
					P[s, s] = 1
	for k in range(T if full else T-1):
		if t == 'MDP':
			a = ext[k]
			M = A[:, spec['actions'].index(a), :] if a in spec['actions'] else np.zeros((n, n), dtype=F)
			out.append(em[k][:, None]*M)
		elif t in ('CTMC', 'PCTMC') and ext is not None:
			out.append((em[k]*np.exp(-e*F(ext[k])))[:, None]*A)
		elif t in ('CTMC', 'PCTMC'):
			out.append(em[k][:, None]*P)
		else:
			out.append(em[k][:, None]*A)
	last = np.ones(n, dtype=F) if full else em[-1]
	return out, last


def timed_data(data):
	return any(is_timed(x) for x, _ in data)


def learn_full(spec, seq, timed=False):
	"""timed: seq belongs to a set of timed traces (one observation alone
	doesn't tell)"""
	return spec['t'] in ('MC', 'HMM', 'GoHMM') or (spec['t'] in ('CTMC', 'PCTMC') and not timed and not is_timed(seq))


def forward(spec, seq, full):
	W, last = steps(spec, seq, full)
	al = [pi(spec)]
	for M in W:
		al.append(al[-1] @ M)
	be = [last]
	for M in reversed(W):
		be.append(M @ be[-1])
	be.reverse()
	return W, np.array(al), np.array(be), (al[-1]*last).sum()


def prob(spec, seq):
	"""probability (density) that the model generates seq"""
	return forward(spec, seq, False)[3]


def total_loglik(spec, data, full=None):
	ll, skipped = F(0), 0
	timed = timed_data(data)
	for seq, times in data:
		f = learn_full(spec, seq, timed) if full is None else full
		p = forward(spec, seq, f)[3]
		if p > 0:
			ll += times*np.log(p)
		else:
			skipped += 1
	return ll, skipped


def loglik(spec, data):
	"""what a user calls the loglikelihood of a set: the average over all its
	sequences; the impossible ones contribute nothing to the sum"""
	ll, skipped = total_loglik(spec, data, False)
	n = sum(t for _, t in data)
	if skipped == len(data) and spec['t'] == 'CTMC' and timed_data(data):
		return -9999.0
	return float(ll/n)


# ------------------------------------------------------------- Baum-Welch ---
def em_step(spec, data, fixed=None, update_constant=True, fixed_params=(), floor=0.0):
	"""One exact Baum-Welch round. Returns (new spec, loglikelihood of the
	data under the given spec, number of impossible sequences)."""
	t = spec['t']
	n = nstates(spec)
	A = matrix(spec)
	new = dict(spec)
	ll, skipped = F(0), 0
	e = A.sum(axis=1) if t in ('CTMC', 'PCTMC') else None
	if t == 'MDP':
		N = np.zeros(A.shape, dtype=F)
		D = np.zeros(A.shape[:2], dtype=F)
	else:
		N = np.zeros((n, n), dtype=F)
		D = np.zeros(n, dtype=F)
	timed = timed_data(data)
	V = np.zeros(n, dtype=F)
	I = np.zeros(n, dtype=F)
	if 'O' in spec:
		O = np.array(spec['O'], dtype=F)
		B = np.zeros(O.shape, dtype=F)
	for seq, times in data:
		W, al, be, p = forward(spec, seq, learn_full(spec, seq, timed))
		if not p > 0:
			skipped += 1
			continue
		if p < floor:
			raise FloatingPointError('close to underflow')
		ll += times*np.log(p)
		obs, ext = split(spec, seq)
		g = al*be*times/p
		I += g[0]
		for k, M in enumerate(W):
			x = al[k][:, None]*M*be[k+1][None, :]*times/p
			if t == 'MDP':
				ia = spec['actions'].index(ext[k])
				N[:, ia, :] += x
				D[:, ia] += g[k]
			else:
				N += x
				if t in ('CTMC', 'PCTMC') and ext is not None:
					D += g[k]*F(ext[k])
					V += g[k]*F(ext[k])
				else:
					D += g[k]
					if t == 'PCTMC':
						V += np.where(e > 0, g[k]/np.where(e > 0, e, 1), 0)
			if t == 'HMM':
				B[:, spec['alphabet'].index(obs[k])] += g[k]
			if t == 'GoHMM':
				for d, v in enumerate(obs[k]):
					B[:, d, 0] += g[k]*F(v)
					B[:, d, 1] += g[k]*(F(v)-O[:, d, 0])**2
	if skipped == len(data):
		raise ZeroDivisionError('no possible sequence')
	if t == 'PCTMC':
		values = dict(spec['values'])
		trans = [list(x) for x in spec['trans']]
		free = lambda pw: {q: pw[q] for q in pw if q not in fixed_params}
		if update_constant:
			for x in trans:
				s, d, c, pw = x
				if not pw and V[s] != 0 and sum(1 for y in trans if y[:2] == [s, d]) == 1:
					x[2] = float(N[s, d]/V[s])
		for q in spec['params']:
			if q in fixed_params:
				continue
			mine = [x for x in spec['trans'] if q in x[3]]
			if not mine:
				continue
			degs = [sum(free(x[3]).values()) for x in mine]
			val = [_value(spec, x) for x in mine]
			num = sum(x[3][q]*N[x[0], x[1]]*(v/A[x[0], x[1]] if v else 0) for x, v in zip(mine, val))
			old = F(spec['values'][q])
			co = {}
			for x, c, v in zip(mine, degs, val):
				co[c] = co.get(c, F(0))+x[3][q]*v*V[x[0]]
			if sum(co.values()) == 0:
				continue
			if len(co) == 1:
				c = degs[0]
				values[q] = float(old*(num/co[c])**(F(1)/c))
			else:
				poly = [0.0]*(max(co)+1)
				for c in co:
					poly[c] = float(co[c]/old**c)
				poly[0] = -float(num)
				r = np.roots(poly[::-1])
				values[q] = float(max(z.real for z in r if abs(z.imag) < 1e-9))
		new['values'], new['trans'] = values, trans
		return new, ll, skipped
	if t == 'MDP':
		An = np.where(D[:, :, None] > 0, N/np.where(D > 0, D, 1)[:, :, None], A)
	else:
		An = np.where(D[:, None] > 0, N/np.where(D > 0, D, 1)[:, None], A)
	if t == 'CTMC':
		An = np.where((e == 0)[:, None], A, An)	# nothing leaves an absorbing state
	if t == 'CTMC' and fixed is not None:
		An = np.where(np.array(fixed, dtype=bool), A, An)
	new['A'] = An
	if t in ('HMM', 'GoHMM'):
		new['init'] = I/I.sum()
	if t == 'HMM':
		new['O'] = np.where(D[:, None] > 0, B/np.where(D > 0, D, 1)[:, None], O)
	if t == 'GoHMM':
		d = np.where(D > 0, D, 1)[:, None]
		mu = np.where(D[:, None] > 0, B[:, :, 0]/d, O[:, :, 0])
		sd = np.where(D[:, None] > 0, np.sqrt(B[:, :, 1]/d), O[:, :, 1])
		new['O'] = np.stack((mu, sd), axis=2)
	return new, ll, skipped


def bw(spec, data, epsilon, max_it, **kw):
	"""Reference run: (final spec, number of rounds, loglikelihoods, margin).
	margin: how far the stop decisions were from their threshold."""
	prev = -np.inf
	lls = []
	margin = np.inf
	while len(lls) < max_it:
		spec, ll, _ = em_step(spec, data, **kw)
		lls.append(float(ll))
		diff = float(ll)-prev
		if len(lls) < max_it and np.isfinite(diff):
			margin = min(margin, abs(diff-epsilon))
		if diff < epsilon:
			break
		prev = float(ll)
	return spec, len(lls), lls, margin


# ---------------------------------------------------------------- sampling ---
def pick(rng, p):
	p = [float(x) for x in p]
	r = rng.random()*sum(p)
	for i, x in enumerate(p):
		if r < x:
			return i
		r -= x
	return max(i for i, x in enumerate(p) if x > 0)


def sample(spec, rng, length, timed=False, actions=None):
	"""a trace of the spec, in jajapy's format (MC/HMM/GoHMM: `length`
	observations, others: `length` transitions)"""
	t = spec['t']
	s = pick(rng, pi(spec))
	out = []
	if t == 'HMM':
		for _ in range(length):
			out.append(spec['alphabet'][pick(rng, spec['O'][s])])
			s = pick(rng, spec['A'][s])
		return out
	if t == 'GoHMM':
		for _ in range(length):
			out.append([rng.gauss(m, sd) for m, sd in spec['O'][s]])
			s = pick(rng, spec['A'][s])
		return out
	A = matrix(spec)
	lab = spec['labels']
	if t == 'MC':
		while len(out) < length:
			out.append(lab[s])
			if sum(A[s]) == 0:
				break
			s = pick(rng, A[s])
		return out
	for _ in range(length):
		if t == 'MDP':
			av = [i for i in range(len(spec['actions'])) if sum(A[s][i]) > 0]
			if not av:
				break
			a = av[rng.randrange(len(av))]
			out += [lab[s], spec['actions'][a]]
			s = pick(rng, A[s][a])
		else:
			e = float(sum(A[s]))
			if e == 0:
				break
			out.append(lab[s])
			if timed:
				out.append(rng.expovariate(e))
			s = pick(rng, A[s])
	out.append(lab[s])
	return out
