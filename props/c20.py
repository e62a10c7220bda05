"""C20: state-merging learning depends on the traces only."""
import math

import numpy as np

from sim import gen, ref
from sim.core import Violation
from sim.lib import call, unexpected
from . import common
from .c04 import well_formed

RUNS = {'quick': 4000, 'thorough': 120000}
LEVEL = 'exploration'
REAL = common.REAL
STUB = ['clocks, the random stream, the hash seed (one per shard and one for the twin process)']
TWIN = True
ASSUMPTIONS = ['two learned models are compared up to a renaming of the states']
RULE = 'Alergia and IOAlergia on a set of traces, on the same traces arriving in another order (and stored with other multiplicities), after another learning by the same object, and in a process with another hash seed; the traces are run through the learned automaton, and every probability compared with the frequency of the transition. Non-trivial: at least one pair of states was merged.'


def generate(rng, i, tier):
	t = rng.choice(['MC', 'MDP'])
	m = gen.trainable(rng, t, plain=True, smax=4)
	while t == 'MDP' and m['A'][-1] != m['A'][-1]:
		m = gen.trainable(rng, t, plain=True, smax=4)
	data, _ = gen.dataset(rng, m, rng.choice([1, 2, 4, 8, 15]), rng.choice([3, 5]), impossible=0.05)
	if t == 'MDP':
		# 'init' only at the start; a name can be an action and an observation
		if rng.random() < 0.3:
			k = {a: l for a, l in zip(m['actions'], sorted(set(m['labels'])-{'init'}))}
			data = [[[k.get(x, x) if j % 2 else x for j, x in enumerate(s)], n] for s, n in data]
	if t == 'MDP' and rng.random() < 0.2:
		d2 = []
		for s, n in data:
			if len(s) > 2 and s[2:] not in [x for x, _ in d2]:
				d2.append([s[2:], n])
		if any(len(x) > 1 for x, _ in d2):
			data = d2
	if t == 'MC' and rng.random() < 0.3:
		d2 = []
		for s, n in data:
			if len(s) > 1 and s[1:] not in [x for x, _ in d2]:
				d2.append([s[1:], n])
		data = d2
	r = rng.random()
	if r < 0.7:
		data = [[s, n*(rng.choice([1, 10, 100]) if r < 0.5 else 100000)] for s, n in data]
	perm = list(range(len(data)))
	rng.shuffle(perm)
	e = gen.env(rng)
	e['twin'] = rng.random() < 0.4
	return {'env': e, 't': t, 'data': data, 'order': perm, 'split': rng.randint(0, 3), 'alpha': rng.choice([0.05, 0.1, 0.5, 1.0, 0.001]), 'again': rng.random() < 0.3}


def learn(ja, wl, data=None, learner=None, **kw):
	data = wl['data'] if data is None else data
	s = ja.Set([list(x) for x, _ in data], np.array([n for _, n in data]), 0 if wl['t'] == 'MC' else 1)
	b = learner or (ja.Alergia() if wl['t'] == 'MC' else ja.IOAlergia())
	kw.setdefault('stormpy_output', False)
	return call(b.fit, s, wl['alpha'], **kw)


def rows(h):
	v = ref.view(h)
	return walk(v['A'] if v['t'] == 'MDP' else v['A'][:, None, :], v.get('actions', ['-']), v['labels'])


def walk(A, acts, lab):
	"""the deterministic automaton from the initial state, states renamed in
	order of a breadth-first walk: two equal models give the same"""
	start = lab.index('init')
	order, out = [start], []
	i = 0
	while i < len(order):
		s = order[i]
		i += 1
		row = []
		for a in sorted(acts):
			nx = [(lab[d], A[s, acts.index(a), d], d) for d in range(len(lab)) if A[s, acts.index(a), d] > 0]
			nx.sort(key=lambda x: (x[0], x[1]))
			for l, p, d in nx:
				if d not in order:
					order.append(d)
				row.append((a, l, float(p), order.index(d)))
		out.append((lab[s], row))
	return out, len(lab)


class Node:
	def __init__(self, key):
		self.key, self.label, self.tr = key, key[-1], {}


def merging(data, t, alpha):
	"""Red-blue state merging by the definition: the blue nodes are examined in
	order, each is merged with the first red node it is compatible with.
	Returns (A, actions, labels, distance of the closest decision to its bound)"""
	roots, count = {}, {}
	for s, n in data:
		x = list(s)
		if t == 'MC':
			x = ['-']*(2*len(s)-1)
			x[::2] = s
			if s[0] != 'init':
				x = ['init', '-']+x
		count[x[0]] = count.get(x[0], 0)+n
		node = roots.setdefault(x[0], Node((x[0],)))
		for k in range(1, len(x)-1, 2):
			kid = node.tr.setdefault(x[k], {}).setdefault(x[k+1], [0, Node(node.key+(x[k], x[k+1]))])
			kid[0] += n
			node = kid[1]
	margin = [math.inf]

	def compatible(r, u):
		if r.label != u.label:
			return False
		for a in set(r.tr) & set(u.tr):
			n, m = sum(k[0] for k in r.tr[a].values()), sum(k[0] for k in u.tr[a].values())
			bound = (math.sqrt(1/n)+math.sqrt(1/m))*math.sqrt(math.log(2/alpha)/2)
			for o in set(r.tr[a]) | set(u.tr[a]):
				d = abs(r.tr[a].get(o, [0])[0]/n-u.tr[a].get(o, [0])[0]/m)
				margin[0] = min(margin[0], abs(d-bound))
				if d >= bound:
					return False
		return all(compatible(r.tr[a][o][1], u.tr[a][o][1]) for a in set(r.tr) & set(u.tr) for o in set(r.tr[a]) & set(u.tr[a]))

	def fold(r, u):
		for a in u.tr:
			for o, (n, kid) in u.tr[a].items():
				mine = r.tr.setdefault(a, {}).get(o)
				if mine is None:
					r.tr[a][o] = [n, kid]
				else:
					mine[0] += n
					fold(mine[1], kid)

	red = [roots[l] for l in sorted(roots)]
	while True:
		blue = []
		for r in red:
			for a in sorted(r.tr):
				for o in sorted(r.tr[a]):
					if r.tr[a][o][1] not in red:
						blue.append((r.tr[a][o][1], r, a, o))
		if not blue:
			break
		u, parent, a, o = blue[0] if t == 'MC' else min(blue, key=lambda x: x[0].key)
		for r in red:
			if compatible(r, u):
				parent.tr[a][o][1] = r
				fold(r, u)
				break
		else:
			red.append(u)
	acts = sorted(set(a for r in red for a in r.tr) | set(x for s, _ in data for x in s[1::2] if t == 'MDP')) or ['-']
	lab = [r.label for r in red]
	if 'init' not in lab:
		lab.append('init')
	A = np.zeros((len(lab), len(acts), len(lab)))
	for i, r in enumerate(red):
		for a in r.tr:
			n = sum(k[0] for k in r.tr[a].values())
			for k, kid in r.tr[a].values():
				A[i, acts.index(a), red.index(kid)] = k/n
	if len(lab) > len(red):
		for l in roots:
			A[-1, 0, red.index(roots[l])] = count[l]/sum(count.values())
	return A, acts, lab, margin[0]


def compare(a, b):
	return equal([a[1], a[0]], [b[1], b[0]])


def equal(a, b):
	if a[1] != b[1]:
		return '%d / %d states' % (a[1], b[1])
	for (la, ra), (lb, rb) in zip(a[0], b[0]):
		if la != lb or len(ra) != len(rb):
			return '%r / %r' % ((la, ra), (lb, rb))
		for x, y in zip(ra, rb):
			if (x[0], x[1], x[3]) != (y[0], y[1], y[3]) or not ref.close(x[2], y[2], 1e-9, 0):
				return '%r / %r' % (x, y)
	if len(a[0]) != len(b[0]):
		return '%d / %d reachable states' % (len(a[0]), len(b[0]))
	return None


def execute(ja, wl, w):
	data, t = wl['data'], wl['t']
	w.tags[t] = 1
	o = learn(ja, wl)
	w.ops += 2
	if not o.ok:
		return [unexpected(o, 'fit')]
	h = o.value
	v = ref.view(h)
	m = well_formed(v)
	if m:
		return [Violation('malformed', m)]
	if v['labels'].count('init') != 1:
		return [Violation('malformed', 'labels %r' % v['labels'])]
	seen = set(x for s, _ in data for x in (s if t == 'MC' else s[0::2]))
	if set(v['labels'])-{'init'} != seen-{'init'}:
		return [Violation('labels', 'labels %r, the traces have %r' % (sorted(set(v['labels'])), sorted(seen)))]
	if t == 'MDP' and set(v['actions']) != set(x for s, _ in data for x in s[1::2]):
		return [Violation('labels', 'actions %r' % v['actions'])]
	spec = {'t': t, 'A': v['A'], 'labels': v['labels'], 'name': ''}
	if t == 'MDP':
		spec['actions'] = v['actions']

	def whole(s):
		return s if s[0] == 'init' else ['init']+([v['actions'][0]] if t == 'MDP' else [])+s

	for s, n in data:
		x = whole(s)
		if not ref.prob(spec, x) > 0:
			return [Violation('impossible', 'the learned model cannot generate the training trace %r' % (x,))]
	# the initial state is never merged: the first step has the observed frequencies
	first = {}
	for s, n in data:
		x = whole(s)
		if t == 'MC' and len(x) > 1:
			first.setdefault('-', {}).setdefault(x[1], [0])[0] += n
		elif t == 'MDP' and len(x) > 2:
			first.setdefault(x[1], {}).setdefault(x[2], [0])[0] += n
	for a in first:
		tot = sum(k[0] for k in first[a].values())
		for l, k in first[a].items():
			p = float(ref.prob(spec, ['init', l] if t == 'MC' else ['init', a, l]))
			if abs(p-k[0]/tot) > 1e-9:
				return [Violation('frequency', 'first step %r %r: probability %.9g, frequency %.9g' % (a, l, p, k[0]/tot))]
	# every probability is the relative frequency with which the training
	# traces take the transition, when they are run through the learned model
	A = v['A'] if t == 'MDP' else v['A'][:, None, :]
	acts = v['actions'] if t == 'MDP' else ['-']
	lab = v['labels']
	count = np.zeros(A.shape)
	for s, n in data:
		x = whole(s)
		if t == 'MC':
			x = [y for z in x for y in (z, '-')][:-1]
		c = lab.index('init')
		for k in range(1, len(x)-1, 2):
			ai = acts.index(x[k])
			nx = [d for d in range(len(lab)) if A[c, ai, d] > 0 and lab[d] == x[k+1]]
			if len(nx) != 1:
				return [Violation('ambiguous', 'state %d has %d transitions to label %r under %r' % (c, len(nx), x[k+1], x[k]))]
			count[c, ai, nx[0]] += n
			c = nx[0]
	for s in range(len(lab)):
		for ai in range(len(acts)):
			tot = count[s, ai].sum()
			if tot > 0 and abs(A[s, ai]-count[s, ai]/tot).max() > 1e-9:
				return [Violation('frequency', 'state %d under %r: probabilities %r, the traces pass with frequencies %r' % (s, acts[ai], A[s, ai].tolist(), (count[s, ai]/tot).tolist()))]
	ra = rows(h)
	w.observe = [ra[1], ra[0]]
	A, acts, lab, margin = merging(data, t, wl['alpha'])
	if margin > 1e-9:
		m = equal(ra, walk(A, acts, lab))
		if m:
			return [Violation('merged', 'the states that may be merged (and only they) give another model: '+m)]
	else:
		w.tags['on the bound'] = 1
	# the same traces in another order and with other multiplicities
	d2 = []
	for j in wl['order']:
		if j >= len(data):
			continue
		s, n = data[j]
		if wl['split'] and n > 1 and j % (wl['split']+1) == 0:
			k = max(1, n//3)
			d2 += [[s, n-k], [s, k]]
		else:
			d2.append([s, n])
	if sorted(set(wl['order'])) == list(range(len(data))):
		if wl['split'] > 1:
			d2 = d2[::-1]
		learner = None
		if wl['again']:
			learner = ja.Alergia() if t == 'MC' else ja.IOAlergia()
			learn(ja, wl, data[:max(1, len(data)//2)], learner)
		o = learn(ja, wl, d2, learner)
		if not o.ok:
			return [unexpected(o, 'fit')]
		m = equal(ra, rows(o.value))
		if m:
			return [Violation('order', 'the same traces in another order give another model: '+m)]
	prefixes = set()
	for s, n in data:
		for k in range(1, len(s)+1, 1 if t == 'MC' else 2):
			prefixes.add(tuple(s[:k]))
	w.nontrivial = len(v['labels']) < len(prefixes)
	return []
