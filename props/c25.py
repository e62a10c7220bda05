"""C25: what is printed of a model is the model."""
import re

import numpy as np

from sim import gen, ref
from sim.core import Violation, _Random
from sim.lib import call, changed, interrupt_after, state, unexpected
from . import common, fitlib

RUNS = {'quick': 2000, 'thorough': 100000}
LEVEL = 'exploration'
REAL = common.REAL
STUB = common.STUB+['the file system below the scratch folder', 'Ctrl-C at a chosen executed line']
ASSUMPTIONS = ['printed numbers have at least the five decimals of the shipped format (three for initial distributions, four for Gaussians); transitions whose probability is not above 1e-4 may be left out']
RULE = 'a history over up to three models of any kind: each is printed after it was made, relabelled, renamed, learned (also interrupted), instantiated (also partially, or refused), composed, stored and loaded; the text is parsed and compared with the description and with the values the model answers with. Non-trivial: a model was printed after a change.'

KINDS = ['MC', 'MDP', 'HMM', 'GoHMM', 'CTMC', 'PCTMC', 'PCTMC']
OPS = ['print', 'print', 'rename', 'relabel', 'fit', 'fit', 'values', 'values', 'refused', 'store', 'interrupted', 'random', 'merge states']


def generate(rng, i, tier):
	ps = [fitlib.gen_problem(rng, types=KINDS, max_rounds=2, nseq=rng.choice([1, 2, 3]), maxlen=4, smax=3 if rng.random() < 0.9 else 5, impossible=0.0) for _ in range(rng.choice([1, 2, 2, 3]))]
	for p in ps:
		s = p['spec']
		if s['t'] == 'PCTMC' and rng.random() < 0.4:
			p['without'] = [q for q in s['params'] if rng.random() < 0.6]
		if s['t'] != 'PCTMC' and rng.random() < 0.3:
			small(rng, s)
	ops = [['print', k, 0, None] for k in range(len(ps))]
	for _ in range(rng.randint(2, 9)):
		cut = int(10**rng.uniform(0, 3))
		ops.append([rng.choice(OPS), rng.randrange(len(ps)), rng.randrange(1 << 20), cut])
	return {'env': gen.env(rng, gen.benign(rng)), 'ps': ps, 'ops': ops, 'processes': rng.choice([None, 1, 2, 3])}


def small(rng, s):
	"""probabilities close to nothing and close to one"""
	n = len(s['A'])
	i = rng.randrange(n)
	k = rng.choice([1e-3, 2e-4, 3e-5, 1e-6])
	r = s['A'][i] if s['t'] != 'MDP' else s['A'][i][0]
	pos = [j for j in range(n) if r[j] > 0]
	if len(pos) > 1:
		tot = sum(r)
		if s['t'] == 'CTMC':
			r[pos[0]] = k*tot
		else:
			for j in pos:
				r[j] = (1-k)/(len(pos)-1)
			r[pos[0]] = k


def shrink(wl):
	for i in range(len(wl['ops'])-1, -1, -1):
		yield dict(wl, ops=wl['ops'][:i]+wl['ops'][i+1:])


NUM = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|nan|inf'


def near(a, b, tol):
	return a == b or abs(a-b) <= tol+1e-9*abs(b)


def check(h, txt):
	"""None, or how the text differs from the model"""
	t = ref.TYPES[h.model_type]
	v = ref.view(h)
	n = len(v['A'])
	head = 'Name: '+v['name']+'\n'
	if not txt.startswith(head):
		return 'the name is %r, the text starts with %r' % (v['name'], txt[:60])
	lines = txt[len(head):].split('\n')
	blocks, cur = [], []
	top = cur
	for l in lines:
		m = re.match(r'^----STATE s?(\d+)(?:--(.*))?----$', l)
		if m:
			cur = []
			blocks.append((int(m.group(1)), m.group(2), cur))
		elif l.strip(' *'):
			cur.append(l)
	# initial states
	ini = [l for l in top if l.startswith('Initial state: ')]
	if len(ini) != 1:
		return '%d lines about the initial state' % len(ini)
	body = ini[0][len('Initial state: '):]
	if re.match(r'^s\d+$', body):
		got = {int(body[1:]): 1.0}
	else:
		got = {}
		for x in body.split(', '):
			m = re.match(r'^s(\d+): (%s)$' % NUM, x)
			if not m or int(m.group(1)) in got:
				return 'initial states %r' % body
			got[int(m.group(1))] = float(m.group(2))
	for s in range(n):
		p = float(v['pi'][s])
		if s in got and not near(got[s], p, 6e-4) or s not in got and p > 1e-3:
			return 'initial state %d has probability %.6g, the text says %r' % (s, p, body)
	if any(s >= n for s in got):
		return 'initial states %r' % body
	# parameters
	if t == 'PCTMC':
		got = {}
		for l in top:
			m = re.match(r'^(\w+) = (%s)$' % NUM, l)
			if m:
				if m.group(1) in got:
					return 'the value of %s is printed twice' % m.group(1)
				got[m.group(1)] = float(m.group(2))
		want = {q: x for q, x in v['values'].items() if not np.isnan(x)}
		if set(got) != set(want) or any(not near(got[q], want[q], 6e-6) for q in got):
			return 'values %r printed as %r' % (want, got)
		if len(top) != 1+len(got):
			return 'unexpected lines %r' % top
	elif len(top) != 1:
		return 'unexpected lines %r' % top
	if [b[0] for b in blocks] != list(range(n)):
		return 'states %r printed for a model of %d states' % ([b[0] for b in blocks], n)
	for s, lab, ls in blocks:
		if 'labels' in v and lab != v['labels'][s]:
			return 'state %d is labelled %r, printed %r' % (s, v['labels'][s], lab)
		m = row(h, v, t, s, ls)
		if m:
			return m
	return None


def row(h, v, t, s, ls):
	A = v['A']
	n = len(A)
	seen, wait, out, gauss = {}, [], {}, {}
	for l in ls:
		m = re.match(r'^s(\d+) (?:- \((.*)\) )?-> s(\d+) : (?:lambda = )?(.*)$', l)
		if m:
			k = (m.group(2), int(m.group(3)))
			if int(m.group(1)) != s or k in seen or int(m.group(3)) >= n or (m.group(2) is None) != (t != 'MDP'):
				return 'unexpected line %r in state %d' % (l, s)
			seen[k] = m.group(4)
			continue
		m = re.match(r'^.*waiting time: (%s)$' % NUM, l)
		if m and t in ('CTMC', 'PCTMC'):
			wait.append(float(m.group(1)))
			continue
		m = re.match(r'^s(\d+) => (.*) : (%s)$' % NUM, l)
		if m and t == 'HMM' and int(m.group(1)) == s and m.group(2) not in out:
			out[m.group(2)] = float(m.group(3))
			continue
		m = re.match(r'^(mean|std) (\d+): (%s)$' % NUM, l)
		if m and t == 'GoHMM' and (m.group(1), int(m.group(2))) not in gauss:
			gauss[m.group(1), int(m.group(2))] = float(m.group(3))
			continue
		return 'unexpected line %r in state %d' % (l, s)
	if t == 'PCTMC':
		for d in range(n):
			text = seen.pop((None, d), None)
			e = h.transitionExpression(s, d)
			ins = h.isInstantiated(s, d)
			val = float(h.evaluateTransition(s, d)) if ins else None
			if text is None:
				if e.free_symbols or float(e) != 0.0:
					return 'the rate %s from %d to %d is not printed' % (e, s, d)
				continue
			m = re.match(r'^(.*?)(?: \(=(%s)\))?$' % NUM, text)
			if m.group(1) != str(e):
				return 'the rate %s from %d to %d is printed as %r' % (e, s, d, text)
			if (m.group(2) is not None) != (bool(e.free_symbols) and ins) or m.group(2) is not None and not near(float(m.group(2)), val, 6e-6):
				return 'the rate %s from %d to %d has the value %r, printed %r' % (e, s, d, val, text)
	else:
		acts = v.get('actions', [None])
		scale = 1.0
		if t == 'CTMC':
			scale = A[s].sum() or 1.0
		for ai, a in enumerate(acts):
			for d in range(n):
				p = float(A[s, ai, d] if t == 'MDP' else A[s, d])
				text = seen.pop((a, d), None)
				if text is None:
					if p > 1.0001e-4*scale:
						return 'the transition %d -> %d%s of %.6g is not printed' % (s, d, '' if a is None else ' ('+a+')', p)
				elif not re.match('^(?:%s)$' % NUM, text) or p == 0 or not near(float(text), p, 6e-6):
					return 'the transition %d -> %d%s of %.9g is printed as %r' % (s, d, '' if a is None else ' ('+a+')', p, text)
	if seen:
		return 'unexpected transitions %r in state %d' % (sorted(map(str, seen)), s)
	if t in ('CTMC', 'PCTMC'):
		e = float(np.sum(A[s]))
		known = not np.isnan(e)
		if len(wait) != (1 if known else 0):
			return '%d waiting times printed for state %d' % (len(wait), s)
		if known and not near(wait[0], np.inf if e == 0 else 1/e, 6e-6):
			return 'state %d has the waiting time %.9g, printed %r' % (s, 1/e if e else np.inf, wait[0])
	if t == 'HMM':
		for k, x in enumerate(v['alphabet']):
			p = float(v['O'][s, k])
			got = out.pop(str(x), None)
			if got is None and p > 1.0001e-4 or got is not None and not near(got, p, 6e-6):
				return 'state %d emits %r with %.9g, printed %r' % (s, x, p, got)
		if out:
			return 'state %d does not emit %r' % (s, sorted(out))
	if t == 'GoHMM':
		for k in range(v['O'].shape[1]):
			for j, x in enumerate(('mean', 'std')):
				got = gauss.pop((x, k+1), None)
				if got is None or not near(got, float(v['O'][s, k, j]), 6e-5):
					return 'the %s %d of state %d is %.9g, printed %r' % (x, k+1, s, v['O'][s, k, j], got)
		if gauss:
			return 'unexpected distributions %r' % sorted(gauss)
	return None


class Live:
	def __init__(self, ja, p):
		self.p = p
		self.t = p['spec']['t']
		s = p['spec']
		if p.get('without'):
			s = dict(s, values={q: x for q, x in s['values'].items() if q not in p['without']})
		self.h = ref.build(ja, s)
		self.strange = False # does the model still know the observations?
		self.ts = gen.to_set(ja, p['data'], p['spec'])
		if not p.get('without'):
			self.first = s


def execute(ja, wl, w):
	lives = [Live(ja, p) for p in wl['ps']]
	learner = ja.BW()
	changes = 0
	for l in lives:
		if hasattr(l, 'first'):
			d = ref.differ(ref.view(l.h), ref.spec_view(l.first), 1e-12, 0, name=True)
			if d:
				return [Violation('made', d)]
	for kind, i, seed, cut in wl['ops']:
		w.ops += 1
		rng = _Random(seed)
		l = lives[i % len(lives)]
		h = l.h
		w.tags[kind+' '+l.t] = w.tags.get(kind+' '+l.t, 0)+1
		if kind == 'rename':
			h.name = rng.choice(gen.NAMES)
		elif kind == 'relabel':
			if l.t in ('HMM', 'GoHMM', 'PCTMC'):
				continue
			lab = [x if x == 'init' else rng.choice(['new', 'x--y', x, 'state 1', '----']) for x in h.labelling]
			o = call(h.updateLabelling, lab)
			l.strange = True
			if not o.ok:
				return [unexpected(o, 'new labels')]
		elif kind in ('fit', 'interrupted'):
			# (huge rates: the probability of a trace underflows)
			if l.t == 'PCTMC' and any(not h.parameter_values.get(q, np.nan) < 100 for q in h.parameter_str):
				continue
			k = dict(fitlib.fit_kwargs(ja, l.p), max_it=1, verbose=0, processes=wl['processes'])
			with interrupt_after(w, cut if kind == 'interrupted' else None):
				o = call(learner.fit, l.ts, initial_model=h, **k)
			if o.ok:
				l.h = o.value
			elif o.kind == 'hang' or kind == 'fit' and not l.strange:
				return [unexpected(o, 'fit')]
		elif kind in ('values', 'refused'):
			if l.t != 'PCTMC':
				continue
			l.strange = True
			ps = rng.sample(list(h.parameter_str), rng.randint(1, len(h.parameter_str)))
			x = [rng.choice([round(rng.uniform(0.1, 5), 3), 1/3, 2e-7, 12345.678]) for _ in ps]
			if kind == 'refused':
				x[rng.randrange(len(x))] = -1.0
			call(h.instantiate, ps, x)
		elif kind == 'random':
			if l.t != 'PCTMC':
				continue
			call(h.randomInstantiation, None, 0.1, 2.0)
			l.strange = True
		elif kind == 'store':
			o = call(h.save, 'm.txt')
			if not o.ok:
				return [unexpected(o, 'save')]
			o = call(getattr(ja, 'load'+l.t), 'm.txt')
			if not o.ok:
				return [unexpected(o, 'load')]
			l.h = o.value
		elif kind == 'merge states':
			if l.t not in ('MC', 'MDP') or any(s[0] != 'init' for s, _ in l.p['data']):
				continue
			o = call((ja.Alergia() if l.t == 'MC' else ja.IOAlergia()).fit, l.ts, 0.1, stormpy_output=False)
			if not o.ok:
				return [unexpected(o, 'state merging')]
			v = show(o.value, w, l.t+' learned by merging states')
			if v:
				return v
			continue
		if kind != 'print':
			changes += 1
		v = show(l.h, w, '%s after %r' % (l.t, kind))
		if v:
			return v
	w.nontrivial = changes > 0
	return []


def show(h, w, what):
	before = state(h)
	o = call(str, h)
	if not o.ok:
		return [unexpected(o, 'print')]
	d = changed(before, state(h))
	if d:
		return [Violation('changed', 'printing a %s: %s' % (what, d))]
	m = check(h, o.value)
	if m:
		return [Violation('printed', '%s: %s' % (what, m))]
	return []
